#!/bin/bash
# developer loop: extract and verify a layer:  tools/xl.sh [list|flash|node|worker] verus-args…
cd /verif/specs; O=/tmp/vp-dev; mkdir -p $O
L=list; case "$1" in list|flash|node|worker) L=$1; shift;; esac
SP=$(cd /verif; python3 -c "import layers;print(' '.join('--spec '+s for s in layers.LAYERS['$L']['specs']))")
/verif/extract/target/release/extract $SP --out $O/$L.rs --report $O/$L.json --anchors /verif/specs/$L.anchors.json $XARGS || exit 1
python3 -c "
import json;r=json.load(open('$O/$L.json'))
for l in r['lost']: print('LOST',l)
for f in r['fns']:
  if f['weak'] or f['inlined']: print(f['fn'],f['weak'],f['inlined'])
"
verus $O/$L.rs --edition=2024 --triggers-mode silent "$@"
