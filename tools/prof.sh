#!/bin/bash
# developer: slowest functions of a generated file
verus $1 --edition=2024 --triggers-mode silent --rlimit 100 --time-expanded --output-json 2>/dev/null > /tmp/vp-dev/t.json; python3 - <<'P'
import json
t=open('/tmp/vp-dev/t.json').read(); i=t.index('{'); j=json.loads(t[i:])
def walk(o):
    if isinstance(o,dict):
        if 'function-breakdown' in o:
            for f in o['function-breakdown']: yield f
        for v in o.values(): yield from walk(v)
    elif isinstance(o,list):
        for v in o: yield from walk(v)
fs=list(walk(j)); fs.sort(key=lambda f:-f['time-micros'])
for f in fs[:12]: print(f['function'],f['time-micros']/1e6,f.get('rlimit'))
P
