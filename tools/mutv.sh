#!/bin/bash
# developer tool: verify a layer against a copy of /repo's source with one sed edit
# tools/mutv.sh LAYER FILE 'sed-expr'
D=/tmp/vp-mut; rm -rf $D; mkdir -p $D; cp -r /repo/crates/cfg-noodle/src $D/
sed -i -E "$3" $D/src/$2
diff -r /repo/crates/cfg-noodle/src $D/src | grep '^[<>]'
XARGS="--repo $D/src" /verif/tools/xl.sh $1 --multiple-errors 3 --rlimit 100 --num-threads 8 2>&1 | grep -v "^$" | grep -E "^error|LOST|verification results|^ *--> |^\[" | head -${4:-12}
