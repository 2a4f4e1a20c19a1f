#!/bin/bash
# mut.sh <file under /repo> <sed expression> <ID...>: run checks against a mutated copy
d=$(mktemp -d /tmp/mutXXXX); cp -a /repo/include /repo/applications $d/ ; sed -i "$2" $d/$1
diff -r -q /repo/include $d/include >/dev/null && diff -r -q /repo/applications $d/applications > /dev/null && echo "NO CHANGE: $2"
shift 2
for p in "$@"; do BWSL_REPO=$d python3 /verif/run.py $p | tail -1 | cut -c1-200; done
rm -r $d
