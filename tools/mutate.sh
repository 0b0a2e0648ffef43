#!/bin/bash
# mutate.sh 'python-expr on s' file patterns... : run prove.py on a mutated scratch copy (development helper)
D=$(mktemp -d /tmp/mutXXXX); cp -a /repo/bm25s $D/
python3 - "$D/bm25s/$1" "$2" "$3" <<'P'
import sys
f,a,b=sys.argv[1:4]; s=open(f).read(); assert s.count(a)>=1, "pattern not found"; open(f,'w').write(s.replace(a,b,1))
P
shift 3; PYDV_REPO=$D /verif/tools/prove.py "$@"; rm -rf "$D"
