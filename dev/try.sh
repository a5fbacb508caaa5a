#!/bin/bash
# try.sh CHECK 'file' 'python-expr on s' : run a check against a scratch copy with an edit
rm -rf /tmp/w/r$$; mkdir -p /tmp/w/r$$; cp -a /repo/mappyfile /tmp/w/r$$/
python3 - "$2" "$3" "$4" /tmp/w/r$$ <<'P'
import sys
f=sys.argv[4]+"/mappyfile/"+sys.argv[1]; s=open(f).read()
assert sys.argv[2] in s, "pattern not found"
open(f,"w").write(s.replace(sys.argv[2],sys.argv[3],1))
P
cd /verif; for c in $1; do VERIF_REPO=/tmp/w/r$$ VERIF_EVID=/tmp/w/ev$$ VERIF_SHOW=${SHOW:-2} timeout 900 python3-vt check.py $c | cut -c1-400; done
rm -rf /tmp/w/r$$ /tmp/w/ev$$
