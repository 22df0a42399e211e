#!/bin/bash
# rf.sh PROP file <<< python code operating on s
d=/tmp/w/rv; mkdir -p $d
/bin/rm -rf /tmp/w/rv/r; cp -a /repo /tmp/w/rv/r; cat > /tmp/w/rv/e.py
python3 - $2 <<'P'
import sys
p='/tmp/w/rv/r/'+sys.argv[1]; s=open(p).read(); o=s
exec(open('/tmp/w/rv/e.py').read())
assert s!=o,'unchanged'
open(p,'w').write(s)
P
cd /verif; for p in $1; do VERIF_CACHE=/tmp/w/cache python3 check.py $p --repo /tmp/w/rv/r $3 | tail -${T:-8}; done
