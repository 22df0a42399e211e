import sys; sys.path.insert(0,'/verif/lib')
import os,tempfile,dump
from prog import *; from absint import *
os.environ.setdefault('VERIF_CACHE','/tmp/w/cache')
P,_=dump.load(os.environ.get('R','/repo'),tempfile.mkdtemp(dir='/tmp/w'))
qn=sys.argv[1]; op=sys.argv[2:] 
for f in P.find(qn):
    print('#####',f['qn'],f['file'],f['line'],f.get('cls'),f['fid'][:80])
    I=Interp(P,opaque=op)
    try: show(I.run(f))
    except Limit as e: print('LIMIT',e)
