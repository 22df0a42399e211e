import sys; sys.path[:0]=['/verif/lib','/verif/rules']
import os,tempfile,dump,collections
os.environ.setdefault('VERIF_CACHE','/tmp/w/cache')
P,_=dump.load(os.environ.get('R','/repo'),tempfile.mkdtemp(dir='/tmp/w'))
from absint import *
B='esl::economics::markets::order_book::static_order_book'
PO='esl::computation::block_pool::static_block_pool<esl::economics::markets::order_book::static_order_book::record, unsigned long>'
OP=[B+'::'+n for n in ('match_at_level','bid','ask','update_best_bid','update_best_ask')]+[PO+'::'+n for n in ('emplace','erase','contains')]+['get','operator<<','esl::mathematics::interval<esl::economics::markets::quote, true, true>::contains','esl::mathematics::interval::contains']
fn=P.one(B+'::'+sys.argv[1])
I=Interp(P,atomic=['esl::economics::markets::quote'],opaque=OP)
ts=I.run(fn,args=[('param','p%d'%i) for i in range(len(fn['params']))])
print(len(ts))
c=collections.Counter()
for t in ts:
    for a in t.conds: c[pp(a)[:200]]+=1
for a,n in c.most_common(80): print(n,a)
print(I.inlined)
if len(sys.argv)>2:
    for i in sys.argv[2].split(','): show([ts[int(i)]])
import re
def short(x):
    x=pp(x) if isinstance(x,tuple) else str(x)
    x=x.replace('esl::computation::block_pool::static_block_pool<esl::economics::markets::order_book::static_order_book::record, unsigned long>','POOL').replace('esl::economics::markets::order_book::static_order_book','SOB')
    return re.sub(r'upd\(.*','UPD',x)[:170]
def sh(t):
    print('---',t.kind,short(t.ret))
    for a,v in t.conds.items(): print('  ?', '' if v else 'NOT', short(a))
    for e in t.events:
        if e[0]=='init': continue
        if e[0] in('loop','during'):
            print('  ',e[0],e[1],short(e[2]),'complete',e[5])
            for b in e[4]:
                print('     |',b[0],[('' if v else '!')+short(a) for a,v in b[1].items() if a not in t.conds])
                for x in b[2]:
                    if x[0]!='init': print('     |  ',x[0],[short(y) for y in x[1:]])
        else: print('  ',e[0],[short(y) for y in e[1:]])
if os.environ.get('C'):
    for t in ts:
        cs=' '.join(('' if v else '!')+short(a) for a,v in t.conds.items())
        if all(re.search(r,cs) for r in os.environ['C'].split(';;')):
            sh(t); break
