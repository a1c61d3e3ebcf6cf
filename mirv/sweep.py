import sys, time, os
sys.path.insert(0, '/verif/mirv')
from core import *
import engine, contracts
P = Prog(os.environ.get('MIR','/tmp/mir/out.json'))
sp = contracts.Spec(P)
from multiprocessing import Pool as MP
names=[n for n,ks in P.by_name.items() if n.lstrip('<').startswith('silverfox::') and '{closure' not in n and n not in sp.C and 'Debug>::fmt' not in n]
pats=sys.argv[1:]
if pats: names=[n for n in names if any(p in n for p in pats)]
def run(n):
    t=time.time()
    e = engine.Engine(P, sp.C, sp.doms, sp.tinv)
    c = engine.Contract(n, props=('C18',), opts={'io':True})
    try:
        ob=e.verify(P.by_name[n][0], c)
        bad=[o for o in ob if not o.ok]
        return ('ok' if not bad else 'FAIL', n, len(ob), time.time()-t, [(o.name,o.line) for o in bad][:4])
    except Unsupported as x:
        return ('UNS', n, 0, time.time()-t, str(x)[:200])
    except Exception as x:
        return ('EXC', n, 0, time.time()-t, repr(x)[:200])
with MP(7) as mp:
    for r in mp.imap_unordered(run, names):
        print('%-4s %-80s %4d %5.1f %s'%(r[0],r[1].replace('silverfox::',''),r[2],r[3],r[4]), flush=True)
