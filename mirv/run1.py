import sys, time, os
sys.path.insert(0, '/verif/mirv')
from core import *
import engine, contracts
P = Prog(os.environ.get('MIR','/tmp/mir/out.json'))
sp = contracts.Spec(P)
for x in sp.errors: print('SPEC', x)
pats = sys.argv[1:]
tot = 0
for name, c in sp.C.items():
    if pats and not any(p in name for p in pats): continue
    ks = P.by_name.get(name)
    if not ks:
        print('GONE', name); continue
    e = engine.Engine(P, sp.C, sp.doms, sp.tinv)
    t = time.time()
    try:
        ob = e.verify(ks[0], c)
        bad = [o for o in ob if not o.ok]
        print('%-4s %-90s %3d obl %5.1fs %d checks' % ('ok' if not bad else 'FAIL', name.replace('silverfox::',''), len(ob), time.time()-t, e.checks))
        for o in bad: print('       ', o.kind, o.name, o.line, o.detail, o.model[:int(os.environ.get("ML","0"))])
    except Unsupported as x:
        print('UNS  %-90s %s' % (name.replace('silverfox::',''), x))
        if os.environ.get('TB'):
            import traceback; traceback.print_exc()
    except Exception as x:
        import traceback
        print('EXC ', name); traceback.print_exc(limit=-8)
