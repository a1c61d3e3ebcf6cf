"""Checks every contract against the MIR of /repo, one process per function.
Usage: prove.py MIR.json OUT.json [seconds per function] [the property it is for]
For one property, a slow function none of whose obligations the property rests on is left out."""
import json, multiprocessing as mp, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from core import *
import engine, contracts, lemmas
import shutil, subprocess

P = SP = None
LIMIT = 240.0

def one(name):
    t = time.time()
    c = SP.C[name]
    r = dict(fn=name, props=list(c.props), obls=[], status='ok', why='')
    ks = P.by_name.get(name)
    if not ks:
        r.update(status='gone', why='there is no function of this name any more')
        return r
    e = engine.Engine(P, SP.C, SP.doms, SP.tinv)
    e.deadline = t + LIMIT
    try:
        ob = e.verify(ks[0], c)
    except Unsupported as x:
        r.update(status='out-of-reach', why=str(x)[:300])
        # what was refuted before time ran out stays refuted
        ob = [o for o in e.obls if not o.ok and not o.model.startswith('unknown')] if 'time budget' in str(x) else []
    except RecursionError:
        r.update(status='out-of-reach', why='recursion limit of the engine')
        ob = []
    except Exception as x:
        r.update(status='out-of-reach', why='engine: %s: %s' % (type(x).__name__, str(x)[:300]))
        ob = []
    for o in ob:
        st = 'ok' if o.ok else 'unknown' if o.model.startswith('unknown') else 'refuted'
        r['obls'].append(dict(name=o.name, kind=o.kind, props=list(o.props), st=st, line=str(o.line), t=round(o.time, 3), detail=o.detail, model='' if o.ok else o.model[:6000]))
    r.update(wall=round(time.time() - t, 2), solver=round(e.solver_time, 2), queries=e.checks, assumptions=sorted(e.assumptions), trusted=sorted(e.trusted),
             inlined=sorted(e.inlined), called=sorted(e.called), assumed=c.assumed)
    return r

# slow functions: the properties they are checked for at once (others only when a function they rest on calls them)
LATER = {'silverfox::importer::Rules::get_entry_from_record': {'C04', 'C12', 'C17', 'C18'}}

def rests_on(fns, prop, name):
    """is the function of this name called from those the property rests on? (as harness/props.py decides it)"""
    by = {f['fn']: f for f in fns}
    todo = [f['fn'] for f in fns if prop in f['props'] or any(prop in o['props'] and o['kind'] in ('post', 'tinv', 'text') for o in f['obls'])]
    seen = set(todo)
    while todo:
        for g in by.get(todo.pop(), {}).get('called', ()):
            if g == name:
                return True
            if g not in seen:
                seen.add(g)
                todo.append(g)
    return False

def main(mir, out, limit, prop=None, procs=8):
    global P, SP, LIMIT
    LIMIT = limit
    res = dict(fns=[], spec_errors=[], lemmas=[])
    P = Prog(mir)
    SP = contracts.Spec(P)
    res['spec_errors'] = SP.errors
    # the lemmas about folds; one that cannot be shown is not used
    SP.P = P
    for l in lemmas.run(SP):
        res['lemmas'].append(dict(name=l['name'], kind='lemma', props=[], st='ok' if l['ok'] else 'unknown', line='', t=l['t'], detail='', model='' if l['ok'] else 'unknown: ' + l['result']))
        if not l['ok']:
            SP.doms = [d for d in SP.doms if not l['name'].startswith(d.name + ':')]
            for v in list(vars(SP).values()):
                if type(v).__name__ == 'Fold' and l['name'] == v.name + ' is not negative':
                    v.nonneg = False
    # the rules of folds themselves: and of texts: checked by Lean beside the rest
    here = os.path.dirname(os.path.abspath(__file__))
    ln = shutil.which('lean')
    lps = [(nm, subprocess.Popen([ln, os.path.join(here, '..', nm)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)) for nm in ('lean/Folds.lean', 'lean/Text.lean')] if ln else []
    # the slow ones first
    slow = ['get_entry_from_record']
    slow2 = ['as_register', 'maximum_len', 'import_csv', 'next_due', 'last_due', 'infer', 'append_entry', 'get_filling_postings', 'process_entry', 'get_totals', 'process_manual']
    names = sorted(SP.C, key=lambda n: (not any(s in n for s in slow), not any(s in n for s in slow2), n))
    names = [n for n in names if not SP.C[n].assumed]
    later = [n for n in names if prop and prop not in LATER.get(n, (prop,)) and prop not in SP.C[n].props]
    with mp.Pool(procs, maxtasksperchild=1) as pool:
        res['fns'] = list(pool.imap_unordered(one, [n for n in names if n not in later], 1))
    for n in later:
        if rests_on(res['fns'], prop, n):
            res['fns'].append(one(n))
    res['fns'].sort(key=lambda r: r['fn'])
    for (nm, lp) in lps:
        try:
            o = lp.communicate(timeout=120)[0].decode()
            good = lp.returncode == 0 and 'sorry' not in o
        except subprocess.TimeoutExpired:
            lp.kill()
            good, o = False, 'time'
        what = 'rules of folds' if 'Folds' in nm else 'ways of writing an amount'
        res['lemmas'].append(dict(name='%s (%s, checked by Lean)' % (what, nm), kind='lemma', props=[], st='ok' if good else 'unknown', line='', t=0, detail='', model='' if good else 'unknown: ' + o[:200]))
    with open(out, 'w') as f:
        json.dump(res, f, indent=1)
    return res

if __name__ == '__main__':
    t = time.time()
    r = main(sys.argv[1], sys.argv[2], float(sys.argv[3]) if len(sys.argv) > 3 else LIMIT, sys.argv[4] if len(sys.argv) > 4 else None)
    n = sum(len(f['obls']) for f in r['fns'])
    bad = [(f['fn'], o['name'], o['st']) for f in r['fns'] for o in f['obls'] if o['st'] != 'ok']
    print('%d functions, %d obligations, %d not discharged, %.1f s' % (len(r['fns']), n, len(bad), time.time() - t))
    for b in bad + [(f['fn'], f['status'], f['why']) for f in r['fns'] if f['status'] != 'ok']:
        print('  ', *b)
    for x in r['spec_errors']:
        print('   spec:', x)
