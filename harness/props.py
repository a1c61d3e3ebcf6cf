"""Which obligations decide which property, and what goes into the evidence."""
import json, os

SECS = {}          # seconds of cross-checking in the quick tier, where it is not 20

# properties whose statement is about text that the contracts do not reach: decided by the bounded cross-check,
# the obligations only cover the functions listed in the evidence
BOUNDED = {'C15'}
LEVEL = {p: 'exploration' for p in BOUNDED}

def level(prop):
    return LEVEL.get(prop, 'proof')

STRUCT = ('post', 'frame', 'tinv', 'pre', 'vacuity', 'lemma')

def decide(pr, prop):
    fns = {f['fn']: f for f in pr['fns']}
    mine, roots = [], set()
    for f in pr['fns']:
        for o in f['obls']:
            if prop in o['props']:
                mine.append((f, o))
                if o['kind'] in ('post', 'tinv', 'text') and prop != 'C18':
                    roots.add(f['fn'])
        if prop in f['props'] and prop != 'C18':
            roots.add(f['fn'])
    # a caller is checked against the contracts of its callees: those have to hold too
    todo, clo = list(roots), set(roots)
    while todo:
        for g in fns.get(todo.pop(), {}).get('called', ()):
            if g not in clo and g in fns:
                clo.add(g)
                todo.append(g)
    seen = {id(o) for _, o in mine}
    for n in sorted(clo):
        for o in fns[n]['obls']:
            if o['kind'] in STRUCT and id(o) not in seen and (o['kind'] != 'vacuity' or n in roots):
                if o['kind'] == 'frame' and o['name'] == 'writes-no-file':
                    continue
                mine.append((fns[n], o))
                seen.add(id(o))
    for l in pr.get('lemmas', ()):
        mine.append((dict(fn='lemma'), l))
    failed = [dict(o, fn=f['fn']) for f, o in mine if o['st'] == 'refuted']
    und = ['%s: %s not decided by the solver (%s)' % (f['fn'].replace('silverfox::', ''), o['name'], o['model'][:60]) for f, o in mine if o['st'] == 'unknown']
    for n, f in fns.items():
        if f['status'] != 'ok' and (n in clo or prop in f['props'] or prop == 'C18'):
            und.append('%s: %s: %s' % (n.replace('silverfox::', ''), f['status'], f['why']))
    und += ['contracts not applicable: ' + e for e in pr.get('spec_errors', ())]
    used = sorted({f['fn'] for f, o in mine if f['fn'] != 'lemma'})
    return dict(failed=failed, undecided=und, obligations=len(mine), discharged=sum(o['st'] == 'ok' for _, o in mine),
                functions=used, fns=[fns[n] for n in used if n in fns], kinds=count(o['kind'] for _, o in mine))

def count(xs):
    d = {}
    for x in xs:
        d[x] = d.get(x, 0) + 1
    return d

def known(verif, prop):
    try:
        ks = json.load(open(os.path.join(verif, 'known_findings.json')))['known']
    except (OSError, KeyError, ValueError):
        return []
    return [k for k in ks if k['property'] == prop]

def is_known(ks, fail):
    return any(k.get('match') and k['match'] in fail['what'] for k in ks)

def evidence(prop, tier, seed, D, H, notes, pr, wall, rc):
    lv = level(prop)
    tr, asm, inl = set(), set(), set()
    solver = 0.0
    for f in D['fns']:
        tr.update(f.get('trusted', ()))
        asm.update(f.get('assumptions', ()))
        inl.update(f.get('inlined', ()))
        solver += f.get('solver', 0)
    cov = dict(
        obligations=D['obligations'], discharged=D['discharged'],
        checker_cmd='python3-vt -O mirv/prove.py build/mir.json build/prove.json',
        back_end='z3 (python bindings), weakest-precondition style symbolic execution of the MIR rustc hands over',
        solver_time_s=round(solver, 1),
        obligation_kinds=D['kinds'],
        functions_under_contract=[n.replace('silverfox::', '') for n in D['functions']],
        functions_checked_inside_their_callers=sorted(x.replace('silverfox::', '') for x in inl),
        trusted_base=['the verifier itself (driver/, mirv/) and z3', 'rustc: the MIR is what is compiled'] + ['model of ' + x for x in sorted(tr)],
        undecided=D['undecided'],
        evaluations=H['cases'], distinct_nontrivial=sum(n for k, n in H['kinds'].items() if k.endswith(': ok') or 'refused' in k),
        rule='journals, histories, rule files and CSV files generated from the seed and from the literals in the source, run through the compiled binary in a scratch directory and compared with an independent reference model; non-trivial: the journal has at least one entry and the reference model decides it',
        outcome_counts=H['kinds'], samples=H.get('samples', [])[:3],
    )
    if lv != 'proof':
        cov['bounded'] = 'the statement of this property is decided by the bounded cross-check; the discharged obligations cover only the functions listed'
    return dict(property=prop, tier=tier, seed=seed, level=lv, coverage=cov, assumptions=sorted(asm) + PRE, wall_s=round(wall, 1),
                violations=0 if rc == 0 else 1, notes=notes)

PRE = ['f64 arithmetic is treated as exact real arithmetic in the contracts (no rounding, no NaN, no infinity)',
       'memory allocation does not fail; no stack overflow',
       'the calls named in trusted_base behave as mirv/models.py says']
