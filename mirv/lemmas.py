"""The lemmas about folds the engine instantiates, proved by induction over the elements.

A fold is F(arr, n, ps) = sum of term(arr[i], ps) over i < n.  For each fold said to be non-negative the term is shown
to be; for each termwise lemma (Dom) its statement is shown of empty segments, and of a segment with one more element
whenever it holds of the segment.  (The rules by which F follows pushes, stores, concatenations and permutations are
those of a finite sum: lean/Folds.lean.)"""
import time
import z3


def apps(e, seen, out):
    if e.get_id() in seen:
        return
    seen.add(e.get_id())
    if z3.is_app(e):
        if e.decl().name().startswith('fold:'):
            out.append(e)
        for i in range(e.num_args()):
            apps(e.arg(i), seen, out)


def run(spec, ms=10000):
    folds = {}
    for v in vars(spec).values():
        if type(v).__name__ == 'Fold':
            folds['fold:' + v.name] = v
    for d in spec.doms:
        for F in d.Fs:
            folds['fold:' + F.name] = F
    res = []

    def facts(ts):
        """inner folds said to be non-negative are"""
        out, seen, fs = [], set(), []
        for t in ts:
            apps(t, seen, fs)
        for a in fs:
            f = folds.get(a.decl().name())
            if f is not None and f.nonneg:
                out.append(z3.Implies(a.arg(1) >= 0, a >= 0))
                out.append(a.arg(1) >= 0)
        return out

    def show(name, hyps, goal):
        t = time.time()
        s = z3.Solver()
        s.set('timeout', ms)
        s.add(*spec.P.lit_axioms())
        s.add(*hyps)
        s.add(z3.Not(goal))
        r = s.check()
        res.append(dict(name=name, ok=r == z3.unsat, result=str(r), t=round(time.time() - t, 3)))

    def pars(F, tag):
        return [z3.Const('%s%d' % (tag, k), p) for k, p in enumerate(F.params)]
    for n, F in sorted(folds.items()):
        if F.nonneg:
            x, ps = z3.Const('x', F.elem), pars(F, 'p')
            t = F.term(x, *ps)
            show('%s is not negative' % F.name, facts([t]), t >= 0)
    for d in spec.doms:
        x = z3.Const('x', d.Fs[0].elem)
        ps = [pars(F, 'p%d_' % k) for k, F in enumerate(d.Fs)]
        fs = [z3.Const('f%d' % k, F.vsort) for k, F in enumerate(d.Fs)]
        zero = [z3.RealVal(0) if F.vsort == z3.RealSort() else z3.IntVal(0) for F in d.Fs]
        ts = [F.term(x, *p) for F, p in zip(d.Fs, ps)]
        show(d.name + ': of nothing', [], d.rel(zero, ps))
        pos = [f >= 0 for f, F in zip(fs, d.Fs) if F.nonneg]
        ih = d.rel(fs, ps)
        # (the statement about the inner folds of an element, where the terms are made of such)
        inner = []
        for e in spec.doms:
            if e is d:
                continue
            seen, found = set(), []
            for t in ts:
                apps(t, seen, found)
            cands = [[a for a in found if a.decl().name() == 'fold:' + F.name] for F in e.Fs]
            import itertools
            for combo in itertools.product(*cands):
                if all(c.arg(0).eq(combo[0].arg(0)) and c.arg(1).eq(combo[0].arg(1)) for c in combo):
                    inner.append(z3.Implies(combo[0].arg(1) >= 0, e.rel(list(combo), [[c.arg(2 + k) for k in range(c.num_args() - 2)] for c in combo])))
        show(d.name + ': of one more', [ih] + pos + facts(ts) + inner, d.rel([f + t for f, t in zip(fs, ts)], ps))
    return res
