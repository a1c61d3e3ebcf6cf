"""The contracts of silverfox's functions.

Each contract names a function of /repo by path; it is checked against the MIR of that function's
current body, and callers are checked against the contract.  `props` maps obligations to properties."""
import z3
from core import *
from engine import Contract

S = 'silverfox::'


class Spec:
    def __init__(self, P):
        self.P = P
        self.byname = {}
        for k, t in P.T.items():
            if t['k'] == 'adt':
                self.byname.setdefault(t['name'], int(k))
        self.C = {}
        self.doms = []
        self.tinv = {}
        I, R = z3.IntSort(), z3.RealSort()
        self.I, self.R = I, R
        self.Sym = P.opt(P.Str)
        self.errors = []
        for part in (amount_part, posting_part, entry_part, date_part, envelope_part, account_part, aproc_part, text_part, parse_part, ledger_part, register_part, import_part, flags_part):
            try:
                part(self)
            except (Unsupported, KeyError, ValueError, AttributeError, IndexError) as x:
                # an anchor the contracts talk about is gone (a type or a field was renamed)
                self.errors.append('%s: %s: %s' % (part.__name__, type(x).__name__, x))

    def sort(self, name):
        n = S + name if not name.startswith('std::') else name
        if n not in self.byname:
            raise Unsupported('type %s is gone' % n)
        s = self.P.sort(self.byname[n])
        if s is None:
            raise Unsupported('type %s has no value sort' % n)
        return s

    def add(self, name, **kw):
        full = name.replace('@', S)
        if '@' not in name:
            full = S + name
        self.C[full] = Contract(full, **kw)
        return self.C[full]

    def get(self, v, *path):
        for p in path:
            v = self.P.fld(v, p)
        return v


def amount_part(s):
    P = s.P
    A = s.sort('amount::Amount')
    Pool = s.sort('amount::AmountPool')
    s.A, s.Pool = A, Pool
    mag = lambda a: P.fld(a, 'mag')
    sym = lambda a: P.fld(a, 'symbol')
    s.mag, s.sym = mag, sym
    s.psum = Fold('psum', A, [s.Sym], s.R, lambda a, y: z3.If(sym(a) == y, mag(a), z3.RealVal(0)))
    s.pcnt = Fold('pcnt', A, [s.Sym], s.I, lambda a, y: z3.If(sym(a) == y, z3.IntVal(1), z3.IntVal(0)), nonneg=True)
    s.pnz = Fold('pnz', A, [], s.I, lambda a: z3.If(mag(a) != 0, z3.IntVal(1), z3.IntVal(0)), nonneg=True)
    s.doms.append(Dom('an empty count sums to 0', (s.psum, s.pcnt), lambda f, p: z3.Implies(p[0][0] == p[1][0], z3.And(f[1] >= 0, z3.Implies(f[1] == 0, f[0] == 0)))))
    s.doms.append(Dom('zero amounts sum to 0', (s.psum, s.pnz), lambda f, p: z3.And(f[1] >= 0, z3.Implies(f[1] == 0, f[0] == 0))))
    s.poolv = lambda p: P.fld(p, 'pool')
    s.ps = lambda p, y: s.psum.of(P, s.poolv(p), y)
    s.pc = lambda p, y: s.pcnt.of(P, s.poolv(p), y)

    # the set of the symbols in a pool: SS(pool)[y] is defined as pcnt(pool, y) > 0
    SymSet = z3.ArraySort(s.Sym, z3.BoolSort())
    s.SymSet = SymSet
    SSf = z3.Function('symbols_of_pool', Pool, SymSet)
    s.SS = SSf

    def has(p, y):
        return z3.Select(SSf(p), y)
    s.has = has

    def ss_def(c, p, y):
        """the instance of the definition"""
        (c.st_post if hasattr(c, 'st_post') else c.st).assume(has(p, y) == (s.pc(p, y) > 0))
    s.ss_def = ss_def

    def same_symbol_req(c):
        a, b = c.pre[0], c.pre[1]
        return [('same-symbol', sym(a) == sym(b))]

    def req_props():
        return ('C01',)
    AM = '<@amount::Amount as std::ops::'
    for tr, sgn in (('Add', 1), ('Sub', -1)):
        for rhs in ('', '<&@amount::Amount>'):
            m = tr.lower()
            s.add('%s%s%s>::%s' % (AM, tr, rhs, m), requires=same_symbol_req,
                  ensures=lambda c, sgn=sgn: [('value', mag(c.ret) == mag(c.pre[0]) + sgn * mag(c.pre[1])), ('symbol', sym(c.ret) == sym(c.pre[0]))],
                  props=('C01',), opts={'pre_props': ('C01',)})
            s.add('%s%sAssign%s>::%s_assign' % (AM, tr, rhs, m), requires=same_symbol_req,
                  ensures=lambda c, sgn=sgn: [('value', mag(c.post[0]) == mag(c.pre[0]) + sgn * mag(c.pre[1])), ('symbol', sym(c.post[0]) == sym(c.pre[0]))],
                  props=('C01',), opts={'pre_props': ('C01',)})
    s.add(AM + 'Neg>::neg', ensures=lambda c: [('value', mag(c.ret) == -mag(c.pre[0])), ('symbol', sym(c.ret) == sym(c.pre[0]))], props=('C01',))
    s.add('<@amount::Amount as std::cmp::Ord>::cmp', requires=same_symbol_req,
          ensures=lambda c: [('order', z3.And(P.isv(c.ret, 0) == (mag(c.pre[0]) < mag(c.pre[1])), P.isv(c.ret, 2) == (mag(c.pre[0]) > mag(c.pre[1]))))],
          props=('C01',), opts={'pre_props': ('C01',)})
    s.add('<@amount::Amount as std::cmp::PartialEq>::eq',
          ensures=lambda c: [('equal', c.ret == (c.pre[0] == c.pre[1]))], props=('C01',))
    clone_eq = lambda c: [('same', c.ret == c.pre[0])]
    for n in ('amount::Amount', 'amount::AmountPool', 'posting::ClassicPosting', 'posting::EnvelopePosting', 'posting::Posting', 'posting::Cost'):
        s.add('<@%s as std::clone::Clone>::clone' % n, ensures=clone_eq, props=('C01',) if 'amount' in n else ('C05', 'C07'))
    s.add('amount::Amount::zero', ensures=lambda c: [('zero', z3.And(mag(c.ret) == 0, sym(c.ret) == P.none(P.Str)))], props=('C01', 'C02'))

    # ---- pools
    g = {'SYM': s.Sym}

    def pool_folds(i):
        return lambda c: [(s.psum, (c.ghost['SYM'],)), (s.pcnt, (c.ghost['SYM'],))]

    def pool_change(get_new, sgn):
        def ens(c):
            y = c.ghost['SYM']
            a = c.pre[1]
            new, old = get_new(c), c.pre[0]
            hit = sym(a) == y
            if c.caller:     # for every symbol, so by extensionality
                c.st_post.assume(SSf(new) == z3.Store(SSf(old), sym(a), z3.BoolVal(True)))
            return [('sum', s.ps(new, y) == s.ps(old, y) + z3.If(hit, sgn * mag(a), z3.RealVal(0))),
                    ('once', s.pc(new, y) == z3.If(z3.And(hit, s.pc(old, y) == 0), z3.IntVal(1), s.pc(old, y))),
                    ('tracked', z3.And(ln(new) >= 1, ln(new) >= ln(old)), ('C18',))]
        return ens
    ln = lambda p: P.vparts(s.poolv(p))[1]
    s.plen = ln
    PO = '<@amount::AmountPool as std::ops::'
    ret = lambda c: c.ret
    post = lambda c: c.post[0]
    inst = {'inst': {'SYM': lambda ctx: [sym(ctx.pre[1])]}}
    for nm, getter, sgn in (('AddAssign<@amount::Amount>>::add_assign', post, 1), ('AddAssign<&@amount::Amount>>::add_assign', post, 1),
                            ('Add<&@amount::Amount>>::add', ret, 1), ('Sub<@amount::Amount>>::sub', ret, -1), ('Sub<&@amount::Amount>>::sub', ret, -1),
                            ('SubAssign<&@amount::Amount>>::sub_assign', post, -1)):
        s.add(PO + nm, ghosts=g, folds=lambda c: [(s.psum, (c.ghost['SYM'],)), (s.pcnt, (c.ghost['SYM'],))] + [(f, (sym(c.pre[1]),)) for f in (s.psum, s.pcnt)],
              ensures=pool_change(getter, sgn), props=('C02',), opts=inst)

    def pool_pool(c):
        y = c.ghost['SYM']
        new, old, o = c.post[0], c.pre[0], c.pre[1]
        return [('sum', s.ps(new, y) == s.ps(old, y) + s.ps(o, y)),
                ('once', s.pc(new, y) == z3.If(z3.And(s.pc(old, y) == 0, s.pc(o, y) > 0), z3.IntVal(1), s.pc(old, y))),
                ('tracked', z3.And(ln(new) >= ln(old), z3.Implies(ln(o) > 0, ln(new) > 0)), ('C18',))]
    for nm in ('AddAssign<&@amount::AmountPool>>::add_assign', 'AddAssign>::add_assign'):
        s.add(PO + nm, ghosts=g, folds=pool_folds(0), ensures=pool_pool, props=('C02',), inv=pool_pool_inv(s))

    def only(c):
        y = c.pre[1]
        return [('absent', z3.Implies(s.pc(c.pre[0], y) == 0, z3.And(mag(c.ret) == 0, sym(c.ret) == P.none(P.Str)))),
                ('symbol', z3.Implies(s.pc(c.pre[0], y) > 0, sym(c.ret) == y)),
                ('value', z3.Implies(s.pc(c.pre[0], y) == 1, mag(c.ret) == s.ps(c.pre[0], y)))]
    s.add('amount::AmountPool::only', folds=lambda c: [(s.psum, (c.pre[1],)), (s.pcnt, (c.pre[1],))], ensures=only, props=('C02',))
    ln = lambda p: P.vparts(s.poolv(p))[1]
    s.plen = ln
    s.add('amount::AmountPool::len', ensures=lambda c: [('len', c.ret == ln(c.pre[0]))], props=('C02',))
    s.add('amount::AmountPool::is_empty', ensures=lambda c: [('empty', c.ret == (ln(c.pre[0]) == 0))], props=('C02',))
    s.add('amount::AmountPool::new', ghosts=g, folds=pool_folds(0),
          ensures=lambda c: [('empty', z3.And(ln(c.ret) == 0, s.ps(c.ret, c.ghost['SYM']) == 0, s.pc(c.ret, c.ghost['SYM']) == 0))], props=('C02',))
    s.add('amount::AmountPool::is_zero', folds=lambda c: [(s.pnz, ())],
          ensures=lambda c: [('zero', c.ret == (s.pnz.of(P, s.poolv(c.pre[0])) == 0))], props=('C02',))
    s.add('<@amount::AmountPool as std::convert::From<@amount::Amount>>::from', ghosts=g, folds=pool_folds(0), opts={'inst': {'SYM': lambda ctx: [sym(ctx.pre[0])]}},
          ensures=lambda c: [('sum', s.ps(c.ret, c.ghost['SYM']) == z3.If(sym(c.pre[0]) == c.ghost['SYM'], mag(c.pre[0]), z3.RealVal(0))),
                             ('once', s.pc(c.ret, c.ghost['SYM']) == z3.If(sym(c.pre[0]) == c.ghost['SYM'], z3.IntVal(1), z3.IntVal(0))),
                             ('len', ln(c.ret) == 1)], props=('C02',))


def pool_pool_inv(s):
    def inv(L):
        out = []
        y = L.eng.ctxg.get('SYM')
        for (g, old) in L.leaves(s.Pool) + L.leaves(s.P.vec(s.A)):
            arr = lambda v: v if s.P.is_vec(v.sort()) else s.poolv(v)
            for (gi, it) in L.seqs(s.A):
                def f(st, g=g, old=old, gi=gi, it=it, arr=arr):
                    used = s.pcnt(it.f[0], gi(st).f[1], y)
                    o = s.pcnt.of(s.P, arr(old), y)
                    return s.pcnt.of(s.P, arr(g(st)), y) == z3.If(z3.And(o == 0, used > 0), z3.IntVal(1), o)
                out.append(('once', f))
                n = lambda v, arr=arr: s.P.vparts(arr(v))[1]
                out.append(('tracked', lambda st, g=g, gi=gi, n=n, old=old: z3.And(n(g(st)) >= n(old), z3.Implies(gi(st).f[1] > 0, n(g(st)) > 0))))
        return out
    return inv


def posting_part(s):
    P = s.P
    mag, sym = s.mag, s.sym
    Po, Cl, En, Co = s.sort('posting::Posting'), s.sort('posting::ClassicPosting'), s.sort('posting::EnvelopePosting'), s.sort('posting::Cost')
    s.Po, s.Cl, s.En = Po, Cl, En
    VC, VE = P.vidx(Po, 'Classic'), P.vidx(Po, 'Envelope')
    OA = P.opt(s.A)
    s.OA = OA
    R0, I0, I1 = z3.RealVal(0), z3.IntVal(0), z3.IntVal(1)
    fmul = z3.Function('fmul:Real/Real', s.R, s.R, s.R)
    some = lambda o: P.isv(o, 1)
    val = lambda o: P.get(o, 1, 0)
    s.some, s.val = some, val
    s.is_cl = lambda p: P.isv(p, VC)
    s.is_env = lambda p: P.isv(p, VE)
    s.cl = lambda p: P.get(p, VC, 0)
    s.env = lambda p: P.get(p, VE, 0)
    s.camt = lambda p: P.fld(s.cl(p), 'amount')
    s.has_amt = lambda p: z3.And(s.is_cl(p), some(s.camt(p)))
    s.is_blank = lambda p: z3.And(s.is_cl(p), z3.Not(some(s.camt(p))))
    s.acct = lambda p: z3.If(s.is_cl(p), P.fld(s.cl(p), 'account'), P.fld(s.env(p), 'account_name'))
    s.pamt = lambda p: z3.If(s.is_cl(p), s.camt(p), P.some(P.fld(s.env(p), 'amount')))
    UC, TC = P.vidx(Co, 'UnitCost'), P.vidx(Co, 'TotalCost')

    def native(c):
        """(exists, value) of a classic posting's value in the native currency"""
        a = val(P.fld(c, 'amount'))
        co = P.fld(c, 'cost_assertion')
        k = val(co)
        b = z3.If(P.isv(k, TC), P.get(k, TC, 0), P.get(k, UC, 0))
        nat = P.none(P.Str)
        ex = z3.And(some(P.fld(c, 'amount')), z3.Or(sym(a) == nat, z3.And(some(co), sym(b) == nat)))
        v = z3.If(sym(a) == nat, mag(a), z3.If(P.isv(k, TC), mag(b), fmul(mag(a), mag(b))))
        return ex, v
    s.native = native
    one = lambda c: z3.If(c, I1, I0)
    s.csum = Fold('csum', Po, [s.Sym], s.R, lambda p, y: z3.If(z3.And(s.has_amt(p), sym(val(s.camt(p))) == y), mag(val(s.camt(p))), R0))
    s.call = Fold('call', Po, [], s.R, lambda p: z3.If(s.has_amt(p), mag(val(s.camt(p))), R0))
    s.cabs = Fold('cabs', Po, [], s.R, lambda p: z3.If(s.has_amt(p), z3.If(mag(val(s.camt(p))) >= 0, mag(val(s.camt(p))), -mag(val(s.camt(p)))), R0), nonneg=True)
    s.ncam = Fold('ncam', Po, [], s.I, lambda p: one(s.has_amt(p)), nonneg=True)
    s.ndiff = Fold('ndiff', Po, [s.Sym], s.I, lambda p, y: one(z3.And(s.has_amt(p), sym(val(s.camt(p))) != y)), nonneg=True)
    s.nblank = Fold('nblank', Po, [], s.I, lambda p: one(s.is_blank(p)), nonneg=True)
    s.nenv = Fold('nenv', Po, [], s.I, lambda p: one(s.is_env(p)), nonneg=True)
    s.natsum = Fold('natsum', Po, [], s.R, lambda p: z3.If(z3.And(s.is_cl(p), native(s.cl(p))[0]), native(s.cl(p))[1], R0))
    s.nonat = Fold('nonat', Po, [], s.I, lambda p: one(z3.And(s.has_amt(p), z3.Not(native(s.cl(p))[0]))), nonneg=True)
    s.nacct = Fold('nacct', Po, [P.Str], s.I, lambda p, a: one(s.acct(p) == a), nonneg=True)
    s.doms += [
        Dom('all amounts are in the one currency', (s.csum, s.ndiff), lambda f, p: z3.And(f[1] >= 0, z3.Implies(z3.And(f[1] == 0, p[0][0] != p[1][0]), f[0] == 0))),
        Dom('the sum over the one currency is the sum', (s.call, s.csum, s.ndiff), lambda f, p: z3.Implies(p[1][0] == p[2][0], z3.And(f[2] >= 0, z3.Implies(f[2] == 0, f[0] == f[1])))),
        Dom('different amounts are amounts', (s.ndiff, s.ncam), lambda f, p: z3.And(f[0] >= 0, f[0] <= f[1])),
        Dom('no amounts sum to 0', (s.csum, s.ncam), lambda f, p: z3.And(f[1] >= 0, z3.Implies(f[1] == 0, f[0] == 0))),
    ]
    s.add('posting::Posting::get_amount', ensures=lambda c: [('amount', c.ret == s.pamt(c.pre[0]))], props=('C03', 'C05', 'C07'))
    s.add('posting::Posting::get_account', ensures=lambda c: [('account', c.ret == s.acct(c.pre[0]))], props=('C05', 'C07', 'C08'))
    s.add('posting::Posting::is_envelope', ensures=lambda c: [('kind', c.ret == s.is_env(c.pre[0]))], props=('C05', 'C07'))
    s.add('posting::Posting::is_classic', ensures=lambda c: [('kind', c.ret == s.is_cl(c.pre[0]))], props=('C03', 'C04'))

    def nat_ens(cl):
        def ens(c):
            ex, v = native(cl(c.pre[0]))
            if cl is s.cl:
                ex = z3.And(s.is_cl(c.pre[0]), ex)
            return [('native', z3.And(some(c.ret) == ex, z3.Implies(ex, val(c.ret) == v)))]
        return ens
    s.add('posting::ClassicPosting::get_original_native_value', ensures=nat_ens(lambda x: x), props=('C03', 'C08'))
    s.add('posting::Posting::get_original_native_value', ensures=nat_ens(s.cl), props=('C03', 'C08'))


def entry_part(s):
    P = s.P
    mag, sym, some, val = s.mag, s.sym, s.some, s.val
    E = s.sort('entry::Entry')
    s.E = E
    s.posts = lambda e: P.fld(e, 'postings')
    F = lambda f, e, *ps: f.of(P, s.posts(e), *ps)
    s.F = F
    g = {'SYM': s.Sym}
    s.add('entry::Entry::get_postings', ensures=lambda c: [('postings', c.ret == s.posts(c.pre[0]))], props=('C05',))
    s.add('entry::Entry::get_date', ensures=lambda c: [('date', c.ret == P.fld(c.pre[0], 'date'))], props=('C07', 'C16'))
    s.add('entry::Entry::has_blank_posting', folds=lambda c: [(s.nblank, ())],
          ensures=lambda c: [('blank', c.ret == (F(s.nblank, c.pre[0]) > 0))], props=('C03',))
    s.add('entry::Entry::has_envelope_posting', folds=lambda c: [(s.nenv, ())],
          ensures=lambda c: [('envelope', c.ret == (F(s.nenv, c.pre[0]) > 0))], props=('C07', 'C08'))
    s.add('entry::Entry::has_mixed_currencies', ghosts=g, folds=lambda c: [(s.ncam, ()), (s.ndiff, (c.ghost['SYM'],))], auto=[(s.ndiff, s.Sym)], inv=first_inv(s),
          ensures=lambda c: [('mixed', z3.Implies(c.ret, F(s.ndiff, c.pre[0], c.ghost['SYM']) > 0)),
                             ('single', ('exists', s.Sym, lambda w: z3.Implies(z3.Not(c.ret), F(s.ndiff, c.pre[0], w) == 0)))],
          props=('C03', 'C04'))

    def single(e, y):
        return z3.And(F(s.ndiff, e, y) == 0, F(s.ncam, e) > 0)
    s.single = single

    def blank_ens(c):
        e, y = c.pre[0], c.ghost['SYM']
        ok, o = P.isv(c.ret, 0), P.get(c.ret, 0, 0)
        a = val(o)
        hasblank = F(s.nblank, e) > 0
        isval = lambda m, yy: z3.And(ok, some(o), mag(a) == m, sym(a) == yy)
        mixed = z3.If(F(s.nonat, e) == 0, isval(-F(s.natsum, e), P.none(P.Str)), z3.Not(ok))
        return [('none-without-blank', z3.Implies(z3.Not(hasblank), z3.And(ok, z3.Not(some(o))))),
                ('some-with-blank', z3.Implies(z3.And(hasblank, ok), some(o))),
                ('single-currency', z3.Implies(z3.And(hasblank, single(e, y)), isval(-F(s.csum, e, y), y))),
                ('mixed-currencies', ('exists', s.Sym, lambda w: z3.Implies(hasblank, z3.Or(single(e, w), z3.And(F(s.ncam, e) == 0, z3.Not(ok)), mixed))))]
    s.add('entry::Entry::get_blank_amount', ghosts=g, pure=True,
          folds=lambda c: [(s.ncam, ()), (s.nblank, ()), (s.natsum, ()), (s.nonat, ()), (s.call, ()), (s.ndiff, (c.ghost['SYM'],)), (s.csum, (c.ghost['SYM'],))],
          auto=[(s.ndiff, s.Sym)], inv=first_inv(s), ensures=blank_ens, props=('C03',))

    def validate_ens(c):
        e, y = c.pre[0], c.ghost['SYM']
        ok = P.isv(c.ret, 0)
        nb = F(s.nblank, e)
        tot = F(s.csum, e, y)
        mabs = z3.If(tot >= 0, tot, -tot)
        return [('one-blank', z3.Implies(ok, nb <= 1)),
                ('balanced', z3.Implies(z3.And(ok, nb == 0, single(e, y)), mabs <= z3.RealVal('1/1000000') * (1 + F(s.cabs, e)))),
                ('accepts-balanced', z3.Implies(z3.And(nb == 0, single(e, y), tot == 0), ok)),
                ('accepts-one-blank', z3.Implies(z3.And(nb == 1, single(e, y)), ok))]
    s.add('entry::Entry::validate', ghosts=g, folds=lambda c: [(s.ncam, ()), (s.nblank, ()), (s.cabs, ()), (s.call, ()), (s.ndiff, (c.ghost['SYM'],)), (s.csum, (c.ghost['SYM'],))],
          auto=[(s.ndiff, s.Sym)], inv=both(symset_inv(s), first_inv(s)), ensures=validate_ens, props=('C04',))


def first_inv(s):
    """what is kept of the amounts seen so far: the first symbol, or the running difference"""
    P, some, val, mag, sym = s.P, s.some, s.val, s.mag, s.sym

    def inv(L):
        out = []
        syms = [ps[0] for (F, ps) in L.st0.inst if F is s.ndiff]
        for (arr, pos) in L.prefixes(s.Po):
            kinds = [(P.opt(s.Sym), some, val, None), (s.OA, some, lambda o: sym(val(o)), lambda o: mag(val(o))),
                     (s.Sym, lambda o: z3.BoolVal(True), lambda o: o, None), (s.A, lambda o: z3.BoolVal(True), sym, mag)]
            for (srt, has, gsym, gmag) in kinds:
                for (g, old) in L.leaves(srt):
                    if srt.eq(s.OA) or srt.eq(P.opt(s.Sym)):
                        out.append(('first', lambda st, g=g, arr=arr, pos=pos, has=has: has(g(st)) == (s.ncam(arr, pos(st)) > 0)))
                    out.append(('first', lambda st, g=g, arr=arr, pos=pos, has=has, gsym=gsym: z3.Implies(has(g(st)), s.ndiff(arr, pos(st), gsym(g(st))) == 0)))
                    for y in syms:
                        one = lambda st, arr=arr, pos=pos, y=y: z3.And(s.ncam(arr, pos(st)) > 0, s.ndiff(arr, pos(st), y) == 0)
                        out.append(('first', lambda st, g=g, one=one, gsym=gsym, has=has, y=y: z3.Implies(z3.And(has(g(st)), one(st)), gsym(g(st)) == y)))
                        if gmag:
                            for sg in (1, -1):
                                out.append(('sum', lambda st, g=g, one=one, gmag=gmag, has=has, y=y, sg=sg, arr=arr, pos=pos: z3.Implies(z3.And(has(g(st)), one(st)), gmag(g(st)) == sg * s.csum(arr, pos(st), y))))
        return out
    return inv


def both(*invs):
    return lambda L: [x for f in invs for x in f(L)]


def symset_inv(s):
    """the set of symbols seen so far has at most the one symbol"""
    P = s.P

    def inv(L):
        out = []
        y = L.eng.ctxg.get('SYM')
        for (g, old) in L.leaves(P.setsort(P.Str)):
            for (gi, it) in L.seqs(s.Po):
                def f(st, g=g, gi=gi, it=it):
                    m = g(st)
                    n, d = P.get(m, 0, 1), P.get(m, 0, 0)
                    seen = s.ndiff(it.f[0], gi(st).f[1], y)
                    return z3.Implies(seen == 0, z3.If(s.some(y), n == z3.If(z3.Select(d, s.val(y)), z3.IntVal(1), z3.IntVal(0)), n == 0))
                out.append(('symbols', f))
        return out
    return inv


def envelope_part(s):
    P = s.P
    mag, sym, some, val = s.mag, s.sym, s.some, s.val
    V = s.sort('envelope::Envelope')
    s.V = V
    I, R, T = s.I, s.R, s.TODAY
    R0, I0, I1 = z3.RealVal(0), z3.IntVal(0), z3.IntVal(1)
    one = lambda c: z3.If(c, I1, I0)
    vf = lambda v, n: P.fld(v, n)
    s.vf = vf
    fields = [n for n in P.variants[V.name()][0][1]]
    STATE = ('next_amount', 'now_amount', 'last_transaction_date')
    EI = lambda v: z3.And(sym(vf(v, 'amount')) == sym(vf(v, 'next_amount')), sym(vf(v, 'amount')) == sym(vf(v, 'now_amount')))
    s.EI = EI
    same = lambda v, w: z3.And(*[vf(v, n) == vf(w, n) for n in fields if n not in STATE])
    s.vsame = same
    OI = P.opt(I)
    StrSet = P.setsort(P.Str)
    s.StrSet = StrSet
    abs_ = lambda x: z3.If(x >= 0, x, -x)

    def tonow(m, due, date):
        return z3.Or(m < 0, z3.And(m > 0, some(due), date < val(due)))
    later = lambda last, date: z3.If(z3.And(date <= T, date > last), date, last)

    def changed(v, w, m, date, due=None):
        """w is v after an amount of magnitude m was applied on the date"""
        due = s.LAST(vf(v, 'freq'))
        tn = tonow(m, due, date)
        return [('now', mag(vf(w, 'now_amount')) == mag(vf(v, 'now_amount')) + z3.If(tn, m, R0)),
                ('next', mag(vf(w, 'next_amount')) == mag(vf(v, 'next_amount')) + z3.If(tn, R0, m)),
                ('last-change', vf(w, 'last_transaction_date') == later(vf(v, 'last_transaction_date'), date), ('C10',)),
                ('currency', EI(w), ('C01', 'C07', 'C08')), ('frame', same(v, w))]
    EN = 'envelope::Envelope::'
    s.add(EN + 'apply_amount', requires=lambda c: [('one-currency', EI(c.pre[0])), ('same-currency', sym(c.pre[1]) == sym(vf(c.pre[0], 'amount')))],
          ensures=lambda c: changed(c.pre[0], c.post[0], mag(c.pre[1]), c.pre[2]), props=('C07', 'C08'), opts={'pre_props': ('C01',)})

    s.tinv[V.name()] = TInv('Envelope', 'silverfox::envelope', ('C01',), 'type invariant: an envelope has one currency (obliged of every function in envelope.rs; the fields are private)',
                            lambda eng, st, v: [EI(v)], lambda eng, st, v: [('one-currency', EI(v))])
    # ---- manual postings
    ehit = lambda p, a, n: z3.And(s.is_env(p), P.fld(s.env(p), 'account_name') == a, P.fld(s.env(p), 'envelope_name') == n)
    emag = lambda p: mag(P.fld(s.env(p), 'amount'))
    mp = [P.Str, P.Str, OI, I]
    s.mnow = Fold('mnow', s.Po, mp, R, lambda p, a, n, due, date: z3.If(z3.And(ehit(p, a, n), tonow(emag(p), due, date)), emag(p), R0))
    s.mnext = Fold('mnext', s.Po, mp, R, lambda p, a, n, due, date: z3.If(z3.And(ehit(p, a, n), z3.Not(tonow(emag(p), due, date))), emag(p), R0))
    s.mhit = Fold('mhit', s.Po, [P.Str, P.Str], I, lambda p, a, n: one(ehit(p, a, n)), nonneg=True)
    s.mbad = Fold('mbad', s.Po, [P.Str, P.Str, s.Sym], I, lambda p, a, n, y: one(z3.And(ehit(p, a, n), sym(P.fld(s.env(p), 'amount')) != y)), nonneg=True)
    s.doms += [Dom('wrong currencies are hits', (s.mbad, s.mhit), lambda f, p: z3.Implies(z3.And(p[0][0] == p[1][0], p[0][1] == p[1][1]), f[0] <= f[1])),
               Dom('no hit changes nothing (now)', (s.mnow, s.mhit), lambda f, p: z3.Implies(z3.And(p[0][0] == p[1][0], p[0][1] == p[1][1]), z3.And(f[1] >= 0, z3.Implies(f[1] == 0, f[0] == 0)))),
               Dom('no hit changes nothing (next)', (s.mnext, s.mhit), lambda f, p: z3.Implies(z3.And(p[0][0] == p[1][0], p[0][1] == p[1][1]), z3.And(f[1] >= 0, z3.Implies(f[1] == 0, f[0] == 0)))),
               Dom('envelope postings hit', (s.mhit, s.nenv), lambda f, p: z3.And(f[0] >= 0, f[0] <= f[1]))]

    def mparams(v, e):
        a, n, due, date = vf(v, 'account'), vf(v, 'name'), s.LAST(vf(v, 'freq')), P.fld(e, 'date')
        return a, n, due, date, sym(vf(v, 'amount'))

    def manual(v, w, e, ok):
        a, n, due, date, y = mparams(v, e)
        F = s.F
        return [('accepts', ok == (F(s.mbad, e, a, n, y) == 0)),
                ('now', z3.Implies(ok, mag(vf(w, 'now_amount')) == mag(vf(v, 'now_amount')) + F(s.mnow, e, a, n, due, date))),
                ('next', z3.Implies(ok, mag(vf(w, 'next_amount')) == mag(vf(v, 'next_amount')) + F(s.mnext, e, a, n, due, date))),
                ('last-change', z3.Implies(ok, vf(w, 'last_transaction_date') == z3.If(F(s.mhit, e, a, n) > 0, later(vf(v, 'last_transaction_date'), date), vf(v, 'last_transaction_date'))), ('C10',)),
                ('currency', EI(w), ('C01', 'C07')), ('frame', same(v, w))]

    def mfolds(c):
        a, n, due, date, y = mparams(c.pre[0], c.pre[1])
        return [(s.mnow, (a, n, due, date)), (s.mnext, (a, n, due, date)), (s.mhit, (a, n)), (s.mbad, (a, n, y)), (s.nenv, ())]

    def minv(L):
        out = []
        v, e = L.eng.ctx0.pre[0], L.eng.ctx0.pre[1]
        a, n, due, date, y = mparams(v, e)
        ld = vf(v, 'last_transaction_date')
        for (gi, it) in L.seqs(s.Po):
            for (g, old) in L.leaves(I):
                out.append(('last', lambda st, g=g, gi=gi, it=it: g(st) == z3.If(s.mhit(it.f[0], gi(st).f[1], a, n) > 0, later(ld, date), ld)))
        return out
    ok0 = lambda c: P.isv(c.ret, 0)
    s.add(EN + 'process_manual_postings', requires=lambda c: [('one-currency', EI(c.pre[0]))], folds=mfolds, inv=minv,
          ensures=lambda c: manual(c.pre[0], c.post[0], c.pre[1], ok0(c)), props=('C07',))

    # ---- inference
    BL = P.sort_of_ret('silverfox::entry::Entry::get_blank_amount')
    s.BLANK = lambda e: z3.Function('pure:silverfox::entry::Entry::get_blank_amount:%s' % s.E, s.E, BL)(e)
    s.blankok = lambda e: P.isv(s.BLANK(e), 0)
    s.blankamt = lambda e: val(P.get(s.BLANK(e), 0, 0))

    def conv(p, y, b):
        """(can, value) of a posting in the currency y, where blank postings have the amount b"""
        a = z3.If(s.is_env(p), P.fld(s.env(p), 'amount'), z3.If(some(s.camt(p)), val(s.camt(p)), b))
        ex, nv = s.native(s.cl(p))
        usable = z3.And(z3.Not(some(y)), s.is_cl(p), ex)
        return z3.Or(sym(a) == y, usable), z3.If(sym(a) == y, mag(a), nv)
    isin = lambda ss, x: z3.Select(P.get(ss, 0, 0), x)
    s.isin = isin
    s.iself = Fold('iself', s.Po, [P.Str, s.Sym, s.A], R, lambda p, a, y, b: z3.If(s.acct(p) == a, conv(p, y, b)[1], R0))
    s.iauto = Fold('iauto', s.Po, [P.Str, StrSet, s.Sym, s.A], R, lambda p, a, ss, y, b: z3.If(z3.And(s.acct(p) != a, isin(ss, s.acct(p))), conv(p, y, b)[1], R0))
    s.ibad = Fold('ibad', s.Po, [s.Sym, s.A], I, lambda p, y, b: one(z3.Not(conv(p, y, b)[0])), nonneg=True)
    s.nauto = Fold('nauto', s.Po, [P.Str, StrSet], I, lambda p, a, ss: one(z3.And(s.acct(p) != a, isin(ss, s.acct(p)))), nonneg=True)

    def iparams(v, e):
        return vf(v, 'account'), vf(v, 'auto_accounts'), sym(vf(v, 'amount')), s.blankamt(e)

    def inference(v, w, e, ok):
        F = s.F
        a, ss, y, b = iparams(v, e)
        related = z3.And(F(s.nacct, e, a) > 0, F(s.nauto, e, a, ss) > 0)
        can = z3.And(F(s.ibad, e, y, b) == 0, z3.Or(F(s.nblank, e) == 0, s.blankok(e)))
        si, ai = F(s.iself, e, a, y, b), F(s.iauto, e, a, ss, y, b)
        lo = z3.If(abs_(si) <= abs_(ai), abs_(si), abs_(ai))
        m = z3.If(si < 0, -lo, lo)
        date = P.fld(e, 'date')
        out = [('accepts', ok == z3.Or(z3.Not(related), can)), ('unrelated', z3.Implies(z3.Or(z3.Not(related), z3.Not(ok)), w == v))]
        for x in changed(v, w, m, date):
            if x[0] in ('now', 'next'):
                out.append((x[0], z3.Implies(z3.And(ok, related), x[1])) + tuple(x[2:]))
            elif x[0] == 'last-change':
                out.append((x[0], z3.Implies(z3.And(ok, related), z3.If(m != 0, x[1], vf(w, 'last_transaction_date') == vf(v, 'last_transaction_date')))) + tuple(x[2:]))
            else:
                out.append(x)
        return out

    def ifolds(c):
        a, ss, y, b = iparams(c.pre[0], c.pre[1])
        return [(s.iself, (a, y, b)), (s.iauto, (a, ss, y, b)), (s.ibad, (y, b)), (s.nauto, (a, ss)), (s.nacct, (a,)), (s.nblank, ()), (s.nenv, ())]
    def iinv(L):
        e = L.eng.ctx0.pre[1]
        return [('blank amount known', lambda st, gi=gi, it=it: z3.Implies(s.nblank(it.f[0], gi(st).f[1]) > 0, s.blankok(e))) for (gi, it) in L.seqs(s.Po)]
    s.add(EN + 'infer', requires=lambda c: [('one-currency', EI(c.pre[0])), ('no-envelope-postings', s.F(s.nenv, c.pre[1]) == 0)], folds=ifolds, inv=iinv,
          ensures=lambda c: inference(c.pre[0], c.post[0], c.pre[1], ok0(c)), props=('C08',))

    def processed(v, w, e, ok):
        he = s.F(s.nenv, e) > 0
        return [('manual ' + x[0], z3.Implies(he, x[1])) + tuple(x[2:] or (('C07',),)) for x in manual(v, w, e, ok)] + \
               [('auto ' + x[0], z3.Implies(z3.Not(he), x[1])) + tuple(x[2:] or (('C08',),)) for x in inference(v, w, e, ok)]
    s.processed = processed
    s.add(EN + 'process_entry', requires=lambda c: [('one-currency', EI(c.pre[0]))], folds=lambda c: mfolds(c) + ifolds(c),
          ensures=lambda c: processed(c.pre[0], c.post[0], c.pre[1], ok0(c)), props=('C07', 'C08'))


def fill_formula(s, v, avail, fdiv):
    """what an envelope takes from an account with `avail` available"""
    mag, sym, some, val, vf, P = s.mag, s.sym, s.some, s.val, s.vf, s.P
    R0 = z3.RealVal(0)
    mn = lambda a, b: z3.If(a <= b, a, b)
    mx = lambda a, b: z3.If(a >= b, a, b)
    rem = mag(vf(v, 'amount')) - mag(vf(v, 'next_amount'))
    tot = mag(vf(v, 'now_amount')) + mag(vf(v, 'next_amount'))
    dd = s.due(v)
    days = z3.ToReal(val(dd) - s.TODAY)
    fm = vf(v, 'funding')
    FM = fm.sort()
    top = lambda x: mx(mx(mn(mn(x, avail), rem), -tot), R0)
    off = z3.Or(z3.Not(some(dd)), vf(v, 'last_transaction_date') == s.TODAY, P.isv(fm, P.vidx(FM, 'Manual')))
    return off, z3.If(P.isv(fm, P.vidx(FM, 'Aggressive')), top(mag(vf(v, 'amount'))), top(fdiv(rem, days))), rem, tot, days


def account_part(s):
    P = s.P
    mag, sym, some, val, vf = s.mag, s.sym, s.some, s.val, s.vf
    I, R, T = s.I, s.R, s.TODAY
    R0, I0, I1 = z3.RealVal(0), z3.IntVal(0), z3.IntVal(1)
    one = lambda c: z3.If(c, I1, I0)
    fdiv = z3.Function('fdiv:Real/Real', R, R, R)
    EN = 'envelope::Envelope::'

    def due(v):
        st, nx = vf(v, 'starting_date'), s.NEXT(vf(v, 'freq'))
        return z3.If(z3.Not(some(st)), nx, z3.If(z3.Not(some(nx)), st, z3.If(val(st) > val(nx), st, nx)))
    s.due = due
    s.add(EN + 'get_next_due_date', ensures=lambda c: [('due', c.ret == due(c.pre[0]))], props=('C11',))
    s.add(EN + 'get_next_amount', ensures=lambda c: [('next', c.ret == vf(c.pre[0], 'next_amount'))], props=('C06',))
    s.add(EN + 'get_now_amount', ensures=lambda c: [('now', c.ret == vf(c.pre[0], 'now_amount'))], props=('C06',))
    s.add(EN + 'get_name', ensures=lambda c: [('name', c.ret == vf(c.pre[0], 'name'))], props=('C19',))

    def fill_ens(v, avail, a):
        off, full, rem, tot, days = fill_formula(s, v, avail, fdiv)
        pos = lambda x: z3.If(x >= 0, x, R0)
        exact = z3.Or(days >= 1, z3.Not(P.isv(vf(v, 'funding'), P.vidx(vf(v, 'funding').sort(), 'Conservative'))))
        return [('currency', sym(a) == sym(vf(v, 'amount')), ('C01', 'C09')),
                ('nothing-to-do', z3.Implies(off, mag(a) == 0), ('C09', 'C10')),
                ('never-takes', mag(a) >= 0),
                ('within-available', z3.Implies(tot >= 0, mag(a) <= pos(avail))),
                ('no-overflow', z3.Implies(tot >= 0, mag(a) <= pos(rem))),
                ('exact', z3.Implies(z3.And(z3.Not(off), exact), mag(a) == full))]
    s.add(EN + 'get_filling_amount', requires=lambda c: [('one-currency', s.EI(c.pre[0])), ('same-currency', sym(c.pre[1]) == sym(vf(c.pre[0], 'amount')))],
          ensures=lambda c: fill_ens(c.pre[0], mag(c.pre[1]), c.ret), props=('C09',))

    def fp_ens(c):
        v, p, r = c.pre[0], c.pre[1], c.ret
        return [('account', P.fld(r, 'account_name') == vf(v, 'account'), ('C09', 'C10')), ('envelope', P.fld(r, 'envelope_name') == vf(v, 'name'), ('C09', 'C10'))] + \
            fill_ens(v, s.ps(p, sym(vf(v, 'amount'))), P.fld(r, 'amount'))

    def pool_once(c, p, y):
        # type invariant of AmountPool: one amount per currency (the 'once' postconditions of its operations)
        c.st.assume(s.pc(p, y) <= 1)
        c.st.assume(z3.Implies(s.pc(p, y) == 0, s.ps(p, y) == 0))
        s.ss_def(c, p, y)
        c.eng.assumptions.add('type invariant: an AmountPool holds at most one amount per currency (proved of every operation in amount.rs; the field is private)')

    def fp_req(c):
        y = sym(vf(c.pre[0], 'amount'))
        pool_once(c, c.pre[1], y)
        return [('one-currency', s.EI(c.pre[0])), ('has-the-currency', z3.Or(z3.Not(some(y)), s.has(c.pre[1], y)))]
    s.add(EN + 'get_filling_posting', requires=fp_req, ensures=fp_ens, folds=lambda c: [(f, (sym(vf(c.pre[0], 'amount')),)) for f in (s.psum, s.pcnt)], props=('C09',))

    # ---- accounts
    Ac = s.sort('account::Account')
    s.Ac = Ac
    af = lambda a, n: P.fld(a, n)
    s.af = af
    ex = lambda a: af(a, 'expense_envelopes')
    go = lambda a: af(a, 'goal_envelopes')
    both = lambda F, a, *ps: F.of(P, ex(a), *ps) + F.of(P, go(a), *ps)
    s.both = both
    V = s.V
    s.esum = Fold('esum', V, [s.Sym], R, lambda v, y: z3.If(sym(vf(v, 'next_amount')) == y, mag(vf(v, 'next_amount')), R0) + z3.If(sym(vf(v, 'now_amount')) == y, mag(vf(v, 'now_amount')), R0))
    s.nmiss = Fold('nmiss', V, [s.SymSet], I, lambda v, ss: one(z3.Not(z3.Select(ss, sym(vf(v, 'amount'))))), nonneg=True)
    s.nover = Fold('nover', V, [s.Sym], I, lambda v, y: one(z3.And(sym(vf(v, 'amount')) == y, mag(vf(v, 'now_amount')) + mag(vf(v, 'next_amount')) < 0)), nonneg=True)
    s.nbadv = Fold('nbadv', V, [], I, lambda v: one(z3.Not(s.EI(v))), nonneg=True)
    s.vname = Fold('vname', V, [P.Str], I, lambda v, n: one(vf(v, 'name') == n), nonneg=True)
    s.vopen = Fold('vopen', V, [P.Str], I, lambda v, n: one(z3.And(vf(v, 'name') == n, vf(v, 'last_transaction_date') != T)), nonneg=True)
    # postings made by filling
    fa = lambda p: P.fld(s.env(p), 'amount')
    s.fsum = Fold('fsum', s.Po, [s.Sym], R, lambda p, y: z3.If(z3.And(s.is_env(p), sym(fa(p)) == y), mag(fa(p)), R0))
    s.fneg = Fold('fneg', s.Po, [], I, lambda p: one(z3.Or(z3.Not(s.is_env(p)), mag(fa(p)) < 0)), nonneg=True)
    s.fnz = Fold('fnz', s.Po, [P.Str], I, lambda p, n: one(z3.And(s.is_env(p), P.fld(s.env(p), 'envelope_name') == n, mag(fa(p)) != 0)), nonneg=True)
    EIall = lambda a: both(s.nbadv, a) == 0
    s.EIall = EIall
    s.doms += [Dom('more symbols, fewer missing', (s.nmiss, s.nmiss), lambda f, p: z3.Implies(z3.Map(z3.Or(z3.Bool('a'), z3.Bool('b')).decl(), p[0][0], p[1][0]) == p[1][0], f[1] <= f[0]))]
    AC = 'account::Account::'

    def uniq(eng, v):
        return [eng.tg('NAME', P.Str)]
    s.tinv[Ac.name()] = TInv('Account', 'silverfox::account', ('C01', 'C19'), 'type invariant: the envelopes of an account have one currency each and different names (obliged of every function in account.rs; the fields are private)',
                             lambda eng, st, a: [EIall(a)] + [both(s.vname, a, n) <= 1 for n in uniq(eng, a)],
                             lambda eng, st, a: [('one-currency-each', EIall(a))] + [('unique-names', both(s.vname, a, n) <= 1) for n in uniq(eng, a)])

    def avail_ens(c):
        a, y, r = c.pre[0], c.ghost['SYM'], c.ret
        c.eng.add_inst(c.st_post, s.nmiss, (s.SS(r),))
        return [('available', s.ps(r, y) == s.ps(af(a, 'real_value'), y) - both(s.esum, a, y)),
                ('all-currencies', both(s.nmiss, a, s.SS(r)) == 0, ('C09', 'C18'))]
    EIreq = lambda c: []
    pf = lambda c: [(s.psum, (c.ghost['SYM'],)), (s.pcnt, (c.ghost['SYM'],)), (s.esum, (c.ghost['SYM'],)), (s.nbadv, ())]
    s.add(AC + 'get_available_value', ghosts={'SYM': s.Sym}, requires=EIreq, folds=pf, auto=[(s.nmiss, s.SymSet)], ensures=avail_ens, props=('C06',), inv=lambda L: avail_inv(s, L))

    def fills_ens(c):
        a, y, n, r = c.pre[0], c.ghost['SYM'], c.ghost['NAME'], c.ret
        av = s.ps(af(a, 'real_value'), y) - both(s.esum, a, y)
        arr, ln = P.vparts(r)
        return [('only-adds', s.fneg.of(P, r) == 0),
                ('within-available', z3.Implies(both(s.nover, a, y) == 0, s.fsum.of(P, r, y) <= z3.If(av >= 0, av, R0))),
                ('once-a-day', s.fnz.of(P, r, n) <= both(s.vopen, a, n), ('C10',))]
    s.add(AC + 'get_filling_postings', ghosts={'SYM': s.Sym, 'NAME': P.Str}, requires=EIreq,
          folds=lambda c: pf(c) + [(s.nover, (c.ghost['SYM'],)), (s.vopen, (c.ghost['NAME'],)), (s.fsum, (c.ghost['SYM'],)), (s.fneg, ()), (s.fnz, (c.ghost['NAME'],))],
          auto=[(s.nmiss, s.SymSet)], inv=lambda L: fills_inv(s, L), ensures=fills_ens, props=('C09',))

    # ---- add_envelope
    def adde_ens(c):
        a, b, v, n = c.pre[0], c.post[0], c.pre[1], c.ghost['NAME']
        ok = P.isv(c.ret, 0)
        return [('duplicates-rejected', ok == (both(s.vname, a, vf(v, 'name')) == 0)),
                ('unique', z3.Implies(both(s.vname, a, n) <= 1, both(s.vname, b, n) <= 1)),
                ('one-more', sum(P.vparts(af(b, f))[1] - P.vparts(af(a, f))[1] for f in ('expense_envelopes', 'goal_envelopes')) == z3.If(ok, I1, I0)),
                ('added', both(s.vname, b, n) == both(s.vname, a, n) + z3.If(z3.And(ok, vf(v, 'name') == n), I1, I0)),
                ('frame', z3.And(af(a, 'name') == af(b, 'name'), af(a, 'real_value') == af(b, 'real_value')))]
    s.add(AC + 'add_envelope', ghosts={'NAME': P.Str}, folds=lambda c: [(s.nbadv, ()), (s.vname, (c.ghost['NAME'],)), (s.vname, (vf(c.pre[1], 'name'),))], ensures=adde_ens, props=('C19',), opts={'function': True})


def aproc_part(s):
    P = s.P
    mag, sym, some, val, vf, af = s.mag, s.sym, s.some, s.val, s.vf, s.af
    I, R = s.I, s.R
    R0 = z3.RealVal(0)
    # what an entry's postings move in an account: real postings only, a blank one has the inferred amount
    amt = lambda p, b: z3.If(some(s.camt(p)), val(s.camt(p)), b)
    s.amt = amt
    s.asum = Fold('asum', s.Po, [P.Str, s.Sym, s.A], R, lambda p, a, y, b: z3.If(z3.And(s.is_cl(p), s.acct(p) == a, sym(amt(p, b)) == y), mag(amt(p, b)), R0))
    s.ablank = Fold('ablank', s.Po, [P.Str], I, lambda p, a: z3.If(z3.And(s.is_blank(p), s.acct(p) == a), z3.IntVal(1), z3.IntVal(0)), nonneg=True)
    s.doms += [Dom('blank postings of an account are blank postings', (s.ablank, s.nblank), lambda f, p: z3.And(f[0] >= 0, f[0] <= f[1]))]
    vecs = lambda a: (('expense', af(a, 'expense_envelopes')), ('goal', af(a, 'goal_envelopes')))

    def ens(c):
        return acc_processed(c.pre[0], c.post[0], c.pre[1], P.isv(c.ret, 0), c.ghost['SYM'], c.ghost['K'])

    def acc_processed(a, b, e, ok, y, k):
        nm = af(a, 'name')
        out = [('real-value', z3.Implies(ok, s.ps(af(b, 'real_value'), y) == s.ps(af(a, 'real_value'), y) + s.F(s.asum, e, nm, y, s.blankamt(e))), ('C05', 'C06')),
               ('blank-known', z3.Implies(z3.And(ok, s.F(s.ablank, e, nm) > 0), s.blankok(e)), ('C06',)),
               ('name', af(a, 'name') == af(b, 'name'), ('C06', 'C07')),
               ]
        for (lbl, va), (_, vb) in zip(vecs(a), vecs(b)):
            (xa, la), (xb, lb) = P.vparts(va), P.vparts(vb)
            out.append((lbl + '-envelopes-kept', la == lb, ('C07', 'C08')))
            inr = z3.And(ok, k >= 0, k < la)
            for x in s.processed(z3.Select(xa, k), z3.Select(xb, k), e, z3.BoolVal(True)):
                out.append((lbl + ' ' + x[0], z3.Implies(inr, x[1])) + tuple(x[2:]))
        return out

    s.acc_processed = acc_processed

    def inv(L):
        out = []
        k, e = L.eng.ctxg['K'], L.eng.ctx0.pre[1]
        for (gi, it) in L.seqs(s.V):
            if not isinstance(it.f[0], MutRef):
                continue
            x0, l0 = P.vparts(L.eng.resolve(L.st0, it.f[0]))

            def parts(st, it=it):
                return P.vparts(L.eng.resolve(st, it.f[0]))
            out.append(('length', lambda st, parts=parts, l0=l0: parts(st)[1] == l0))

            def done(st, parts=parts, gi=gi, x0=x0, l0=l0):
                x = parts(st)[0]
                pos = gi(st).f[1]
                return z3.And(z3.Implies(z3.And(k >= 0, k < pos), z3.And(*[q[1] for q in s.processed(z3.Select(x0, k), z3.Select(x, k), e, z3.BoolVal(True))])),
                              z3.Implies(z3.And(k >= pos, k < l0), z3.Select(x, k) == z3.Select(x0, k)))
            out.append(('processed so far', done))
        for (g, old) in L.leaves(s.Ac):
            out.append(('one currency', lambda st, g=g: s.EIall(g(st))))
        for (gi, it) in L.seqs(s.Po):
            out.append(('blank amount known', lambda st, gi=gi, it=it: z3.Implies(s.ablank(it.f[0], gi(st).f[1], af(L.eng.ctx0.pre[0], 'name')) > 0, s.blankok(e))))
        return out

    def folds(c):
        a, e, y = c.pre[0], c.pre[1], c.ghost['SYM']
        return [(s.vname, (c.ghost['NAME'],)), (s.psum, (y,)), (s.pcnt, (y,)), (s.nbadv, ()), (s.asum, (af(a, 'name'), y, s.blankamt(e))), (s.ablank, (af(a, 'name'),)), (s.nblank, ()), (s.nenv, ())]
    s.add('account::Account::process_entry', ghosts={'SYM': s.Sym, 'K': I, 'NAME': P.Str}, folds=folds, inv=inv,
          ensures=ens, props=('C06', 'C07', 'C08'))


def avail_inv(s, L):
    """the pool has the currencies of the envelopes seen so far"""
    out = []
    for (g, old) in L.leaves(s.Pool):
        for (gi, it) in L.seqs(s.V):
            def f(st, g=g, gi=gi, it=it):
                ss = s.SS(g(st))
                L.eng.add_inst(st, s.nmiss, (ss,))
                return s.nmiss(it.f[0], gi(st).f[1], ss) == 0
            out.append(('currencies so far', f))
    return out


def fills_inv(s, L):
    out = []
    a = L.eng.ctx0.pre[0]
    y = L.eng.ctxg['SYM']
    av = s.ps(s.af(a, 'real_value'), y) - s.both(s.esum, a, y)
    for (g, old) in L.leaves(s.Pool):
        def f(st, g=g):
            ss = s.SS(g(st))
            L.eng.add_inst(st, s.nmiss, (ss,))
            return s.both(s.nmiss, a, ss) == 0
        out.append(('all currencies', f))
        out.append(('not overspent', lambda st, g=g: z3.Implies(s.both(s.nover, a, y) == 0, s.ps(g(st), y) >= z3.If(av >= 0, z3.RealVal(0), av))))
        for (h, _) in L.leaves(s.P.vec(s.Po)):
            out.append(('what is left', lambda st, g=g, h=h: s.ps(g(st), y) == av - s.fsum.of(s.P, h(st), y)))
    return out


def ledger_part(s):
    P = s.P
    mag, sym, some, val, vf, af = s.mag, s.sym, s.some, s.val, s.vf, s.af
    I, R = s.I, s.R
    R0, I0, I1 = z3.RealVal(0), z3.IntVal(0), z3.IntVal(1)
    one = lambda c: z3.If(c, I1, I0)
    Le = s.sort('ledger::Ledger')
    s.Le = Le
    lf = lambda l, n: P.fld(l, n)
    s.lf = lf
    ents = lambda l: lf(l, 'entries')
    pv = lambda F, e, *ps: F.of(P, s.posts(e), *ps)
    # ---- what the entries move in an account
    s.gsum = Fold('gsum', s.E, [P.Str, s.Sym], R, lambda e, a, y: pv(s.asum, e, a, y, s.blankamt(e)))
    s.nreal = Fold('nreal', s.Po, [P.Str], I, lambda p, a: one(z3.And(s.is_cl(p), s.acct(p) == a)), nonneg=True)
    s.greal = Fold('greal', s.E, [P.Str], I, lambda e, a: pv(s.nreal, e, a), nonneg=True)
    s.gbad = Fold('gbad', s.E, [], I, lambda e: one(z3.And(pv(s.nblank, e) > 0, z3.Not(s.blankok(e)))), nonneg=True)
    dom = lambda m, k: z3.Select(P.get(m, 0, 0), k)
    at = lambda m, k: z3.Select(P.get(m, 0, 1), k)
    s.dom, s.at = dom, at

    def tot(m, a, y):
        return z3.If(dom(m, a), s.ps(at(m, a), y), R0)

    def totals_ens(c):
        l, a, y = c.pre[0], c.ghost['ACCT'], c.ghost['SYM']
        ok, m = P.isv(c.ret, 0), P.get(c.ret, 0, 0)
        return [('totals', z3.Implies(ok, tot(m, a, y) == s.gsum.of(P, ents(l), a, y))),
                ('accounts', z3.Implies(ok, dom(m, a) == (s.greal.of(P, ents(l), a) > 0))),
                ('no-error', z3.Implies(s.gbad.of(P, ents(l)) == 0, ok))]

    def totals_inv(L):
        out = []
        a, y = L.eng.ctxg['ACCT'], L.eng.ctxg['SYM']
        for (g, m0) in L.leaves(P.mapsort(P.Str, s.Pool)):
            for (gi, it) in L.seqs(s.E):
                out.append(('totals so far', lambda st, g=g, gi=gi, it=it: tot(g(st), a, y) == s.gsum(it.f[0], gi(st).f[1], a, y)))
                out.append(('accounts so far', lambda st, g=g, gi=gi, it=it: dom(g(st), a) == (s.greal(it.f[0], gi(st).f[1], a) > 0)))
            for (gi, it) in L.seqs(s.Po):
                for b in [q[1][2] for q in L.st0.inst if q[0] is s.asum]:
                    out.append(('totals in this entry', lambda st, g=g, gi=gi, it=it, b=b, m0=m0: tot(g(st), a, y) == tot(m0, a, y) + s.asum(it.f[0], gi(st).f[1], a, y, b)))
                out.append(('accounts in this entry', lambda st, g=g, gi=gi, it=it, m0=m0: dom(g(st), a) == z3.Or(dom(m0, a), s.nreal(it.f[0], gi(st).f[1], a) > 0)))
        return out

    def each_entry(eng, e):
        a, y = eng.ctxg.get('ACCT'), eng.ctxg.get('SYM')
        return [(s.asum, (a, y, s.blankamt(e)))]
    s.add('ledger::Ledger::get_totals', ghosts={'ACCT': P.Str, 'SYM': s.Sym}, inv=totals_inv,
          folds=lambda c: [(s.psum, (c.ghost['SYM'],)), (s.pcnt, (c.ghost['SYM'],)), (s.gsum, (c.ghost['ACCT'], c.ghost['SYM'])), (s.greal, (c.ghost['ACCT'],)), (s.gbad, ()), (s.nblank, ()), (s.nreal, (c.ghost['ACCT'],))],
          ensures=totals_ens, props=('C05',), opts={'on_touch': {s.E.name(): each_entry}})

    # ---- adding entries
    LE = 'ledger::Ledger::'
    accs = lambda l: lf(l, 'accounts')

    def added(l, m, e, ok, g):
        """m is l with the entry e added"""
        a, y, k1, k2, k = g['ACCT'], g['SYM'], g['K1'], g['K2'], g['K']
        x0, n0 = P.vparts(ents(l))
        x1, n1 = P.vparts(ents(m))
        dt = lambda i: P.fld(z3.Select(x1, i), 'date')
        out = [('one-more', z3.Implies(ok, n1 == n0 + 1), ('C05', 'C16')), ('none-lost', z3.Implies(z3.Not(ok), ents(l) == ents(m)), ('C05', 'C16')),
               ('totals', z3.Implies(ok, s.gsum.of(P, ents(m), a, y) == s.gsum.of(P, ents(l), a, y) + pv(s.asum, e, a, y, s.blankamt(e))), ('C05', 'C16')),
               ('by-date', z3.Implies(z3.And(ok, 0 <= k1, k1 < k2, k2 < n1), dt(k1) <= dt(k2)), ('C16',)),
               ('accounts', dom(accs(m), a) == dom(accs(l), a), ('C05', 'C06'))]
        out += [('settings', z3.And(*[lf(l, n) == lf(m, n) for n in ('file_path', 'date_format', 'decimal_symbol')]), ('C12',))]
        inr = z3.And(ok, dom(accs(l), a))
        for x in s.acc_processed(at(accs(l), a), at(accs(m), a), e, z3.BoolVal(True), y, k):
            out.append(('account ' + x[0], z3.Implies(inr, x[1])) + tuple(x[2:]))
        return out
    s.added = added
    gh = {'ACCT': P.Str, 'SYM': s.Sym, 'K': I, 'K1': I, 'K2': I, 'NAME': P.Str}

    # ---- the type invariant: what is in a ledger was checked
    tol = z3.RealVal('1/1000000')

    def wrong(e, y):
        nb, tot = pv(s.nblank, e), pv(s.csum, e, y)
        mabs = z3.If(tot >= 0, tot, -tot)
        return z3.Or(nb > 1, z3.And(nb > 0, z3.Not(s.blankok(e))), z3.And(nb == 0, s.single(e, y), mabs > tol * (1 + pv(s.cabs, e))))
    s.wrong = wrong
    s.gwrong = Fold('gwrong', s.E, [s.Sym], I, lambda e, y: one(wrong(e, y)), nonneg=True)
    s.doms.append(Dom('wrong entries', (s.gbad, s.gwrong), lambda f, p: f[0] <= f[1]))
    akeys = lambda l: P.get(accs(l), 0, 0)
    s.doms.append(Dom('postings to undefined accounts', (s.nreal, s.nundef), lambda f, p: z3.Implies(z3.Not(z3.Select(p[1][0], p[0][0])), f[0] <= f[1])))
    s.doms.append(Dom('blank postings to undefined accounts', (s.ablank, s.nundef), lambda f, p: z3.Implies(z3.Not(z3.Select(p[1][0], p[0][0])), f[0] <= f[1])))
    s.doms.append(Dom('blank postings are real', (s.ablank, s.nreal), lambda f, p: z3.Implies(p[0][0] == p[1][0], f[0] <= f[1])))
    # the account of a blank posting, if there is one
    BA = z3.Function('account_of_a_blank_posting', s.E, P.Str)

    def ba_def(st, e):
        st.assume(z3.Implies(pv(s.nblank, e) > 0, pv(s.ablank, e, BA(e)) > 0))

    def named(l, a):
        return z3.Implies(dom(accs(l), a), s.af(at(accs(l), a), 'name') == a)

    def linv(eng, l, extra=()):
        out = []
        x, n = P.vparts(ents(l))
        out.append(('entries-well-formed', s.gwrong.of(P, ents(l), eng.tg('SYM', s.Sym)) == 0))
        for a in [eng.tg('ACCT', P.Str)] + list(extra):
            out.append(('accounts-defined', z3.Implies(s.greal.of(P, ents(l), a) > 0, dom(accs(l), a))))
            out.append(('account-names', named(l, a)))
        dt = lambda i: P.fld(z3.Select(x, i), 'date')
        k1, k2 = eng.tg('K1', I), eng.tg('K2', I)
        out.append(('by-date', z3.Implies(z3.And(0 <= k1, k1 < k2, k2 < n), dt(k1) <= dt(k2))))
        return out
    s.linv = linv
    s.tinv[Le.name()] = TInv('Ledger', 'silverfox::ledger', ('C04',), 'type invariant: the entries of a ledger are well-formed, in order of date and post to defined accounts only, and its accounts are filed under their names (obliged of every function in ledger/; the fields are private)',
                             lambda eng, st, l: [f for (n, f) in linv(eng, l)],
                             lambda eng, st, l: linv(eng, l))

    def lfolds(c):
        g = c.ghost
        return [(s.gsum, (g['ACCT'], g['SYM'])), (s.gwrong, (g['SYM'],)), (s.greal, (g['ACCT'],)), (s.gbad, ())]

    def add_inv(L):
        out = []
        g, e = L.eng.ctxg, L.eng.ctx0.pre[1]
        mp = {x[0].get_id(): x for x in L.st0.known.get('mappos', ())}
        for (gm, m0) in L.leaves(P.mapsort(P.Str, s.Ac)):
            out.append(('same accounts', lambda st, gm=gm, m0=m0: P.get(gm(st), 0, 0) == P.get(m0, 0, 0)))
            for (gi, it) in L.seqs(P.Str):
                if it.f[0].get_id() not in mp:
                    continue
                pos = mp[it.f[0].get_id()][1]

                for a in (g['ACCT'], BA(e)):
                    def done(st, gm=gm, m0=m0, gi=gi, pos=pos, a=a):
                        x0, x1 = at(m0, a), at(gm(st), a)
                        return z3.Implies(dom(m0, a), z3.If(pos(a) < gi(st).f[1], z3.And(*[q[1] for q in s.acc_processed(x0, x1, e, z3.BoolVal(True), g['SYM'], g['K'])]), x0 == x1))
                    out.append(('accounts so far', done))
                    out.append(('names', lambda st, gm=gm, a=a: z3.Implies(dom(gm(st), a), s.af(at(gm(st), a), 'name') == a)))
        return out

    def add_folds(c):
        g = c.ghost
        l, e = c.pre[0], c.pre[1]
        return lfolds(c) + [(s.asum, (g['ACCT'], g['SYM'], s.blankamt(e))), (s.nbadv, ()), (s.vname, (g['NAME'],)), (s.nundef, (akeys(l),)), (s.nreal, (g['ACCT'],)), (s.ablank, (BA(e),)), (s.nblank, ())]

    def add_setup(c):
        c.eng.seen_vec(c.st, s.posts(c.pre[1]))
        ba_def(c.st, c.pre[1])
        for (n, f) in linv(c.eng, c.pre[0], (BA(c.pre[1]),)):
            c.st.assume(f)

    def add_req(c):
        """the entry passed Entry::parse with the accounts of this ledger"""
        l, e = c.pre[0], c.pre[1]
        out = [('accounts-defined', pv(s.nundef, e, akeys(l)) == 0)]
        nb = pv(s.nblank, e)
        out.append(('one-blank', nb <= 1))
        for y in [c.eng.tg('SYM', s.Sym)]:
            tot = pv(s.csum, e, y)
            mabs = z3.If(tot >= 0, tot, -tot)
            out.append(('balanced', z3.Implies(z3.And(nb == 0, s.single(e, y)), mabs <= tol * (1 + pv(s.cabs, e)))))
        return out
    s.add(LE + 'add_entry', ghosts=gh, folds=add_folds, inv=add_inv, requires=add_req, setup=add_setup, ensures=lambda c: added(c.pre[0], c.post[0], c.pre[1], P.isv(c.ret, 0), c.ghost),
          props=('C05', 'C06', 'C07', 'C08'), opts={'pre_props': ('C04',), 'keyterms': lambda c: [BA(c.pre[1])]})

    # ---- reading
    def grown(l, m, a):
        return [('accounts-kept', z3.Implies(dom(accs(l), a), dom(accs(m), a)), ('C04',)),
                ('entries-kept', P.vparts(ents(m))[1] >= P.vparts(ents(l))[1], ('C05', 'C16')),
                ('same-file', lf(l, 'file_path') == lf(m, 'file_path'), ('C12',))]
    g2 = {'ACCT': P.Str, 'SYM': s.Sym, 'K1': I, 'K2': I}
    grow_ens = s.grow_ens = lambda c: grown(c.pre[0], c.post[0], c.ghost['ACCT'])
    fewf = s.fewf = lambda c: lfolds(c)
    def reads(eng, st, call):
        l, x = eng.ctx0.pre[0], eng.ctx0.pre[1]
        o = [('the-whole-chunk', call.pre[0] == x)]
        for v in call.pre[1:]:
            if is_z3(v) and v.sort().eq(P.Str):
                o.append(('the-date-format', v == lf(l, 'date_format')))
            elif is_z3(v) and v.sort().eq(I):
                o.append(('the-decimal-sign', v == lf(l, 'decimal_symbol')))
        return [(n, f, ('C13', 'C05', 'C14')) for (n, f) in o]
    fun = {'function': True}
    s.add(LE + 'parse_entry', ghosts=g2, folds=lambda c: lfolds(c) + [(s.nundef, (akeys(c.pre[0]),))],
          ensures=lambda c: [('one-more', z3.Implies(P.isv(c.ret, 0), P.vparts(ents(c.post[0]))[1] == P.vparts(ents(c.pre[0]))[1] + 1), ('C05', 'C16')),
                             ('none-lost', z3.Implies(z3.Not(P.isv(c.ret, 0)), ents(c.pre[0]) == ents(c.post[0])), ('C05', 'C16'))] + grow_ens(c), props=('C04',),
          opts=dict(fun, at_call={S + 'entry::Entry::parse': reads}))
    s.add(LE + 'parse_account', ghosts=g2, folds=fewf, ensures=lambda c: [('entries', ents(c.pre[0]) == ents(c.post[0]), ('C05',))] + grow_ens(c), props=('C04',),
          opts=dict(fun, at_call={S + 'account::Account::parse': reads}))
    set_to = lambda f: (lambda c: grow_ens(c) + [('what-is-given', z3.And(P.isv(c.ret, 0) == s.some(c.pre[1]), z3.Implies(P.isv(c.ret, 0), lf(c.post[0], f) == s.val(c.pre[1]))) if f == 'default_currency' else
                                                  z3.Implies(P.isv(c.ret, 0), z3.And(s.some(c.pre[1]), lf(c.post[0], f) == s.val(c.pre[1]))), ('C13', 'C05'))] +
                        [('nothing-else', z3.And(*[lf(c.post[0], g) == lf(c.pre[0], g) for g in ('default_currency', 'date_format', 'decimal_symbol', 'entries', 'accounts') if g != f]), ('C13', 'C05'))])
    s.add(LE + 'set_currency', ghosts=g2, folds=fewf, ensures=set_to('default_currency'), props=('C04',), opts=fun)
    s.add(LE + 'set_date_format', ghosts=g2, folds=fewf, ensures=set_to('date_format'), props=('C04',), opts=fun)
    s.add(LE + 'include', ghosts=g2, folds=fewf, ensures=grow_ens, props=('C04',), opts=fun)
    s.add(LE + 'add_from_file', ghosts=g2, folds=fewf, ensures=grow_ens, props=('C04',),
          opts={'at_call': {S + LE + 'add_from_str': lambda eng, st, call: from_file(s, eng, st, [(call.pre[1], eng.ctx0.pre[1])], ('C05', 'C16'))}})

    def dispatch(c):
        """the first word of a chunk says what it is"""
        M, l, x = c.eng.M, c.pre[0], c.pre[1]
        arr, n = M.uf('split_whitespace_arr', [x], z3.ArraySort(I, P.Str)), M.uf('split_whitespace_n', [x], I)
        second = z3.If(n > 1, P.some(arr[1]), P.none(P.Str))
        key = {'account': ('parse_account', x), 'currency': ('set_currency', second), 'date_format': ('set_date_format', second), 'include': ('include', second)}
        if not all((S + LE + f) in P.by_name for f in [q[0] for q in key.values()] + ['parse_entry']):
            return []
        rs = c.ret.sort()
        r = lambda f, a: z3.And(c.post[0] == c.eng.post_of(s.C[S + LE + f], 0, [l, a]), P.isv(c.ret, 0) == P.isv(c.eng.pure_ret(s.C[S + LE + f], [l, a], rs), 0))
        return [('nothing-from-nothing', z3.Implies(z3.Or(x == P.lit(''), n == 0), z3.And(P.isv(c.ret, 0), c.post[0] == l)), ('C13',))] + \
            [('%s' % w, z3.Implies(z3.And(n > 0, x != P.lit(''), arr[0] == P.lit(w)), r(f, a)), ('C13', 'C05')) for w, (f, a) in key.items()] + \
            [('an-entry-otherwise', z3.Implies(z3.And(n > 0, x != P.lit(''), *[arr[0] != P.lit(w) for w in key]), r('parse_entry', x)), ('C13', 'C05'))]
    # (what a chunk does to the ledger is decided by the two, as long as the files it includes stay as they are)
    chunk = s.add(LE + 'parse_chunk', ghosts=g2, folds=fewf, ensures=lambda c: grow_ens(c) + dispatch(c), props=('C04',), opts=fun)

    # ---- lines to chunks (C13): only what is before a comment sign counts, and lines with nothing there are as good as absent
    ISW = z3.Function('is_whitespace:Int', I, z3.BoolSort())

    def clean(eng, l):
        """(the line without its comment, is there nothing, does it begin with whitespace)"""
        M = eng.M
        t = M.uf('pure:silverfox::utils::remove_comments', [M.uf('trim_end', [l], P.Str)], P.Str)
        return t, t == P.lit(''), ISW(M.uf('chars_arr', [t], z3.ArraySort(I, I))[0])

    def chunk_step(eng, arr, i):
        t, none, ind = clean(eng, arr[i])
        prev = s.chunk(arr, i)
        return z3.If(none, prev, z3.If(ind, eng.M.cat([prev, P.lit('\n'), t]), t))

    def led_step(eng, arr, i, l):
        t, none, ind = clean(eng, arr[i])
        prev = s.readled(arr, i, l)
        return z3.If(z3.Or(none, ind), prev, eng.post_of(chunk, 0, [prev, s.chunk(arr, i)]))
    s.chunk = RecFold('chunk', P.Str, [], P.Str, lambda eng: P.lit(''), chunk_step)
    s.readled = RecFold('ledger', P.Str, [Le], Le, lambda eng, l: l, led_step)
    textlines = lambda c, x: (c.eng.M.uf('lines_arr', [x], z3.ArraySort(I, P.Str)), c.eng.M.uf('lines_n', [x], I))

    def chunks_ens(c):
        if (S + LE + 'parse_chunk') not in P.by_name:
            return grow_ens(c)
        arr, n = textlines(c, c.pre[1])
        last = [s.readled(arr, n, c.pre[0]), s.chunk(arr, n)]
        return grow_ens(c) + [('chunk by chunk, without comments', z3.Implies(P.isv(c.ret, 0), c.post[0] == c.eng.post_of(chunk, 0, last)), ('C13', 'C05'))]

    def chunks_inv(L):
        out = []
        l0 = L.eng.ctx0.pre[0]
        for (a, pos) in L.prefixes(P.Str):
            for (g, old) in L.leaves(Le):
                out.append(('chunks so far', lambda st, g=g, a=a, pos=pos: g(st) == s.readled(a, pos(st), l0)))
            for (g, old) in L.leaves(P.Str):
                out.append(('lines of this chunk', lambda st, g=g, a=a, pos=pos: g(st) == s.chunk(a, pos(st))))
        return out

    def read_inv(L):
        out = []
        for (gl, l0) in L.leaves(Le):
            for k, x in enumerate(linv(L.eng, l0)):
                out.append((x[0], lambda st, gl=gl, k=k: linv(L.eng, gl(st))[k][1]))
            for k, x in enumerate(grown(l0, l0, L.eng.ctxg['ACCT'])):
                out.append((x[0], lambda st, gl=gl, k=k, l0=l0: grown(l0, gl(st), L.eng.ctxg['ACCT'])[k][1]))
        return out
    s.read_inv = read_inv
    s.add(LE + 'add_from_str', ghosts=g2, folds=fewf, inv=both(read_inv, chunks_inv), ensures=chunks_ens, props=('C04',), opts={'tests': True, 'text': lambda c: [(s.chunk, ()), (s.readled, (c.pre[0],))]})
    s.add(LE + 'new', ghosts=g2, folds=lambda c: [(s.gwrong, (c.ghost['SYM'],)), (s.greal, (c.ghost['ACCT'],))], ensures=lambda c: [('empty', P.vparts(ents(c.ret))[1] == 0)], props=('C04',))
    s.add(LE + 'from_file', ghosts=g2, folds=lambda c: [(s.gwrong, (c.ghost['SYM'],)), (s.greal, (c.ghost['ACCT'],))], ensures=lambda c: [('same-file', z3.Implies(P.isv(c.ret, 0), lf(P.get(c.ret, 0, 0), 'file_path') == c.pre[0]), ('C12',))], props=('C04',))

    # ---- writing
    def append_ens(c):
        l, m, e = c.pre[0], c.post[0], c.pre[1]
        ok = P.isv(c.ret, 0)
        (w0, b0), (w1, b1) = c.io_pre, c.io_post
        return [('append-only', b0 == b1, ('C12',)), ('at-most-one-write', z3.And(w1 >= w0, w1 <= w0 + 1), ('C12',)),
                ('written-when-ok', z3.Implies(ok, w1 == w0 + 1), ('C12',))] + grow_ens(c)
    s.add(LE + 'append_entry', ghosts=g2, folds=fewf, ensures=append_ens, props=('C12',), opts={'io': True, 'journal': lambda c: lf(c.pre[0], 'file_path')})


def date_part(s):
    """C11: due dates.  The calendar functions are the ones of models.py (assumed of chrono)."""
    P = s.P
    I = s.I
    Fq = s.sort('envelope::Frequency')
    s.Fq = Fq
    MI, DAY, FIRST = z3.Function('month_index_of', I, I), z3.Function('day_of', I, I), z3.Function('first_of_month', I, I)
    T = z3.Const('TODAY', I)
    s.TODAY = T
    V = {n: P.vidx(Fq, n) for n in ('Never', 'Once', 'Weekly', 'Biweekly', 'Monthly', 'Bimonthly', 'Annually')}
    is_ = lambda f, n: P.isv(f, V[n])
    arg = lambda f, n: P.get(f, V[n], 0)

    def occ(c, mi, day):
        """the day of the month, or the month's last day"""
        M = c.eng.M
        M.reg_month(c.st_post if hasattr(c, 'st_post') else c.st, mi)
        ml = M.mlen(mi)
        return FIRST(mi) + z3.If(z3.And(day >= 1, day <= ml), day, ml) - 1
    some, val = s.some, s.val

    def facts(c, *ds):
        for d in ds:
            c.eng.M.date_facts(c.st_post, d)

    def next_ens(c):
        f, r = c.pre[0], c.ret
        n = val(r)
        w = c.eng.M.weekday_num(arg(f, 'Weekly'))
        bs, ms, an, md = arg(f, 'Biweekly'), arg(f, 'Bimonthly'), arg(f, 'Annually'), arg(f, 'Monthly')
        facts(c, n, bs, ms, an, arg(f, 'Once'))
        mo = occ(c, MI(T), md)
        yr = lambda y: occ(c, 12 * y + MI(an) % 12, DAY(an))
        return [
            ('never', z3.Implies(is_(f, 'Never'), z3.Not(some(r)))),
            ('once', z3.Implies(is_(f, 'Once'), z3.And(some(r) == (arg(f, 'Once') > T), z3.Implies(some(r), n == arg(f, 'Once'))))),
            ('repeats', z3.Implies(z3.Not(z3.Or(is_(f, 'Never'), is_(f, 'Once'))), some(r))),
            ('after-today', z3.Implies(some(r), n > T)),
            ('weekly', z3.Implies(is_(f, 'Weekly'), z3.And(n <= T + 7, n % 7 == w))),
            ('every-other-week', z3.Implies(is_(f, 'Biweekly'), z3.If(bs > T, n == bs, z3.And(n <= T + 14, (n - bs) % 14 == 0)))),
            ('monthly', z3.Implies(is_(f, 'Monthly'), n == z3.If(mo > T, mo, occ(c, MI(T) + 1, md)))),
            ('every-other-month', z3.Implies(is_(f, 'Bimonthly'), z3.If(ms > T, n == ms, z3.And(
                (MI(n) - MI(ms)) % 2 == 0, n == occ(c, MI(n), DAY(ms)), occ(c, MI(n) - 2, DAY(ms)) <= T)))),
            ('yearly', z3.Implies(is_(f, 'Annually'), z3.If(an > T, n == an, n == z3.If(yr(MI(T) / 12) > T, yr(MI(T) / 12), yr(MI(T) / 12 + 1))))),
        ]

    def next_inv(L):
        out = []
        M = L.eng.M
        f = L.eng.ctx0.pre[0]
        w = M.weekday_num(arg(f, 'Weekly'))
        ms, bs, an = arg(f, 'Bimonthly'), arg(f, 'Biweekly'), arg(f, 'Annually')
        tgt = T + 1 + (w - T - 1) % 7
        for (g, old) in L.leaves(I):
            out.append(('not past the weekday', lambda st, g=g: z3.And(g(st) > T, g(st) <= tgt)))
            out.append(('days before the weekday', lambda st, g=g: z3.And(g(st) >= 1, T + g(st) <= tgt)))
            out.append(('before the weekday', lambda st, g=g: z3.And(g(st) >= T, g(st) < tgt)))

            def every_other(st, g=g):
                d = g(st)
                M.date_facts(st, d)
                M.date_facts(st, ms)
                mi = MI(d)

                def oc(m):
                    M.reg_month(st, m)
                    ml = M.mlen(m)
                    return FIRST(m) + z3.If(z3.And(DAY(ms) >= 1, DAY(ms) <= ml), DAY(ms), ml) - 1
                return z3.And((mi - MI(ms)) % 2 == 0, mi >= MI(ms), d == oc(mi), z3.Or(d == ms, oc(mi - 2) <= T), mi <= z3.If(MI(T) > MI(ms), MI(T), MI(ms)) + 2)
            out.append(('every other month', every_other))
            top = z3.If(bs > T, bs, T + 14)
            out.append(('every other week', lambda st, g=g: z3.And(g(st) >= bs, g(st) <= top, (g(st) - bs) % 14 == 0)))
            out.append(('periods passed', lambda st, g=g: z3.And(g(st) >= 0, bs + 14 * g(st) <= top)))

            def oy(st, y):
                mi = 12 * y + MI(an) % 12
                M.date_facts(st, an)
                M.reg_month(st, mi)
                ml = M.mlen(mi)
                return FIRST(mi) + z3.If(z3.And(DAY(an) >= 1, DAY(an) <= ml), DAY(an), ml) - 1

            def yearly(st, g=g):
                y = g(st)
                return z3.And(y >= MI(an) / 12, y <= MI(T) / 12 + 1, z3.Or(y == MI(an) / 12, y == MI(T) / 12, oy(st, y - 1) <= T))
            out.append(('year', yearly))
            for (h, _) in L.leaves(I):
                if h is not g:
                    out.append(('anniversary', lambda st, g=g, h=h: g(st) == oy(st, h(st))))
                    out.append(('months counted', lambda st, g=g, h=h: h(st) == MI(g(st))))
                    out.append(('months since the start', lambda st, g=g, h=h: h(st) == MI(g(st)) - MI(ms)))
        return out
    FQ = 'envelope::Frequency::'

    def date_req(c):
        # the dates in a frequency come out of chrono, and a starting date is within its range
        f = c.pre[0]
        for n in ('Once', 'Biweekly', 'Bimonthly', 'Annually'):
            c.eng.M.date_facts(c.st, arg(f, n))
        return []
    s.add(FQ + 'get_next_due_date', pure=True, requires=date_req, ensures=next_ens, inv=next_inv, props=('C11',), opts={'opaque': True})

    def last_ens(c):
        f, r = c.pre[0], c.ret
        d = val(r)
        nx = s.NEXT(f)
        n = val(nx)
        ms, an, md = arg(f, 'Bimonthly'), arg(f, 'Annually'), arg(f, 'Monthly')
        facts(c, n, ms, an, d)
        return [
            ('never', z3.Implies(is_(f, 'Never'), z3.Not(some(r)))),
            ('once', z3.Implies(is_(f, 'Once'), z3.And(some(r) == (arg(f, 'Once') <= T), z3.Implies(some(r), d == arg(f, 'Once'))))),
            ('repeats', z3.Implies(z3.Not(z3.Or(is_(f, 'Never'), is_(f, 'Once'))), some(r))),
            ('weekly', z3.Implies(is_(f, 'Weekly'), d == n - 7)),
            ('every-other-week', z3.Implies(is_(f, 'Biweekly'), d == n - 14)),
            ('monthly', z3.Implies(is_(f, 'Monthly'), d == occ(c, MI(n) - 1, md))),
            ('every-other-month', z3.Implies(is_(f, 'Bimonthly'), d == occ(c, MI(n) - 2, DAY(ms)))),
            ('yearly', z3.Implies(is_(f, 'Annually'), d == occ(c, MI(n) - 12, DAY(an)))),
        ]
    def months_inv(L):
        out = []
        lv = L.leaves(I)
        for (g, old) in lv:
            out.append(('month of a year', lambda st, g=g: z3.And(g(st) >= -13, g(st) <= 11)))
            for (h, old2) in lv:
                if h is not g:
                    out.append(('months carried', lambda st, g=g, h=h, old=old, old2=old2: 12 * g(st) + h(st) == 12 * old + old2))
        return out
    s.NEXT = lambda f: z3.Function('pure:silverfox::%sget_next_due_date:%s' % (FQ, Fq), Fq, P.opt(I))(f)
    s.LAST = lambda f: z3.Function('pure:silverfox::%sget_last_due_date:%s' % (FQ, Fq), Fq, P.opt(I))(f)
    s.add(FQ + 'get_last_due_date', pure=True, requires=date_req, ensures=last_ens, inv=months_inv, props=('C11',), opts={'opaque': True, 'reveal': ('get_next_due_date',)})


def text_part(s):
    P = s.P
    vf, af, some, val = s.vf, s.af, s.some, s.val
    ok = lambda c: P.isv(c.ret, 0)
    EN = 'envelope::Envelope::'
    I, I0, I1 = s.I, z3.IntVal(0), z3.IntVal(1)
    lit = P.lit
    amount_text(s)
    uf = lambda c, n, xs, srt: (c.eng if hasattr(c, 'eng') else c).M.uf(n, xs, srt)
    words = lambda c, x: (uf(c, 'split_whitespace_arr', [x], z3.ArraySort(I, P.Str)), uf(c, 'split_whitespace_n', [x], I))
    lines = lambda c, x: (uf(c, 'lines_arr', [x], z3.ArraySort(I, P.Str)), uf(c, 'lines_n', [x], I))
    trim = lambda c, x: uf(c, 'trim', [x], P.Str)
    rc = lambda c, x: uf(c, 'pure:silverfox::utils::remove_comments', [x], P.Str)
    OI, OS = P.opt(I), P.opt(P.Str)
    find = lambda c, x, p, how='find': uf(c, how, [x, p], OI)
    slen = z3.Function('str_len:Str', P.Str, I)
    sub = lambda c, x, a, b: uf(c, 'substr', [x, simp(a), simp(b)], P.Str)
    isv, get = P.isv, P.get
    here = lambda *ns: all((S + n) in P.by_name for n in ns)
    PE = S + 'errors::ParseError'
    empty = lambda c: [('starts-empty', z3.Implies(ok(c), z3.And(s.mag(vf(get(c.ret, 0, 0), 'now_amount')) == 0, s.mag(vf(get(c.ret, 0, 0), 'next_amount')) == 0)), ('C07', 'C08'))]

    # ---- how often (C11)
    FQ = 'envelope::Frequency::'
    Fq = s.Fq
    weekday = s.add(FQ + 'parse_weekday', pure=True, props=('C11',), opts={'wording': True})
    s.digits = TextFold('digits', I, [], P.Str, lambda x, i: z3.And(x >= 48, x <= 57))
    RU32 = P.result_int('U32')

    def dom_ens(c):
        if RU32 is None:
            return []
        x = c.pre[0]
        ca, cn = uf(c, 'chars_arr', [x], z3.ArraySort(I, I)), uf(c, 'chars_n', [x], I)
        v = uf(c, 'parse', [s.digits(ca, cn)], RU32)
        return [('the-number-written', z3.And(some(c.ret) == isv(v, 0), z3.Implies(some(c.ret), val(c.ret) == get(v, 0, 0))))]
    day = s.add(FQ + 'parse_day_of_month', pure=True, props=('C11',), ensures=dom_ens, opts={'wording': True, 'text': lambda c: [(s.digits, ())]},
                inv=lambda L: [('digits so far', lambda st, g=g, a=a, pos=pos: g(st) == s.digits(a, pos(st))) for (g, old) in L.leaves(P.Str) for (a, pos) in L.prefixes(I)])
    RD = None
    for i, t in P.T.items():
        if t['k'] == 'adt' and t['name'] == 'std::result::Result' and P.t(t['args'][0]).get('name') == 'chrono::NaiveDate' and P.t(t['args'][1]).get('name') == 'chrono::ParseError':
            RD = P.sort(int(i))

    def freq_ens(c):
        if RD is None or not here(FQ + 'parse_weekday', FQ + 'parse_day_of_month'):
            return []
        x, fmt, start = c.pre[0], c.pre[1], c.pre[2]
        eo, ev = (uf(c, 'strip_prefix', [x, lit(w)], OS) for w in ('every other ', 'every '))
        WD = P.opt(get(z3.Const('f0', Fq), P.vidx(Fq, 'Weekly'), 0).sort())
        wd, dm = (lambda o: c.eng.pure_ret(weekday, [val(o)], WD)), (lambda o: c.eng.pure_ret(day, [val(o)], OI))
        d = uf(c, 'parse_date', [x, fmt], RD)
        f = get(c.ret, 0, 0)
        mk = lambda n, v: z3.And(isv(f, P.vidx(Fq, n)), get(f, P.vidx(Fq, n), 0) == v)
        good = ok(c)
        other, every = some(eo), z3.And(z3.Not(some(eo)), some(ev))
        once = z3.And(z3.Not(some(eo)), z3.Not(some(ev)))
        year = val(ev) == lit('year')
        fits = z3.If(other, z3.And(some(start), z3.Or(some(wd(eo)), some(dm(eo)))),
                     z3.If(every, z3.Or(some(wd(ev)), some(dm(ev)), z3.And(val(ev) == lit('year'), some(start))), isv(d, 0)))
        return [('refused-only-if-unknown', good == fits),
                # (no text names a weekday and has a number, too)
                ('every-other', z3.Implies(z3.And(good, other), z3.And(z3.Implies(z3.Not(some(dm(eo))), mk('Biweekly', val(start))), z3.Implies(z3.Not(some(wd(eo))), mk('Bimonthly', val(start)))))),
                ('every', z3.Implies(z3.And(good, every), z3.And(
                    z3.Implies(z3.And(some(wd(ev)), z3.Not(some(dm(ev))), z3.Not(year)), mk('Weekly', val(wd(ev)))),
                    z3.Implies(z3.And(some(dm(ev)), z3.Not(some(wd(ev))), z3.Not(year)), mk('Monthly', val(dm(ev)))),
                    z3.Implies(z3.And(z3.Not(some(dm(ev))), z3.Not(some(wd(ev)))), mk('Annually', val(start)))))),
                ('once', z3.Implies(z3.And(good, once), mk('Once', get(d, 0, 0))))]
    freq = s.add(FQ + 'parse', pure=True, props=('C11',), ensures=freq_ens, opts={'wording': True})
    RFq = P.result_of(Fq, PE)

    def exf_ens(c):
        if RFq is None or not here(FQ + 'parse'):
            return []
        x = rc(c, c.pre[0])
        never = uf(c, 'contains', [x, lit('no date')], z3.BoolSort())
        by, due = find(c, x, lit(' by '), 'rfind'), find(c, x, lit(' due '), 'rfind')
        at = z3.If(some(by), val(by) + 4, val(due) + 5)
        fr = lambda k: c.eng.pure_ret(freq, [trim(c, sub(c, x, k, slen(x))), c.pre[1], c.pre[2]], RFq)
        r1, r2 = fr(val(by) + 4), fr(val(due) + 5)
        same = lambda r: z3.And(ok(c) == isv(r, 0), z3.Implies(ok(c), get(c.ret, 0, 0) == get(r, 0, 0)))
        return [('no-date', z3.Implies(never, z3.And(ok(c), isv(get(c.ret, 0, 0), P.vidx(Fq, 'Never'))))),
                ('what-comes-after-by', z3.Implies(z3.And(z3.Not(never), some(by)), same(r1))),
                ('what-comes-after-due', z3.Implies(z3.And(z3.Not(never), z3.Not(some(by)), some(due)), same(r2))),
                ('nothing-said', z3.Implies(z3.And(z3.Not(never), z3.Not(some(by)), z3.Not(some(due))), z3.Not(ok(c))))]
    exf = s.add(EN + 'extract_frequency', pure=True, props=('C11',), ensures=exf_ens, opts={'wording': True})

    # ---- the first line of an envelope
    typ = s.add('envelope::EnvelopeType::from_str', pure=True, props=('C06', 'C19'), opts={'wording': True},
                ensures=lambda c: [('of-the-kind-written', z3.And(ok(c) == z3.Or(c.pre[0] == lit('expense'), c.pre[0] == lit('goal')),
                                                                  z3.Implies(ok(c), isv(get(c.ret, 0, 0), P.vidx(get(c.ret, 0, 0).sort(), 'Expense')) == (c.pre[0] == lit('expense')))))])
    FUND = {'manual': 'Manual', 'aggressive': 'Aggressive', 'conservative': 'Conservative'}
    fund = s.add('envelope::FundingMethod::from_str', pure=True, props=('C09',),
                 ensures=lambda c: [('as-written', z3.And(ok(c) == z3.Or(*[trim(c, c.pre[0]) == lit(w) for w in FUND]),
                                                          *[z3.Implies(trim(c, c.pre[0]) == lit(w), isv(get(c.ret, 0, 0), P.vidx(get(c.ret, 0, 0).sort(), v))) for w, v in FUND.items()]))])

    def fh_ens(c):
        e, good = get(c.ret, 0, 0), ok(c)
        x = trim(c, rc(c, c.pre[0]))
        arr, n = words(c, x)
        st = find(c, x, lit(' starting '))
        res = empty(c) + [('the-name-written', z3.Implies(good, z3.And(n >= 2, vf(e, 'name') == arr[1])), ('C06', 'C19')),
                          ('the-account-given', z3.Implies(good, vf(e, 'account') == c.pre[2]), ('C07', 'C08')),
                          ('for-no-account-yet', z3.Implies(good, z3.Not(s.isin(vf(e, 'auto_accounts'), c.ghost['NAME']))), ('C08',)),
                          ('filled-by-hand-unless-said', z3.Implies(good, isv(vf(e, 'funding'), P.vidx(vf(e, 'funding').sort(), 'Manual'))), ('C09',))]
        if here('envelope::EnvelopeType::from_str'):
            RT = P.result_of(vf(e, 'envelope_type').sort(), PE)
            t = c.eng.pure_ret(typ, [arr[0]], RT)
            res.append(('the-type-written', z3.Implies(good, z3.And(isv(t, 0), vf(e, 'envelope_type') == get(t, 0, 0))), ('C06', 'C19')))
        if RD is not None and RFq is not None and here(EN + 'extract_frequency'):
            d = uf(c, 'parse_date', [sub(c, x, val(st) + 10, slen(x)), c.pre[1]], RD)
            sd = z3.If(some(st), P.some(get(d, 0, 0)), P.none(I))
            f1 = c.eng.pure_ret(exf, [sub(c, x, I0, val(st)), c.pre[1], P.some(get(d, 0, 0))], RFq)
            f2 = c.eng.pure_ret(exf, [x, c.pre[1], P.none(I)], RFq)
            res.append(('the-starting-date-written', z3.Implies(good, z3.And(z3.Implies(some(st), isv(d, 0)), vf(e, 'starting_date') == sd)), ('C11',)))
            res.append(('the-due-date-written', z3.Implies(good, z3.If(some(st), z3.And(isv(f1, 0), vf(e, 'freq') == get(f1, 0, 0)), z3.And(isv(f2, 0), vf(e, 'freq') == get(f2, 0, 0)))), ('C11',)))
        return res
    head = s.add(EN + 'from_header', pure=True, ghosts={'NAME': P.Str}, ensures=fh_ens, props=('C07',))

    # ---- its other lines
    adda = s.add(EN + 'add_account', ensures=lambda c: [('keeps', z3.And(*[vf(c.post[0], n) == vf(c.pre[0], n) for n in P.variants[s.V.name()][0][1] if n != 'auto_accounts'])),
                                                ('one-more', s.isin(vf(c.post[0], 'auto_accounts'), c.ghost['NAME']) == z3.Or(s.isin(vf(c.pre[0], 'auto_accounts'), c.ghost['NAME']), z3.And(ok(c), trim(c, c.pre[1]) == c.ghost['NAME']))),
                                                ('one-word', ok(c) == (words(c, c.pre[1])[1] == 1))], ghosts={'NAME': P.Str}, props=('C08',), modifies={0: ('auto_accounts',)}, opts={'function': True})

    def with_(v, **kw):
        names = P.variants[v.sort().name()][0][1]
        return P.con(v.sort(), 0, *[kw.get(n, P.get(v, 0, j)) for j, n in enumerate(names)])
    RAm = P.result_sort(S + 'amount::Amount', PE)
    FM = P.fld(z3.Const('v0', s.V), 'funding').sort()
    RFm = P.result_of(FM, PE)
    body_ready = RAm is not None and RFm is not None and here(EN + 'add_account', 'envelope::FundingMethod::from_str', 'amount::Amount::parse')

    def prop(eng, l):
        """(the words, where the value begins, the value) of a line"""
        t = trim(eng, rc(eng, l))
        arr, n = words(eng, t)
        i = find(eng, t, z3.IntVal(32))
        return arr, n, i, sub(eng, t, val(i), slen(t))

    def body_step(eng, arr, i, v0, d):
        w, n, at, v = prop(eng, arr[i])
        prev = s.envbody(arr, i, v0, d)
        a, f = eng.pure_ret(s.read_amount, [v, d], RAm), eng.pure_ret(fund, [v], RFm)
        am = get(a, 0, 0)
        y = s.sym(am)
        cur = lambda nm: P.con(s.A, 0, *[y if g == 'symbol' else P.get(vf(prev, nm), 0, j) for j, g in enumerate(P.variants[s.A.name()][0][1])])
        return z3.If(n <= 1, prev, z3.If(w[0] == lit('for'), eng.post_of(adda, 0, [prev, v]),
                     z3.If(w[0] == lit('amount'), with_(prev, amount=am, next_amount=cur('next_amount'), now_amount=cur('now_amount')),
                           z3.If(w[0] == lit('funding'), with_(prev, funding=get(f, 0, 0)), prev))))
    s.envbody = RecFold('envelope', P.Str, [s.V, I], s.V, lambda eng, v0, d: v0, body_step)

    def line_fits(eng, l, d):
        w, n, at, v = prop(eng, l)
        a, f = eng.pure_ret(s.read_amount, [v, d], RAm), eng.pure_ret(fund, [v], RFm)
        return z3.Or(n <= 0, z3.And(some(at), z3.Implies(n > 1, z3.Or(w[0] == lit('for'), z3.And(w[0] == lit('amount'), isv(a, 0)), z3.And(w[0] == lit('funding'), isv(f, 0))))))

    def body_ens(c):
        res = [('keeps', z3.And(*[vf(c.post[0], n) == vf(c.pre[0], n) for n in ('name', 'account', 'freq', 'starting_date', 'last_transaction_date')])),
               ('no-money', z3.And(*[s.mag(vf(c.post[0], n)) == s.mag(vf(c.pre[0], n)) for n in ('now_amount', 'next_amount')]))]
        if not body_ready:
            return res
        arr, n = lines(c, c.pre[1])
        J, d = c.ghost['J'], c.pre[3]
        return res + [('line-by-line', z3.Implies(ok(c), c.post[0] == s.envbody(arr, n, c.pre[0], d)), ('C06', 'C08', 'C09', 'C13')),
                      ('wrong-lines-are-refused', z3.Implies(z3.And(ok(c), J >= 0, J < n), line_fits(c.eng, arr[J], d)), ('C09', 'C14'))]

    def body_inv(L):
        res = [('one currency', lambda st, g=g: s.EI(g(st))) for (g, old) in L.leaves(s.V)]
        if not body_ready:
            return res
        c = L.eng.ctx0
        J, d = L.eng.ctxg['J'], c.pre[3]
        for (a, pos) in L.prefixes(P.Str):
            res += [('lines so far', lambda st, g=g, a=a, pos=pos: g(st) == s.envbody(a, pos(st), c.pre[0], d)) for (g, old) in L.leaves(s.V)]
            res.append(('no line was wrong', lambda st, a=a, pos=pos: z3.Implies(z3.And(J >= 0, J < pos(st)), line_fits(L.eng, a[J], d))))
        return res
    addb = s.add(EN + 'add_body', inv=body_inv, ghosts={'J': I}, ensures=body_ens, props=('C07',), opts={'function': True, 'text': lambda c: [(s.envbody, (c.pre[0], c.pre[3]))] if body_ready else ()})
    RV = P.result_of(s.V, PE)

    def env_ens(c):
        if RV is None or not here(EN + 'from_header', EN + 'add_body'):
            return empty(c)
        x = trim(c, c.pre[0])
        arr, n = lines(c, x)
        h = c.eng.pure_ret(head, [arr[0], c.pre[3], c.pre[1]], RV)
        body = uf(c, 'join', [uf(c, 'drop', [arr, I1], arr.sort()), simp(n - 1), lit('\n')], P.Str)
        args = [get(h, 0, 0), body, c.pre[1], c.pre[2]]
        res = [('as-written', z3.Implies(ok(c), z3.And(n >= 1, isv(h, 0), get(c.ret, 0, 0) == c.eng.post_of(addb, 0, args))), ('C06', 'C08', 'C09', 'C11', 'C13'))]
        RB = P.result_unit(PE)
        if RB is not None:
            res.append(('errors-are-passed-on', z3.Implies(ok(c), isv(c.eng.pure_ret(addb, args, RB), 0)), ('C09', 'C14')))
        return empty(c) + res
    env = s.add(EN + 'parse', pure=True, ensures=env_ens, props=('C07',))

    # ---- accounts
    s.add('account::Account::parse_header', pure=True, props=('C06',), opts={'wording': True},
          ensures=lambda c: [('one-name', z3.And(ok(c) == (words(c, rc(c, c.pre[0]))[1] == 2), z3.Implies(ok(c), get(c.ret, 0, 0) == words(c, rc(c, c.pre[0]))[0][1])), ('C05', 'C13'))])
    adde = s.C.get(S + 'account::Account::add_envelope')
    acc_ready = RV is not None and here(EN + 'parse', 'account::Account::add_envelope')
    starts = z3.Function('starts_with:Str/Str', P.Str, P.Str, z3.BoolSort())
    opens = lambda eng, l: z3.Or(*[starts(trim(eng, l), lit(w)) for w in ('expense', 'goal')])

    def echunk_step(eng, arr, i):
        return z3.If(i == 0, lit(''), z3.If(opens(eng, arr[i]), arr[i], eng.M.cat([s.echunk(arr, i), lit('\n'), arr[i]])))
    s.echunk = RecFold('envelope chunk', P.Str, [], P.Str, lambda eng: lit(''), echunk_step)

    def take(eng, a, ch, d, fmt):
        """the account with the envelope of the chunk, if there is one"""
        e = eng.pure_ret(env, [ch, af(a, 'name'), d, fmt], RV)
        return z3.If(trim(eng, ch) == lit(''), a, eng.post_of(adde, 0, [a, get(e, 0, 0)]))

    def acc_step(eng, arr, i, a0, d, fmt):
        prev = s.accbody(arr, i, a0, d, fmt)
        return z3.If(z3.And(i > 0, opens(eng, arr[i])), take(eng, prev, s.echunk(arr, i), d, fmt), prev)
    s.accbody = RecFold('account', P.Str, [s.Ac, I, P.Str], s.Ac, lambda eng, a0, d, fmt: a0, acc_step)

    # how many envelopes were described before a line: none is left out
    filled = lambda eng, arr, i: z3.If(trim(eng, s.echunk(arr, i)) == lit(''), I0, I1)
    s.ecount = RecFold('envelopes described', P.Str, [], I, lambda eng: I0,
                       lambda eng, arr, i: z3.If(z3.And(i > 0, opens(eng, arr[i])), s.ecount(arr, i) + filled(eng, arr, i), s.ecount(arr, i)))
    held = lambda a: P.vparts(af(a, 'expense_envelopes'))[1] + P.vparts(af(a, 'goal_envelopes'))[1]

    def fresh_acc(c, name, real):
        M = c.eng.M if hasattr(c, 'eng') else c.M
        none = M.empty(s.V)
        return P.con(s.Ac, 0, *[{'name': name, 'real_value': real}.get(n, none) for n in P.variants[s.Ac.name()][0][1]])

    def acc_ens(c):
        a = get(c.ret, 0, 0)
        res = [('starts-empty', z3.Implies(ok(c), s.ps(af(a, 'real_value'), c.ghost['SYM']) == 0))]
        if not acc_ready:
            return res
        arr, n = lines(c, c.pre[0])
        w = words(c, rc(c, arr[0]))
        a0 = fresh_acc(c, w[0][1], c.ghost['RV'])
        d, fmt = c.pre[1], c.pre[2]
        res.append(('no-envelope-is-left-out', z3.Implies(ok(c), held(a) == s.ecount(arr, n) + filled(c.eng, arr, n)), ('C06', 'C19', 'C07')))
        return res + [('as-written', z3.Implies(z3.And(ok(c), af(a, 'real_value') == c.ghost['RV']), z3.And(n >= 1, w[1] == 2, a == take(c.eng, s.accbody(arr, n, a0, d, fmt), s.echunk(arr, n), d, fmt))), ('C06', 'C13', 'C19', 'C05'))]

    acc_name = lambda c: words(c, rc(c, lines(c, c.pre[0])[0][0]))[0][1]

    def acc_setup(c):
        if acc_ready:
            arr, n = lines(c, c.pre[0])
            c.eng.touch(c.st, arr, I0, n)

    def acc_inv(L):
        res = [('tinv', lambda st, g=g, fm=fm: fm(g(st))) for (g, old) in L.leaves(s.Ac) for fm in (s.EIall, lambda a: s.both(s.vname, a, L.eng.ctxg['NAME']) <= 1)]
        if not acc_ready:
            return res
        c = L.eng.ctx0
        name, RV = acc_name(c), L.eng.ctxg['RV']
        for (gi, it) in L.seqs(P.Str):
            pos, a = (lambda st, gi=gi: gi(st).f[1]), it.f[0]
            res += [('envelopes so far', lambda st, g=g, a=a, pos=pos: z3.Implies(af(g(st), 'real_value') == RV, g(st) == s.accbody(a, pos(st), fresh_acc(L.eng, name, RV), c.pre[1], c.pre[2]))) for (g, old) in L.leaves(s.Ac)]
            res += [('as many envelopes', lambda st, g=g, a=a, pos=pos: held(g(st)) == s.ecount(a, pos(st))) for (g, old) in L.leaves(s.Ac)]
            res += [('lines of this envelope', lambda st, g=g, a=a, pos=pos: g(st) == s.echunk(a, pos(st))) for (g, old) in L.leaves(P.Str)]
        return res
    s.add('account::Account::parse', ghosts={'NAME': P.Str, 'SYM': s.Sym, 'RV': s.Pool}, opts={'text': lambda c: [(s.echunk, ()), (s.ecount, ()), (s.accbody, (fresh_acc(c, acc_name(c), c.eng.ctxg['RV']), c.pre[1], c.pre[2]))] if acc_ready else ()}, folds=lambda c: [(s.vname, (c.ghost['NAME'],)), (s.nbadv, ()), (s.psum, (c.ghost['SYM'],))],
          inv=acc_inv, setup=acc_setup, ensures=acc_ens, props=('C06', 'C19'))


def amount_text(s):
    """C14: which characters of an amount make up its number, and which its currency"""
    P = s.P
    digit = lambda x: z3.And(x >= 48, x <= 57)
    num = lambda x, d: z3.Or(digit(x), x == d, x == ord('-'))
    cur = lambda x, d: z3.And(z3.Not(num(x, d)), x != ord('.'), x != ord(','))
    s.numtext = TextFold('number', s.I, [s.I], P.Str, lambda x, i, d: num(x, d))
    # (the same with a point for the decimal sign)
    s.dottext = TextFold('dotted', s.I, [s.I], P.Str, lambda x, i, d: num(x, d), image=lambda x, d: z3.If(x == d, z3.IntVal(46), x))
    s.curtext = TextFold('currency', s.I, [s.I], P.Str, lambda x, i, d: cur(x, d))
    RF = None
    for i, t in P.T.items():
        if t['k'] == 'adt' and t['name'] == 'std::result::Result' and P.t(t['args'][0]).get('n') == 'F64' and P.t(t['args'][1]).get('name') == 'std::num::ParseFloatError':
            RF = P.sort(int(i))
    A = s.sort('amount::Amount')

    def read(c, x, d):
        """(the words, the number text, the currency text) of x"""
        M = c.eng.M
        t = M.uf('replace', [x, P.lit('--'), P.lit('')], P.Str)
        n, arr = M.uf('split_whitespace_n', [t], s.I), M.uf('split_whitespace_arr', [t], z3.ArraySort(s.I, P.Str))
        one = z3.If(n == 1, arr[0], M.uf('join', [arr, n, P.lit(' ')], P.Str))
        ca, cn = M.uf('chars_arr', [one], z3.ArraySort(s.I, s.I)), M.uf('chars_n', [one], s.I)
        nt, dt = s.numtext(ca, cn, d), s.dottext(ca, cn, d)
        # (by induction over the characters: lean/Text.lean)
        (c.st_post if hasattr(c, 'st_post') else c.st).assume(z3.And(M.uf('replace', [nt, d, P.lit('.')], P.Str) == dt, z3.Implies(d == ord('.'), nt == dt)))
        return n, dt, M.uf('trim', [s.curtext(ca, cn, d)], P.Str)

    def ens(c):
        n, nt, ct = read(c, c.pre[0], c.pre[1])
        v = c.eng.M.uf('parse', [nt], RF)
        fits = z3.And(z3.Or(n == 1, n == 2), P.isv(v, 0))
        ok, a = P.isv(c.ret, 0), P.get(c.ret, 0, 0)
        return [('refused-without-a-number', ok == fits),
                ('the-number', z3.Implies(ok, s.mag(a) == P.get(v, 0, 0))),
                ('the-currency', z3.Implies(ok, s.sym(a) == z3.If(ct == P.lit(''), P.none(P.Str), P.some(ct))))]

    def inv(L):
        d = L.eng.ctx0.pre[1]
        return [('kept so far', lambda st, g=g, a=a, pos=pos, F=F: g(st) == F(a, pos(st), d))
                for (g, old) in L.leaves(P.Str) for (a, pos) in L.prefixes(s.I) for F in (s.numtext, s.dottext, s.curtext)]
    s.read_amount = s.add('amount::Amount::parse', pure=True, ensures=ens, inv=inv, props=('C14',), opts={'wording': True, 'text': lambda c: [(F, (c.pre[1],)) for F in (s.numtext, s.dottext, s.curtext)]})


def posting_text(s, rc_of):
    """C14: which words of a line make up the account, the amount and the cost of a posting"""
    P = s.P
    I, I0, I1 = s.I, z3.IntVal(0), z3.IntVal(1)
    some, val = s.some, s.val
    ok = lambda c: P.isv(c.ret, 0)
    out = lambda c: P.get(c.ret, 0, 0)
    dom = lambda x: P.get(x, 0, 0)
    PO, CP = 'posting::', 'posting::ClassicPosting::'
    RA = P.result_sort(S + 'amount::Amount', S + 'errors::ParseError')
    amount_of = lambda c, x, d: c.eng.pure_ret(s.read_amount, [x, d], RA)
    among = lambda w, ws: z3.Or(*[w == P.lit(x) for x in ws])
    SIGNS = ('@', '!', '=', '!!')
    count = lambda nm, ws: Fold(nm, P.Str, [], I, lambda w: z3.If(among(w, ws), I1, I0), nonneg=True)
    s.nsign = count('nsign', SIGNS)

    def upto(F, ws, arr, n, k):
        """k words come before the first of ws"""
        return z3.And(k >= 0, k <= n, F(arr, k) == 0, z3.Or(k == n, among(arr[k], ws)))
    join = lambda c, arr, n: c.eng.M.uf('join', [arr, n, P.lit(' ')], P.Str)
    drop = lambda c, arr, n: c.eng.M.uf('drop', [arr, n], arr.sort())

    def none_before(*Fs):
        return lambda L: [('none so far', lambda st, a=a, pos=pos, F=F: F(a, pos(st)) == 0) for (a, pos) in L.prefixes(P.Str) for F in Fs]

    def words_amount(c, amt, good, arr, n, d, k):
        """the amount read from the words: what comes before the first sign"""
        raw = join(c, arr, k)
        v = amount_of(c, raw, d)
        return z3.Implies(upto(s.nsign, SIGNS, arr, n, k),
                          z3.If(c.eng.M.uf('trim', [raw], P.Str) == P.lit(''), z3.Implies(good, amt == P.none(s.A)), z3.Implies(good, z3.And(P.isv(v, 0), amt == P.some(P.get(v, 0, 0))))))

    def pa_ens(c):
        arr, n = P.vparts(c.pre[1])
        k = c.ghost['K']
        v = amount_of(c, join(c, arr, k), c.pre[2])
        return [('the-amount-written', words_amount(c, P.fld(c.post[0], 'amount'), ok(c), arr, n, c.pre[2], k)),
                ('refused-only-if-unreadable', z3.Implies(z3.And(upto(s.nsign, SIGNS, arr, n, k), P.isv(v, 0)), ok(c)))]

    def touch_k(c):
        arr, n = P.vparts(c.pre[1])
        c.eng.seen_vec(c.st, c.pre[1])
        c.eng.touch(c.st, arr, c.ghost['K'], n)
    s.add(CP + 'parse_amount', modifies={0: ('amount',)}, ghosts={'K': I}, folds=lambda c: [(s.nsign, ())], setup=touch_k, inv=none_before(s.nsign), ensures=pa_ens, props=('C04', 'C14'))

    # ---- the amount after a sign
    def after(name, sign, ends, wrap):
        nsig, nend = count('n' + sign, (sign,)), count('n-' + sign, ends)
        setattr(s, 'nsig' + sign, nsig)
        setattr(s, 'nend' + sign, nend)

        def ens(c):
            arr, n = P.vparts(c.pre[0])
            k, e = c.ghost['K'], c.ghost['E']
            d = drop(c, arr, simp(k + 1))
            v = amount_of(c, join(c, d, e), c.pre[1])
            here = z3.And(upto(nsig, (sign,), arr, n, k), k < n, upto(nend, ends, d, simp(n - (k + 1)), e))
            return [('none-without-the-sign', z3.Implies(upto(nsig, (sign,), arr, n, n), z3.And(ok(c), z3.Not(some(out(c)))))),
                    ('the-amount-after-the-sign', z3.Implies(here, z3.And(ok(c) == P.isv(v, 0), z3.Implies(ok(c), out(c) == P.some(wrap(P.get(v, 0, 0)))))))]

        def setup(c):
            arr, n = P.vparts(c.pre[0])
            k = c.ghost['K']
            c.eng.seen_vec(c.st, c.pre[0])
            c.eng.touch(c.st, arr, k, n)
            d = drop(c, arr, simp(k + 1))
            c.eng.touch(c.st, d, c.ghost['E'], simp(n - (k + 1)))
        return s.add(CP + name, pure=True, ghosts={'K': I, 'E': I}, folds=lambda c: [(nsig, ()), (nend, ())], setup=setup, inv=none_before(nsig, nend), ensures=ens, props=('C14',), opts={'wording': True})
    Co = s.sort('posting::Cost')
    cost = lambda nm: (lambda a: Co.constructor(P.vidx(Co, nm))(a))
    balance = after('parse_balance_assertion_amount', '!', ('!!', '@', '='), lambda a: a)
    price = after('parse_price_amount', '@', ('!', '!!', '='), cost('UnitCost'))
    total = after('parse_total_cost_amount', '=', ('!', '!!', '@'), cost('TotalCost'))
    RO = P.result_of(P.opt(Co), S + 'errors::ParseError')

    def costs(c, post, good, words, d):
        if RO is None or not all((S + CP + x) in P.by_name for x in ('parse_price_amount', 'parse_total_cost_amount')):
            return z3.BoolVal(True)
        p, t = (c.eng.pure_ret(f, [words, d], RO) for f in (price, total))
        return z3.Implies(good, z3.And(P.isv(p, 0), z3.If(some(P.get(p, 0, 0)), post == P.get(p, 0, 0), z3.And(P.isv(t, 0), post == P.get(t, 0, 0)))))
    s.add(CP + 'parse_assertion_amounts', modifies={0: ('balance_assertion', 'cost_assertion')}, props=('C04', 'C14'),
          ensures=lambda c: [('the-cost-written', costs(c, P.fld(c.post[0], 'cost_assertion'), ok(c), c.pre[1], c.pre[2]))])

    # ---- whole postings
    words = lambda c, x: (c.eng.M.uf('split_whitespace_arr', [x], z3.ArraySort(I, P.Str)), c.eng.M.uf('split_whitespace_n', [x], I))

    def classic(c, p, good, x, d, k):
        """p is the classic posting the words of x (a line without its comment) describe"""
        arr, n = words(c, x)
        rest, m = drop(c, arr, I1), simp(n - 1)
        return [('the-account-written', z3.Implies(good, P.fld(p, 'account') == arr[0])),
                ('the-amount-written', words_amount(c, P.fld(p, 'amount'), good, rest, m, d, k)),
                ('the-cost-written', costs(c, P.fld(p, 'cost_assertion'), good, P.mkvec(rest, m), d))]

    def bare(c):
        """there is something to read in the line, comments apart"""
        r = rc_of(c, c.pre[0])
        return [('something-to-read', words(c, r)[1] > 0)]

    def cl_ens(c):
        r = rc_of(c, c.pre[0])
        return [('account-defined', z3.Implies(ok(c), z3.Select(dom(c.pre[2]), P.fld(out(c), 'account'))))] + \
            [(nm, fm, ('C14',)) for (nm, fm) in classic(c, out(c), ok(c), r, c.pre[1], c.ghost['K'])]
    s.add(CP + 'parse', requires=bare, ghosts={'K': I}, ensures=cl_ens, props=('C04',))

    cat = s.cat = TextFold('all', P.Str, [I], P.Str, lambda x, i, lo: i >= lo, lo=lambda lo: lo)

    def envelope(c, p, good, x, d):
        arr, n = words(c, x)
        v = amount_of(c, cat(arr, n, z3.IntVal(3)), d)
        return [('the-account-written', z3.Implies(good, z3.And(n >= 3, P.fld(p, 'account_name') == arr[1]))),
                ('the-envelope-written', z3.Implies(good, P.fld(p, 'envelope_name') == arr[2])),
                ('the-amount-written', z3.Implies(good, z3.And(P.isv(v, 0), P.fld(p, 'amount') == P.get(v, 0, 0))))]
    s.add('posting::EnvelopePosting::parse', props=('C14', 'C07'), ensures=lambda c: envelope(c, out(c), ok(c), c.pre[0], c.pre[1]),
          inv=lambda L: [('all so far', lambda st, g=g, a=a, pos=pos: g(st) == cat(a, pos(st), z3.IntVal(3))) for (g, old) in L.leaves(P.Str) for (a, pos) in L.prefixes(P.Str)],
          opts={'text': lambda c: [(cat, (z3.IntVal(3),))]})

    def po_ens(c):
        r = rc_of(c, c.pre[0])
        arr, n = words(c, r)
        good = ok(c)
        env = z3.And(n > 0, arr[0] == P.lit('envelope'))
        ce = s.is_cl(out(c))
        return [('account-defined', z3.Implies(z3.And(good, ce), z3.Select(dom(c.pre[2]), s.acct(out(c))))),
                ('something-to-read', z3.Implies(good, n > 0)),
                ('of-the-kind-written', z3.Implies(good, ce == z3.Not(env)), ('C14', 'C07', 'C05'))] + \
            [('classic: ' + nm, z3.Implies(ce, fm), ('C14',)) for (nm, fm) in classic(c, P.get(out(c), P.vidx(s.Po, 'Classic'), 0), good, r, c.pre[1], c.ghost['K'])] + \
            [('envelope: ' + nm, z3.Implies(z3.Not(ce), fm), ('C14', 'C07')) for (nm, fm) in envelope(c, P.get(out(c), P.vidx(s.Po, 'Envelope'), 0), good, r, c.pre[1])]
    s.read_posting = s.add(PO + 'Posting::parse', pure=True, ghosts={'K': I}, ensures=po_ens, props=('C04',))


def parse_part(s):
    """reading postings and entries; strings are uninterpreted but for the facts of models.py"""
    P = s.P
    some, val = s.some, s.val
    ok = lambda c: P.isv(c.ret, 0)
    out = lambda c: P.get(c.ret, 0, 0)
    OI = P.opt(s.I)

    # ---- comments
    find = lambda c, x, p: c.eng.M.uf('find', [x, p], OI)
    signs = (P.lit('//'), z3.IntVal(ord(';')))

    def nocomment(c, x):
        return z3.And(*[z3.Not(some(find(c, x, p))) for p in signs])
    s.nocomment = nocomment

    def rc_ens(c):
        x = c.pre[0]
        f1, f2 = (find(c, x, p) for p in signs)
        cut = z3.If(z3.And(some(f1), z3.Or(z3.Not(some(f2)), val(f1) < val(f2))), val(f1), val(f2))
        pre = c.eng.M.uf('substr', [x, z3.IntVal(0), cut], P.Str)
        return [('no-comment-left', nocomment(c, c.ret)), ('all-before-it', z3.If(nocomment(c, x), c.ret == x, c.ret == pre))]
    def rc_of(c, x):
        """remove_comments(x), with what its contract says of it"""
        r = c.eng.M.uf('pure:silverfox::utils::remove_comments', [x], P.Str)
        f1, f2 = (find(c, x, p) for p in signs)
        st = c.st_post if hasattr(c, 'st_post') else c.st
        st.assume(z3.And(nocomment(c, r), z3.Implies(nocomment(c, x), r == x)))
        return r
    s.add('utils::remove_comments', pure=True, ensures=rc_ens, props=('C13',))

    # ---- postings
    Set = P.setsort(P.Str)
    D = Set.accessor(0, 0).range()
    s.nundef = Fold('nundef', s.Po, [D], s.I, lambda p, d: z3.If(z3.And(s.is_cl(p), z3.Not(z3.Select(d, s.acct(p)))), z3.IntVal(1), z3.IntVal(0)), nonneg=True)
    dom = lambda x: P.get(x, 0, 0)
    PO, CP = 'posting::', 'posting::ClassicPosting::'
    s.add(CP + 'validate', ensures=lambda c: [('defined', ok(c) == z3.Select(dom(c.pre[1]), P.fld(c.pre[0], 'account')))], props=('C04',))
    posting_text(s, rc_of)

    # ---- entries
    I, I0, I1 = s.I, z3.IntVal(0), z3.IntVal(1)
    words = lambda c, x: (c.eng.M.uf('split_whitespace_arr', [x], z3.ArraySort(I, P.Str)), c.eng.M.uf('split_whitespace_n', [x], I))
    RD = None
    for i, t in P.T.items():
        if t['k'] == 'adt' and t['name'] == 'std::result::Result' and P.t(t['args'][0]).get('name') == 'chrono::NaiveDate' and P.t(t['args'][1]).get('name') == 'chrono::ParseError':
            RD = P.sort(int(i))
    ES = s.sort('entry::EntryStatus')
    STATUS = {'?': 'Pending', '~': 'Cleared', '*': 'Reconciled'}
    eparts = ('date', 'status', 'description', 'payee', 'comment')

    def header_ens(c):
        M = c.eng.M
        e, good = out(c), ok(c)
        arr, n = words(c, rc_of(c, c.pre[0]))
        res = [('no-postings-yet', z3.Implies(good, P.vparts(s.posts(e))[1] == 0), ('C04',))]
        if RD is None:
            return res
        d = M.uf('parse_date', [arr[0], c.pre[1]], RD)
        D = M.uf('join', [M.uf('drop', [arr, z3.IntVal(2)], arr.sort()), simp(n - 2), P.lit(' ')], P.Str)
        i, j = M.uf('find', [D, z3.IntVal(ord('['))], OI), M.uf('rfind', [D, z3.IntVal(ord(']'))], OI)
        trim = lambda x: M.uf('trim', [x], P.Str)
        sub = lambda a, b: M.uf('substr', [D, a, b], P.Str)
        status = z3.Or(*[arr[1] == P.lit(w) for w in STATUS])
        closed = z3.And(some(j), val(j) > val(i))
        return res + [
            ('refused-only-if-malformed', good == z3.And(n >= 2, P.isv(d, 0), status, z3.Or(z3.Not(some(i)), closed)), ('C13', 'C15')),
            ('the-date-written', z3.Implies(good, P.fld(e, 'date') == P.get(d, 0, 0)), ('C15', 'C16')),
            ('the-status-written', z3.Implies(good, z3.And(*[z3.Implies(arr[1] == P.lit(w), P.isv(P.fld(e, 'status'), P.vidx(ES, v))) for w, v in STATUS.items()])), ('C15',)),
            ('the-description-written', z3.Implies(good, P.fld(e, 'description') == z3.If(some(i), trim(sub(I0, val(i))), D)), ('C15', 'C16')),
            ('the-payee-written', z3.Implies(good, P.fld(e, 'payee') == z3.If(some(i), P.some(trim(sub(simp(val(i) + 1), val(j)))), P.none(P.Str))), ('C15', 'C16')),
            ('no-comment', z3.Implies(good, P.fld(e, 'comment') == P.none(P.Str)), ('C15',))]
    header = s.add('entry::Entry::parse_header', pure=True, ensures=header_ens, props=('C04',))
    RH = P.result_of(s.E, S + 'errors::ParseError')
    RP = P.result_of(s.Po, S + 'errors::SilverfoxError')
    trimmed = z3.Function('trim:Str', P.Str, P.Str)
    s.nfull = Fold('nfull', P.Str, [], I, lambda l: z3.If(trimmed(l) == P.lit(''), I0, I1), nonneg=True)

    def body(c):
        t = c.eng.M.uf('trim', [c.pre[0]], P.Str)
        return c.eng.M.uf('lines_arr', [t], z3.ArraySort(I, P.Str)), c.eng.M.uf('lines_n', [t], I)

    def posting_of(eng, l, c):
        return eng.pure_ret(s.read_posting, [l, c.pre[2], c.pre[3]], RP)

    def same_posting(eng, c, vec, arr, pos, J):
        """the line J (not the first) is one of the postings, if it is not blank"""
        a, n = P.vparts(vec)
        r = posting_of(eng, arr[J], c)
        return z3.And(n == s.nfull(arr, pos) - s.nfull(arr, I1),
                      z3.Implies(z3.And(J >= 1, J < pos, trimmed(arr[J]) != P.lit('')), z3.And(P.isv(r, 0), a[simp(s.nfull(arr, J) - s.nfull(arr, I1))] == P.get(r, 0, 0))))

    def parse_ens(c):
        e, y = out(c), c.ghost['SYM']
        nb = s.F(s.nblank, e)
        tot = s.F(s.csum, e, y)
        mabs = z3.If(tot >= 0, tot, -tot)
        res = [('accounts-defined', z3.Implies(ok(c), s.F(s.nundef, e, dom(c.pre[3])) == 0)),
               ('one-blank', z3.Implies(ok(c), nb <= 1)),
               ('balanced', z3.Implies(z3.And(ok(c), nb == 0, s.single(e, y)), mabs <= z3.RealVal('1/1000000') * (1 + s.F(s.cabs, e))))]
        if RH is None or RP is None:
            return res
        arr, n = body(c)
        h = c.eng.pure_ret(header, [arr[0], c.pre[1]], RH)
        return res + [
            ('the-header-written', z3.Implies(ok(c), z3.And(P.isv(h, 0), *[P.fld(e, f) == P.fld(P.get(h, 0, 0), f) for f in eparts])), ('C13', 'C15')),
            ('a-posting-for-each-line', z3.Implies(ok(c), same_posting(c.eng, c, s.posts(e), arr, n, c.ghost['J'])), ('C05', 'C13', 'C15'))]

    def parse_setup(c):
        if RH is None or RP is None:
            return
        arr, n = body(c)
        for k in (I0, c.ghost['J']):
            c.eng.touch(c.st, arr, k, n)

    def parse_inv(L):
        d = dom(L.eng.ctx0.pre[3])
        res = [('accounts defined so far', lambda st, g=g: s.F(s.nundef, g(st), d) == 0) for (g, old) in L.leaves(s.E)] + \
              [('accounts defined so far', lambda st, g=g: s.nundef.of(P, g(st), d) == 0) for (g, old) in L.leaves(P.vec(s.Po))]
        if RH is None or RP is None:
            return res
        J = L.eng.ctxg['J']
        for (g, of) in [(g, s.posts) for (g, old) in L.leaves(s.E)] + [(g, lambda x: x) for (g, old) in L.leaves(P.vec(s.Po))]:
            for (gi, it) in L.seqs(P.Str):
                res.append(('postings so far', lambda st, g=g, of=of, gi=gi, it=it: same_posting(L.eng, L.eng.ctx0, of(g(st)), it.f[0], gi(st).f[1], J)))
        for (gi, it) in L.seqs(P.Str):
            # (lines that are skipped)
            a, p0 = it.f[0], it.f[1]
            res.append(('nothing but blank lines', lambda st, gi=gi, a=a, p0=p0: z3.And(s.nfull(a, gi(st).f[1]) == s.nfull(a, p0), z3.Implies(z3.And(J >= p0, J < gi(st).f[1]), trimmed(a[J]) == P.lit('')))))
        for (g, old) in L.leaves(s.E):
            for f in eparts:
                res.append(('header kept', lambda st, g=g, old=old, f=f: P.fld(g(st), f) == P.fld(old, f)))
        return res
    s.add('entry::Entry::parse', ghosts={'SYM': s.Sym, 'J': I}, setup=parse_setup, inv=parse_inv, folds=lambda c: [(s.nfull, ()), (s.nundef, (dom(c.pre[3]),)), (s.nblank, ()), (s.ncam, ()), (s.cabs, ()), (s.ndiff, (c.ghost['SYM'],)), (s.csum, (c.ghost['SYM'],))],
          ensures=parse_ens, props=('C04',))


def register_part(s):
    """C16"""
    P = s.P
    I, R = s.I, s.R
    R0, I0, I1 = z3.RealVal(0), z3.IntVal(0), z3.IntVal(1)
    ok = lambda c: P.isv(c.ret, 0)
    OS = P.opt(P.Str)
    RD = s.sort('entry::EntryRegisterData')
    s.RD = RD
    # is the account one of those the register is about?
    cont, starts = (z3.Function('%s:Str/Str' % n, P.Str, P.Str, z3.BoolSort()) for n in ('contains', 'starts_with'))
    foc = lambda a, m: z3.If(s.some(m), cont(a, s.val(m)), starts(a, P.lit('asset')))
    hit = lambda p, m: z3.And(s.is_cl(p), foc(s.acct(p), m))
    am = s.amt
    s.rsum = Fold('rsum', s.Po, [OS, s.Sym, s.A], R, lambda p, m, y, b: z3.If(z3.And(hit(p, m), s.sym(am(p, b)) == y), s.mag(am(p, b)), R0))

    def reg_ens(c):
        e, m, y = c.pre[0], c.pre[2], c.ghost['SYM']
        tot = s.F(s.rsum, e, m, y, s.blankamt(e))
        o = P.get(c.ret, 0, 0)
        d = s.val(o)
        return [('amounts', z3.Implies(z3.And(ok(c), s.some(o)), s.ps(P.fld(d, 'amounts'), y) == tot)),
                ('left-out', z3.Implies(z3.And(ok(c), z3.Not(s.some(o))), tot == 0)),
                ('listed', z3.Implies(z3.And(ok(c), tot != 0), s.some(o))),
                ('something-listed', z3.Implies(z3.And(ok(c), s.some(o)), P.vparts(s.poolv(P.fld(d, 'amounts')))[1] > 0), ('C18',)),
                ('no-error', z3.Implies(z3.Or(s.F(s.nblank, e) == 0, s.blankok(e)), ok(c)), ('C18',))]

    def reg_inv(L):
        c = L.eng.ctx0
        e, m, y = c.pre[0], c.pre[2], L.eng.ctxg['SYM']
        out = []
        for (g, p0) in L.leaves(s.Pool):
            for (gi, it) in L.seqs(s.Po):
                out.append(('sum so far', lambda st, g=g, gi=gi, it=it: s.ps(g(st), y) == s.rsum(it.f[0], gi(st).f[1], m, y, s.blankamt(e))))
        return out
    s.add('entry::Entry::as_register_data', ghosts={'SYM': s.Sym}, inv=reg_inv, ensures=reg_ens, props=('C16',),
          folds=lambda c: [(s.psum, (c.ghost['SYM'],)), (s.pcnt, (c.ghost['SYM'],)), (s.pnz, ()), (s.nblank, ()), (s.rsum, (c.pre[2], c.ghost['SYM'], s.blankamt(c.pre[0])))])

    # ---- the lines of the register
    s.rall = Fold('rall', s.E, [OS, s.Sym], R, lambda e, m, y: s.F(s.rsum, e, m, y, s.blankamt(e)))
    s.dall = Fold('dall', RD, [s.Sym], R, lambda d, y: s.ps(P.fld(d, 'amounts'), y))
    s.dempty = Fold('dempty', RD, [], I, lambda d: z3.If(P.vparts(s.poolv(P.fld(d, 'amounts')))[1] == 0, I1, I0), nonneg=True)

    def lines_ens(c):
        es, m, y = c.pre[0], c.pre[2], c.ghost['SYM']
        return [('all-entries', z3.Implies(ok(c), s.dall.of(P, c.post[3], y) == s.dall.of(P, c.pre[3], y) + s.rall.of(P, es, m, y)), ('C16',)),
                ('no-error', z3.Implies(s.gbad.of(P, es) == 0, ok(c)), ('C18',))]

    def lines_inv(L):
        c = L.eng.ctx0
        m, y = c.pre[2], L.eng.ctxg['SYM']
        out = []
        for (gi, it) in L.seqs(s.E):
            pos = lambda st, gi=gi: gi(st).f[1]
            for (g, v0) in L.leaves(P.vec(RD)):
                out.append(('lines so far', lambda st, g=g, v0=v0, it=it, pos=pos: s.dall.of(P, g(st), y) == s.dall.of(P, v0, y) + s.rall(it.f[0], pos(st), m, y)))
            for (g, p0) in L.leaves(s.Pool):
                out.append(('running total', lambda st, g=g, it=it, pos=pos: s.ps(g(st), y) == s.rall(it.f[0], pos(st), m, y)))
        return out
    s.add('ledger::register::get_maximum_lengths', ghosts={'SYM': s.Sym}, inv=lines_inv, ensures=lines_ens, props=('C16',),
          folds=lambda c: [(s.psum, (c.ghost['SYM'],)), (s.pcnt, (c.ghost['SYM'],)), (s.rall, (c.pre[2], c.ghost['SYM'])), (s.dall, (c.ghost['SYM'],)), (s.gbad, ()), (s.nblank, ())])
    # the running total shown is that of the lines so far
    def shown(eng, st, call):
        out = []
        y = eng.ctxg['SYM']
        for cell, v in st.heap.items():
            its = []
            eng.iters(v, its)
            for (path, it) in its:
                if it.k == 'seq' and is_z3(it.f[0]) and it.f[0].sort().range().eq(RD):
                    out.append((z3.is_int_value(it.f[1]), s.ps(call.pre[0], y) == s.dall(it.f[0], it.f[1], y)))
        # (a moved-from copy of the iterator, not yet advanced, may still be about)
        return [('running-total', z3.Or(*[o for (z, o) in out if not z]), ('C16',))] if not all(z for (z, o) in out) else []

    def print_inv(L):
        y = L.eng.ctxg['SYM']
        return [('running total', lambda st, g=g, gi=gi, it=it: s.ps(g(st), y) == s.dall(it.f[0], gi(st).f[1], y)) for (g, p0) in L.leaves(s.Pool) for (gi, it) in L.seqs(RD)]
    s.add('ledger::register::print_lines', ghosts={'SYM': s.Sym}, inv=print_inv, folds=lambda c: [(s.psum, (c.ghost['SYM'],)), (s.pcnt, (c.ghost['SYM'],)), (s.dall, (c.ghost['SYM'],))],
          props=('C16',), opts={'at_call': {S + 'amount::AmountPool::only': shown}})

    # ---- which entries: all that post to such an account, within the dates asked for
    OD = P.opt(I)
    inrange = lambda e, b, f: z3.And(z3.Implies(s.some(b), P.fld(e, 'date') >= s.val(b)), z3.Implies(s.some(f), P.fld(e, 'date') <= s.val(f)))
    s.rin = Fold('rin', s.E, [OS, s.Sym, OD, OD], R, lambda e, m, y, b, f: z3.If(inrange(e, b, f), s.F(s.rsum, e, m, y, s.blankamt(e)), R0))
    s.nfoc = Fold('nfoc', s.Po, [OS], I, lambda p, m: z3.If(foc(s.acct(p), m), I1, I0), nonneg=True)
    s.doms.append(Dom('no focused account, no money', (s.rsum, s.nfoc), lambda f, p: z3.Implies(p[0][0] == p[1][0], z3.And(f[1] >= 0, z3.Implies(f[1] == 0, f[0] == 0)))))

    def listed(eng, st, call):
        c = eng.ctx0
        y, b, f, m = eng.ctxg['SYM'], c.pre[2], c.pre[3], c.pre[4]
        return [('entries', s.rall.of(P, call.pre[0], m, y) == s.rin.of(P, c.pre[0], m, y, b, f), ('C16',)),
                ('account-match', call.pre[2] == m, ('C16',)), ('date-format', call.pre[1] == c.pre[1], ('C16',))]

    def disp_inv(L):
        c = L.eng.ctx0
        y, b, f, m = L.eng.ctxg['SYM'], c.pre[2], c.pre[3], c.pre[4]
        out = []
        for (gi, it) in L.seqs(s.E):
            for (g, v0) in L.leaves(P.vec(s.E)):
                out.append(('entries so far', lambda st, g=g, gi=gi, it=it: s.rall.of(P, g(st), m, y) == s.rin(it.f[0], gi(st).f[1], m, y, b, f)))
                out.append(('none wrong so far', lambda st, g=g, gi=gi, it=it: s.gbad.of(P, g(st)) <= s.gbad(it.f[0], gi(st).f[1])))
        for (gi, it) in L.seqs(s.Po):
            out.append(('none focused so far', lambda st, gi=gi, it=it: s.nfoc(it.f[0], gi(st).f[1], m) == 0))
        return out
    s.add('ledger::register::Register::display', ghosts={'SYM': s.Sym}, inv=disp_inv, props=('C16',),
          folds=lambda c: [(s.rall, (c.pre[4], c.ghost['SYM'])), (s.rin, (c.pre[4], c.ghost['SYM'], c.pre[2], c.pre[3])), (s.nfoc, (c.pre[4],)), (s.gbad, ())],
          opts={'at_call': {S + 'ledger::register::get_maximum_lengths': listed},
                'on_touch': {s.E.name(): lambda eng, e: [(s.rsum, (eng.ctx0.pre[4], eng.ctxg['SYM'], s.blankamt(e)))]}})
    reg_call = lambda eng, st, call: [('all-entries', call.pre[0] == s.lf(eng.ctx0.pre[0], 'entries'), ('C16',))]
    s.add('ledger::Ledger::display_register', props=('C16',), opts={'at_call': {S + 'ledger::register::Register::display': reg_call}})


def from_file(s, eng, st, pairs, props):
    """the texts are those read from the files"""
    P = s.P
    reads = st.known.get('reads', ())
    if not reads or not all(is_z3(x) and x.sort().eq(P.Str) for p in pairs for x in p):
        return []
    return [('what the file says', z3.Or(*[z3.And(p == path, P.isv(r, 0), text == P.get(r, 0, 0)) for (p, r) in reads]), props) for (text, path) in pairs]


def rules_text(s):
    """C17: what each line of a rules file says"""
    P = s.P
    I, fld = s.I, P.fld
    RU = 'importer::Rules::'
    Rules = s.sort('importer::Rules')
    some, val = s.some, s.val
    ok = lambda c: P.isv(c.ret, 0)
    r0 = z3.Const('r0', Rules)
    SubE = P.vparts(fld(r0, 'subrules'))[0].sort().range()
    L = P.lit
    ISW = z3.Function('is_whitespace:Int', I, z3.BoolSort())
    blocks = lambda r: P.vparts(fld(r, 'subrules'))
    con = lambda srt, **f: P.con(srt, 0, *[f[n] for n in P.variants[srt.name()][0][1]])

    def kept(c, r, q):
        """conditional blocks are only ever added, behind the others"""
        (a, n), (b, m) = blocks(r), blocks(q)
        K = c.ghost['K']
        return [('blocks-stay-in-order', z3.And(m >= n, z3.Implies(z3.And(K >= 0, K < n), b[K] == a[K])))]

    def kept_inv(V):
        K, r = V.eng.ctxg['K'], V.eng.ctx0.pre[0]
        a, n = blocks(r)
        return [('blocks so far', lambda st, g=g: z3.And(blocks(g(st))[1] >= n, z3.Implies(z3.And(K >= 0, K < n), blocks(g(st))[0][K] == a[K]))) for (g, old) in V.leaves(Rules)]
    s.add(RU + 'add_from_file', props=('C17',), opts={'wording': True, 'at_call': {S + RU + 'add_from_str': lambda eng, st, call: from_file(s, eng, st, [(call.pre[1], eng.ctx0.pre[1])], ('C17',))}}, ghosts={'K': I}, inv=kept_inv, ensures=lambda c: kept(c, c.pre[0], c.post[0]))

    DEF = dict(comment='', date_format='%Y/%m/%d', date_str='%date%', description='%description%', payee='', status='~')
    NAMES = dict(comment=('comment', 'note'), date_format=('date_format',), date_str=('date',), description=('description',), payee=('payee',), status=('status',))

    def defaults(r):
        return z3.And(*[fld(r, f) == L(x) for f, x in DEF.items()], fld(r, 'decimal_symbol') == ord('.'), fld(r, 'skip') == 1, blocks(r)[1] == 0,
                      P.vparts(fld(r, 'fields'))[1] == 0, P.get(fld(r, 'accounts'), 0, 2) == 0, P.get(fld(r, 'amount_strs'), 0, 2) == 0)
    s.add('<@importer::Rules as std::default::Default>::default', props=('C17',), opts={'wording': True}, ensures=lambda c: [('defaults', defaults(c.ret))])
    s.add(RU + 'from_str', props=('C17',), opts={'at_call': {S + RU + 'add_from_str': lambda eng, st, call: [('from-the-defaults', defaults(call.pre[0]), ('C17',)), ('the-whole-text', call.pre[1] == eng.ctx0.pre[0], ('C17',))]}})
    s.add('<@importer::Subrules as std::convert::From<&@importer::Rules>>::from', props=('C17',), opts={'wording': True},
          ensures=lambda c: [('the-rules-so-far', c.ret == con(s.sort('importer::Subrules'), patterns=c.eng.M.empty(P.Str), rules=c.pre[0]))])

    # ---- one line
    def line_ens(c):
        M = c.eng.M
        r, q = c.pre[0], c.post[0]
        t = M.uf('trim_start', [c.pre[1]], P.Str)
        isw = M.charpat_of(lambda x: ISW(x))
        OP = P.pair_opt()
        so = M.uf('split_once', [t, isw], OP)
        pair = P.get(so, 1, 0)
        name, rest = P.get(pair, 0, 0), P.get(pair, 0, 1)
        v = M.uf('trim_start', [rest], P.Str)
        reset = M.uf('trim', [v], P.Str) == L('-')
        has = P.isv(so, 1)
        inc = z3.Or(name == L('include'), name == L('use'))
        good = z3.And(ok(c), z3.Not(inc))
        out = [('a-rule-has-a-value', z3.Implies(ok(c), has)),
               ('no-blocks-within-blocks', z3.Implies(z3.And(has, name == L('if')), z3.Not(ok(c))))]
        isn = lambda *ns: z3.Or(*[name == L(x) for x in ns])
        for f, ns in NAMES.items():
            out.append(('the ' + f, z3.Implies(good, fld(q, f) == z3.If(isn(*ns), z3.If(reset, L(DEF[f]), v), fld(r, f)))))
        ca, cn = M.uf('chars_arr', [v], z3.ArraySort(I, I)), M.uf('chars_n', [v], I)
        dec = isn('decimal_symbol', 'decimal')
        out.append(('the decimal sign', z3.Implies(good, z3.If(dec, z3.If(reset, fld(q, 'decimal_symbol') == ord('.'), z3.And(cn == 1, fld(q, 'decimal_symbol') == ca[0])),
                                                               fld(q, 'decimal_symbol') == fld(r, 'decimal_symbol')))))
        RI = P.result_int('I32')
        if RI is not None:
            n = M.uf('parse', [v], RI)
            out.append(('the lines to skip', z3.Implies(good, z3.If(isn('skip'), z3.If(reset, fld(q, 'skip') == 1, z3.And(P.isv(n, 0), fld(q, 'skip') == P.get(n, 0, 0))), fld(q, 'skip') == fld(r, 'skip')))))
        # fields
        (fa, fn), (ga, gn) = P.vparts(fld(r, 'fields')), P.vparts(fld(q, 'fields'))
        sa, sn = M.uf('split_arr', [v, z3.IntVal(ord(','))], z3.ArraySort(I, P.Str)), M.uf('split_n', [v, z3.IntVal(ord(','))], I)
        J = c.ghost['J']
        isf = isn('fields')
        out.append(('the fields', z3.Implies(good, z3.And(gn == z3.If(isf, fn + sn, fn), z3.Implies(z3.And(J >= 0, J < fn), ga[J] == fa[J]),
                                                          z3.Implies(z3.And(isf, J >= fn, J < gn), ga[J] == M.uf('trim', [sa[J - fn]], P.Str))))))
        out.append(('fields-cannot-be-discarded', z3.Implies(z3.And(has, isf, reset), z3.Not(ok(c)))))
        # accounts and amounts
        N = c.ghost['NAME']
        known = z3.Or(*[isn(*ns) for ns in NAMES.values()], dec, isn('skip', 'fields', 'if', 'include', 'use'))
        OS = P.opt(P.Str)
        strip = lambda w: M.uf('strip_prefix', [name, L(w)], OS)
        am, ac = strip('amount'), strip('account')
        isam = z3.And(z3.Not(known), some(am))
        isac = z3.And(z3.Not(known), z3.Not(some(am)), some(ac))
        for (f, here, key) in (('amount_strs', isam, val(am)), ('accounts', isac, val(ac))):
            d0, v0, d1, v1 = (P.get(fld(x, f), 0, k) for x in (r, q) for k in (0, 1))
            mine = z3.And(here, key == N)
            out.append(('the ' + f, z3.Implies(good, z3.If(mine, z3.And(z3.Select(d1, N) == z3.Not(reset), z3.Implies(z3.Not(reset), z3.Select(v1, N) == v)),
                                                           z3.And(z3.Select(d1, N) == z3.Select(d0, N), z3.Implies(z3.Select(d0, N), z3.Select(v1, N) == z3.Select(v0, N)))))))
        out.append(('unknown-rules-are-refused', z3.Implies(z3.And(has, z3.Not(known), z3.Not(some(am)), z3.Not(some(ac))), z3.Not(ok(c)))))
        return out + kept(c, r, q)

    def line_inv(V):
        J, r = V.eng.ctxg['J'], V.eng.ctx0.pre[0]
        fa, fn = P.vparts(fld(r, 'fields'))
        M = V.eng.M
        out = []
        FV = fld(r, 'fields').sort()
        leaves = [(g, lambda x: x) for (g, o) in V.leaves(FV)] + [(g, lambda x: fld(x, 'fields')) for (g, o) in V.leaves(Rules)]
        for (g, of) in leaves:
            for (gi, it) in V.seqs(P.Str):
                pos = lambda st, gi=gi: gi(st).f[1]
                out.append(('fields so far', lambda st, g=g, of=of, pos=pos, it=it: z3.And(P.vparts(of(g(st)))[1] == fn + pos(st),
                            z3.Implies(z3.And(J >= 0, J < fn), P.vparts(of(g(st)))[0][J] == fa[J]),
                            z3.Implies(z3.And(J >= fn, J < fn + pos(st)), P.vparts(of(g(st)))[0][J] == M.uf('trim', [it.f[0][J - fn]], P.Str)))))
        return out
    addl = s.add(RU + 'add_from_line', props=('C17',), opts={'wording': True, 'function': True}, ghosts={'K': I, 'J': I, 'NAME': P.Str}, inv=both(kept_inv, line_inv), ensures=line_ens)

    # ---- all lines: rules, and blocks of rules under conditions
    Sub = s.sort('importer::Subrules')
    OSub = P.opt(Sub)
    starts = z3.Function('starts_with:Str/Str', P.Str, P.Str, z3.BoolSort())
    upd = lambda v, **f: con(v.sort(), **dict({n: fld(v, n) for n in P.variants[v.sort().name()][0][1]}, **f))

    def push(v, x):
        a, n = P.vparts(v)
        return P.mkvec(z3.Store(a, n, x), n + 1)

    def seen(eng, arr, i, r0):
        """(the line, is it blank, is it indented, does it begin a block, is a block open, does it end it, the rules before it, the block)"""
        M = eng.M
        l = M.uf('pure:silverfox::utils::remove_comments', [arr[i]], P.Str)
        blank = M.uf('trim', [l], P.Str) == L('')
        ind = ISW(M.uf('chars_arr', [l], z3.ArraySort(I, I))[0])
        R, B, F = s.rrules(arr, i, r0), s.rblock(arr, i, r0), s.rflag(arr, i, r0)
        ends = z3.And(some(B), F, z3.Not(ind))
        return l, blank, ind, starts(l, L('if')), B, ends, z3.If(ends, upd(R, subrules=push(fld(R, 'subrules'), val(B))), R), F

    def rrules_step(eng, arr, i, r0):
        l, blank, ind, begins, B, ends, R, F = seen(eng, arr, i, r0)
        root = z3.Or(z3.Not(some(B)), ends)
        return z3.If(blank, s.rrules(arr, i, r0), z3.If(z3.And(root, z3.Not(begins)), eng.post_of(addl, 0, [R, l]), R))

    def rblock_step(eng, arr, i, r0):
        M = eng.M
        l, blank, ind, begins, B, ends, R, F = seen(eng, arr, i, r0)
        so = M.uf('split_once', [l, M.charpat_of(lambda x: ISW(x))], P.pair_opt())
        none = M.empty(P.Str)
        pats = z3.If(P.isv(so, 1), push(none, P.get(P.get(so, 1, 0), 0, 1)), none)
        opened = z3.If(begins, P.some(con(Sub, patterns=pats, rules=R)), P.none(Sub))
        b = val(B)
        more = P.some(z3.If(ind, upd(b, rules=eng.post_of(addl, 0, [fld(b, 'rules'), l])), upd(b, patterns=push(fld(b, 'patterns'), l))))
        return z3.If(blank, B, z3.If(z3.Or(z3.Not(some(B)), ends), opened, more))

    def rflag_step(eng, arr, i, r0):
        l, blank, ind, begins, B, ends, R, F = seen(eng, arr, i, r0)
        return z3.If(blank, F, z3.If(some(B), ind, F))
    s.rrules = RecFold('rules', P.Str, [Rules], Rules, lambda eng, r0: r0, rrules_step)
    s.rblock = RecFold('block', P.Str, [Rules], OSub, lambda eng, r0: P.none(Sub), rblock_step)
    s.rflag = RecFold('block has rules', P.Str, [Rules], z3.BoolSort(), lambda eng, r0: z3.BoolVal(False), rflag_step)

    RSE = P.result_unit('silverfox::errors::SilverfoxError')

    def taken(eng, arr, i, r0):
        """the rule of the line was understood, if it has one"""
        l, blank, ind, begins, B, ends, R, F = seen(eng, arr, i, r0)
        fine = lambda r: P.isv(eng.pure_ret(addl, [r, l], RSE), 0)
        root = z3.Or(z3.Not(some(B)), ends)
        return z3.Or(blank, z3.And(z3.Implies(z3.And(root, z3.Not(begins)), fine(R)), z3.Implies(z3.And(z3.Not(root), ind), fine(fld(val(B), 'rules')))))

    def rules_ens(c):
        M = c.eng.M
        r = c.pre[0]
        arr, n = M.uf('lines_arr', [c.pre[1]], z3.ArraySort(I, P.Str)), M.uf('lines_n', [c.pre[1]], I)
        R, B = s.rrules(arr, n, r), s.rblock(arr, n, r)
        J = c.ghost['J']
        res = [('wrong-rules-are-refused', z3.Implies(z3.And(ok(c), J >= 0, J < n), taken(c.eng, arr, J, r)))] if RSE is not None else []
        return res + kept(c, r, c.post[0]) + [('blocks-as-written', z3.Implies(ok(c), c.post[0] == z3.If(some(B), upd(R, subrules=push(fld(R, 'subrules'), val(B))), R)))]

    def rules_inv(V):
        r = V.eng.ctx0.pre[0]
        out = []
        arr = V.eng.M.uf('lines_arr', [V.eng.ctx0.pre[1]], z3.ArraySort(I, P.Str))
        for (a, pos) in V.prefixes(P.Str):
            if not a.eq(arr):
                continue
            for (F, srt) in ((s.rrules, Rules), (s.rblock, OSub), (s.rflag, z3.BoolSort())):
                out += [('rules so far', lambda st, g=g, a=a, pos=pos, F=F: g(st) == F(a, pos(st), r)) for (g, old) in V.leaves(srt)]
            out.append(('no rules of no block', lambda st, a=a, pos=pos: z3.Implies(s.rflag(a, pos(st), r), some(s.rblock(a, pos(st), r)))))
            if RSE is not None:
                J = V.eng.ctxg['J']
                out.append(('no rule was wrong', lambda st, a=a, pos=pos: z3.Implies(z3.And(J >= 0, J < pos(st)), taken(V.eng, a, J, r))))
        return out
    s.add(RU + 'add_from_str', props=('C17',), opts={'wording': True, 'text': lambda c: [(F, (c.pre[0],)) for F in (s.rrules, s.rblock, s.rflag)]}, ghosts={'K': I, 'J': I}, inv=both(kept_inv, rules_inv), ensures=rules_ens)

    # ---- does a block apply?
    Rec = P.sort_named('csv::StringRecord')
    low, has = z3.Function('to_lowercase:Str', P.Str, P.Str), z3.Function('contains:Str/Str', P.Str, P.Str, z3.BoolSort())
    text = z3.Function('record_text:%s' % Rec, Rec, P.Str)
    s.npat = Fold('npat', P.Str, [Rec], I, lambda p, rec: z3.If(has(low(text(rec)), low(p)), z3.IntVal(1), z3.IntVal(0)), nonneg=True)


def selected(t, srt):
    """the indices of the sort at which arrays are read in the term"""
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_SELECT and x.arg(1).sort().eq(srt) and not any(x.arg(1).eq(y) for y in out):
                out.append(x.arg(1))
            todo += list(x.children())
    return out


def import_part(s):
    """C17"""
    P = s.P
    I, I0, I1 = s.I, z3.IntVal(0), z3.IntVal(1)
    RU = 'importer::Rules::'
    Rules, Sub, Imp = s.sort('importer::Rules'), s.sort('importer::Subrules'), s.sort('importer::CsvImporter')
    fld = P.fld
    ok = lambda c: P.isv(c.ret, 0)
    here = lambda n: (S + n) in P.by_name
    rules_text(s)
    SM = fld(z3.Const('r0', Rules), 'accounts').sort()

    def var_step(eng, arr, i, x, m):
        return eng.M.uf('replace', [s.varsub(arr, i, x, m), eng.M.cat([P.lit('%'), arr[i], P.lit('%')]), z3.Select(P.get(m, 0, 1), arr[i])], P.Str)
    s.varsub = RecFold('variables', P.Str, [P.Str, SM], P.Str, lambda eng, x, m: x, var_step)

    def inj_ens(c):
        M, m = c.eng.M, c.pre[1]
        if not m.sort().eq(SM):
            return []
        t = s.varsub(M.uf('map_keys', [m], z3.ArraySort(I, P.Str)), P.get(m, 0, 2), c.pre[0], m)
        return [('every-variable', c.ret == M.uf('replace', [t, P.lit('%%'), P.lit('%')], P.Str))]

    def inj_inv(L):
        x, m = L.eng.ctx0.pre[0], L.eng.ctx0.pre[1]
        return [('variables so far', lambda st, g=g, a=a, pos=pos: g(st) == s.varsub(a, pos(st), x, m)) for (a, pos) in L.prefixes(P.Str) for (g, old) in L.leaves(P.Str)]
    inject = s.add(RU + 'inject_variables', props=('C17',), pure=True, inv=inj_inv, ensures=inj_ens,
                   opts={'maporder': True, 'wording': True, 'witness': (1,), 'text': lambda c: [(s.varsub, (c.pre[0], c.pre[1]))] if c.pre[1].sort().eq(SM) else ()})
    applies = s.add('importer::Subrules::applies_to', props=('C17',), pure=True, folds=lambda c: [(s.npat, (c.pre[1],))],
                    ensures=lambda c: [('one-of-its-patterns', c.ret == (s.npat.of(P, fld(c.pre[0], 'patterns'), c.pre[1]) > 0))])
    named = here(RU + 'inject_variables'), here('importer::Subrules::applies_to')
    Rec = P.sort_named('csv::StringRecord')
    app = lambda r, rec: z3.Function('pure:%s:%s/%s' % (applies.name, Sub, Rec), Sub, Rec, z3.BoolSort())(r, rec)
    SubE = P.vparts(fld(z3.Const('r0', Rules), 'subrules'))[0].sort().range()      # (Rules is a recursive type)
    s.napp = Fold('napp', SubE, [Rec], I, lambda r, rec: z3.If(app(P.unroll(r), rec), I1, I0), nonneg=True)
    inj = lambda x, v: z3.Function('pure:%s:%s/%s' % (inject.name, P.Str, v.sort()), P.Str, v.sort(), P.Str)(x, v)
    SMap = fld(z3.Const('r0', Rules), 'accounts').sort()
    own = lambda c, r, rec, accts: c.eng.pure_ret(getter, [r, rec, accts], c.ret.sort())
    trim = z3.Function('trim:Str', P.Str, P.Str)
    isclassic = s.is_cl

    def get_ens(c):
        r, rec, accts, K = c.pre[0], c.pre[1], c.pre[2], c.ghost['K']
        out = []
        subs = fld(r, 'subrules')
        arr, n = P.vparts(subs)
        none = z3.BoolVal(True)
        if named[1]:
            none = s.napp(arr, n, rec) == 0
            out.append(('first-matching-block', z3.Implies(z3.And(K >= 0, K < n, app(P.unroll(arr[K]), rec), s.napp(arr, K, rec) == 0), c.ret == own(c, fld(P.unroll(arr[K]), 'rules'), rec, accts))))
        else:
            none = n == 0
        e = P.get(c.ret, 0, 0)
        good = z3.And(ok(c), none)
        if named[0]:
            pd = c.eng.M.uf('parse_date', [P.lit(''), P.lit('')], P.result_sort('chrono::NaiveDate', 'chrono::ParseError'))
            code = lambda k: P.isv(fld(e, 'status'), k)
            day = lambda v: pd.decl()(inj(fld(r, 'date_str'), v), fld(r, 'date_format'))
            opt = lambda f, v: fld(e, f) == z3.If(trim(fld(r, f)) == P.lit(''), P.none(P.Str), P.some(inj(fld(r, f), v)))
            st = lambda v, k: inj(fld(r, 'status'), v) == P.lit(k)
            for (nm, body) in (('date', lambda v: z3.And(P.isv(day(v), 0), fld(e, 'date') == P.get(day(v), 0, 0))),
                               ('description', lambda v: fld(e, 'description') == inj(fld(r, 'description'), v)),
                               ('payee', lambda v: opt('payee', v)), ('comment', lambda v: z3.If(s.some(fld(e, 'comment')), s.val(fld(e, 'comment')), P.lit('')) == z3.If(trim(fld(r, 'comment')) == P.lit(''), P.lit(''), inj(fld(r, 'comment'), v))),
                               ('status', lambda v: z3.If(st(v, '?'), code(0), z3.If(st(v, '~'), code(1), z3.And(st(v, '*'), code(2)))))):
                out.append((nm, ('exists', SMap, lambda v, body=body: z3.Implies(good, body(v)))))
            if RPo is not None and pparse is not None:
                out.append(('its accounts', ('exists', SMap, lambda v: z3.Implies(z3.And(good, read_as(c.eng, c, v)), s.npost.of(P, fld(e, 'postings'), c.ghost['X']) >= 1))))
        nacc = P.get(fld(r, 'accounts'), 0, 2)
        pa, pn = P.vparts(fld(e, 'postings'))
        out.append(('postings', z3.Implies(good, pn == z3.If(nacc <= 1, z3.IntVal(2), nacc))))
        first, second = pa[0], pa[1]
        a = s.pamt(first)
        m = s.mag(s.val(a))
        who = z3.If(m < 0, P.lit('expenses:unknown'), z3.If(m > 0, P.lit('income:unknown'), P.lit('unknown')))
        out.append(('placeholder', z3.Implies(z3.And(good, nacc <= 1), z3.And(s.some(a), isclassic(second), s.acct(second) == who, z3.Not(s.some(s.pamt(second)))))))
        return out

    def get_inv(L):
        c = L.eng.ctx0
        r, rec = c.pre[0], c.pre[1]
        out = []
        for (gi, it) in L.seqs(SubE):
            out.append(('none applies so far', lambda st, gi=gi: s.napp(P.vparts(fld(r, 'subrules'))[0], gi(st).f[1], rec) == 0))
        J = L.eng.ctxg['J']
        for (gi, it) in L.seqs(P.Str):
            pos = lambda st, gi=gi: gi(st).f[1]
            for (g, v0) in L.leaves(SMap):
                out.append(('fields so far', lambda st, g=g, pos=pos: z3.Implies(z3.And(J >= 0, J < pos(st)), bound(g(st), r, rec, J))))
                out.append(('as many as fields', lambda st, g=g, pos=pos: P.get(g(st), 0, 2) == pos(st)))
            for (g, v0) in L.leaves(P.vec(s.Po)):
                out.append(('one posting per account', lambda st, g=g, gi=gi: P.vparts(g(st))[1] == gi(st).f[1]))
                for (keys, kpos, dom, n, m) in L.st0.known.get('mappos', ()):
                    if keys.eq(it.f[0]):
                        for v in L.st0.known.get('witnesses', ()):
                            if v.sort().eq(SMap):
                                out.append(('accounts so far', lambda st, g=g, pos=pos, kpos=kpos, v=v: z3.Implies(z3.And(kpos(L.eng.ctxg['NAME']) < pos(st), read_as(L.eng, c, v)), s.npost.of(P, g(st), L.eng.ctxg['X']) >= 1)))
        return out

    s.npost = Fold('npost', s.Po, [s.Po], I, lambda p, x: z3.If(p == x, I1, I0), nonneg=True)
    RPo = P.result_of(s.Po, S + 'errors::SilverfoxError')
    pparse = s.C.get(S + 'posting::Posting::parse')

    def parts(r, f, x):
        """the accounts or amounts of the rules, or what stands for none"""
        d, v, n = (P.get(fld(r, f), 0, k) for k in (0, 1, 2))
        return z3.If(n == 0, z3.Store(d, P.lit(''), z3.BoolVal(True)), d), z3.If(n == 0, z3.Store(v, P.lit(''), P.lit(x)), v)

    def raw_text(eng, r, k):
        (ad, av), (md, mv) = parts(r, 'accounts', '%account%'), parts(r, 'amount_strs', '%amount%')
        a, m = z3.Select(av, k), z3.Select(mv, k)
        return z3.Select(ad, k), z3.If(z3.Select(md, k), eng.M.cat([a, P.lit(' '), m]), a)

    memo = {}

    def read_as(eng, c, v):
        """the account of the key NAME, with its amount, reads as the posting X"""
        r, g = c.pre[0], eng.ctxg if c is eng.ctx0 else c.ghost
        k = tuple(x.get_id() for x in (r, v, g['NAME'], g['X'], c.pre[2]))
        if k not in memo:
            memo[k] = (read_as0(eng, c, v, r, g), r, v, g['NAME'], g['X'], c.pre[2])
        return memo[k][0]

    def read_as0(eng, c, v, r, g):
        has, raw = raw_text(eng, r, g['NAME'])
        q = eng.pure_ret(pparse, [inj(raw, v), fld(r, 'decimal_symbol'), c.pre[2]], RPo)
        return z3.And(has, P.isv(q, 0), P.get(q, 0, 0) == g['X'])

    def get_setup(c):
        arr, n = P.vparts(fld(c.pre[0], 'subrules'))
        K = c.ghost['K']
        c.eng.seen_vec(c.st, fld(c.pre[0], 'subrules'))
        c.eng.touch(c.st, arr, K, n)
    # the variables are the fields of the record, by the names the rules give them
    recf = z3.Function('record_fields_arr:%s' % Rec, Rec, z3.ArraySort(I, P.Str))
    recn = z3.Function('record_fields_n:%s' % Rec, Rec, I)
    bound = lambda v, r, rec, J: z3.And(z3.Select(P.get(v, 0, 0), P.vparts(fld(r, 'fields'))[0][J]), z3.Select(P.get(v, 0, 1), P.vparts(fld(r, 'fields'))[0][J]) == recf(rec)[J])

    def injected(eng, st, call):
        r, rec, v, J = eng.ctx0.pre[0], eng.ctx0.pre[1], call.pre[1], eng.ctxg['J']
        nf, nr = P.vparts(fld(r, 'fields'))[1], recn(rec)
        n = z3.If(nf <= nr, nf, nr)
        return [('variables', z3.Implies(z3.And(J >= 0, J < n), bound(v, r, rec, J)), ('C17',)), ('no-other-variables', P.get(v, 0, 2) == n, ('C17',))]

    def posted(eng, st, call):
        r = eng.ctx0.pre[0]
        out = [('decimal-symbol', call.pre[1] == fld(r, 'decimal_symbol'), ('C17',)), ('accounts', call.pre[2] == eng.ctx0.pre[2], ('C17',))]
        # the text is that of an account of the rules and its amount, with the variables put in
        keys = selected(call.pre[0], P.Str)
        if named[0] and keys:
            vs = st.known.get('witnesses', ())
            alts = []
            for k in keys:
                has, raw = raw_text(eng, r, k)
                alts += [z3.And(has, call.pre[0] == inj(raw, v)) for v in vs if v.sort().eq(SMap)]
            out.append(('the account and its amount', z3.Or(*alts), ('C17',)))
        return out
    getter = s.add(RU + 'get_entry_from_record', setup=get_setup, props=('C17',), ghosts={'K': I, 'J': I, 'NAME': P.Str, 'X': s.Po}, ensures=get_ens, inv=get_inv, pure=True,
                   opts={'maporder': True, 'at_call': {inject.name: injected, S + 'posting::Posting::parse': posted}},
                   folds=lambda c: [(s.napp, (c.pre[1],)), (s.npost, (c.ghost['X'],))])

    # ---- the records
    # those the csv reader gives for the text (without taking the first for a header), less the skipped ones
    RR = P.result_sort('csv::StringRecord', 'csv::Error')

    def rows(c):
        M = c.eng.M
        b = z3.Const('csv_builder', P.sort_named('csv::ReaderBuilder'))
        b = M.uf('csv_has_headers', [b, z3.BoolVal(False)], b.sort())
        rd = M.uf('csv_reader', [b, M.uf('as_bytes', [c.pre[0]], P.vec(I))], P.sort_named('csv::Reader'))
        return M.uf('csv_records_arr', [rd], z3.ArraySort(I, RR)), M.uf('csv_records_n', [rd], I)

    def strs_ens(c):
        K = c.ghost['K']
        imp = P.get(c.ret, 0, 0)
        ra, rn = P.vparts(fld(imp, 'records'))
        arr, n = rows(c)
        k = fld(fld(imp, 'rules'), 'skip')
        sk = z3.If(z3.And(k >= 0, k <= n), k, n)
        return [('as-many', z3.Implies(ok(c), rn == n - sk)),
                ('in-order', z3.Implies(z3.And(ok(c), K >= 0, K < n - sk), z3.And(P.isv(arr[sk + K], 0), ra[K] == P.get(arr[sk + K], 0, 0)))),
                ('accounts', z3.Implies(ok(c), fld(imp, 'ledger_account_set') == c.pre[2]))]

    def strs_inv(L):
        K = L.eng.ctxg['K']
        out = []
        for (gi, it) in L.seqs(RR):
            p0 = it.f[1]
            for (g, v0) in L.leaves(P.vec(Rec)):
                if P.vparts(v0)[0].sort().range().eq(Rec):
                    out.append(('as many so far', lambda st, g=g, gi=gi, p0=p0: P.vparts(g(st))[1] == gi(st).f[1] - p0))
                    out.append(('in order so far', lambda st, g=g, gi=gi, p0=p0, it=it: z3.Implies(z3.And(K >= 0, K < gi(st).f[1] - p0), z3.And(P.isv(it.f[0][p0 + K], 0), P.vparts(g(st))[0][K] == P.get(it.f[0][p0 + K], 0, 0)))))
        return out
    s.add('importer::CsvImporter::from_strs', props=('C17',), ghosts={'K': I}, ensures=strs_ens, inv=strs_inv,
          opts={'at_call': {S + RU + 'from_str': lambda eng, st, call: [('these rules', call.pre[0] == eng.ctx0.pre[1], ('C17',))]}})
    CI = 'importer::CsvImporter::'
    sib = s.add(CI + 'get_sibling_rules_path', props=('C17',), pure=True)

    def with_rules(eng, st, call):
        a = eng.ctx0.pre
        return from_file(s, eng, st, [(call.pre[0], a[0]), (call.pre[1], a[1])], ('C17',)) + [('the accounts there are', call.pre[2] == a[2], ('C17',))]

    def sibling(eng, st, call):
        a = eng.ctx0.pre
        return [('the csv file given', call.pre[0] == a[0], ('C17',)), ('the accounts there are', call.pre[2] == a[1], ('C17',))] + \
            ([('the rules beside it', call.pre[1] == eng.pure_ret(sib, [a[0]], P.Str), ('C17',))] if here(CI + 'get_sibling_rules_path') else [])
    s.add(CI + 'from_file', props=('C17',), opts={'last': True, 'at_call': {S + CI + 'from_file_with_rules': sibling}})
    s.add(CI + 'from_file_with_rules', props=('C17',), opts={'last': True, 'at_call': {S + CI + 'from_strs': with_rules}})

    def next_ens(c):
        K = c.ghost['K']
        a, b = fld(c.pre[0], 'records'), fld(c.post[0], 'records')
        (aa, an), (ba, bn) = P.vparts(a), P.vparts(b)
        return [('as-many', s.some(c.ret) == (an > 0)),
                ('one-taken', z3.Implies(an > 0, bn == an - 1)),
                ('in-order', z3.Implies(z3.And(K >= 0, K < an - 1), ba[K] == aa[K + 1])),
                ('its-entry', z3.Implies(an > 0, s.val(c.ret) == own2(c, fld(c.pre[0], 'rules'), aa[0], fld(c.pre[0], 'ledger_account_set'))))]
    own2 = lambda c, r, rec, accts: c.eng.pure_ret(getter, [r, rec, accts], s.val(c.ret).sort())
    s.add('<@importer::CsvImporter as std::iter::Iterator>::next', props=('C17',), ghosts={'K': I}, ensures=next_ens, opts={'last': True})


def printed(s):
    """C15: what entries look like in the journal"""
    P = s.P
    lit, fld, isv, get = P.lit, P.fld, P.isv, P.get
    PO = 'posting::'
    Dis = lambda n: '<@%s as std::fmt::Display>::fmt' % n
    shown = lambda c, x: c.eng.M.uf('display_adt', [x], P.Str)
    cat = lambda c, *xs: c.eng.M.cat([lit(x) if isinstance(x, str) else x for x in xs])
    wide = lambda c, x: c.eng.M.uf('padded', [x], P.Str)

    def shows(n, text, props=('C15',)):
        """without options, a value is shown as this text: [(condition, parts)]"""
        def ens(c):
            out = []
            for (cond, parts) in text(c):
                out.append(('as-shown', z3.Implies(z3.And(isv(c.ret, 0), z3.Not(z3.Bool('with_sign')), cond), c.post[1] == cat(c, c.pre[1], *parts))))
            return out
        s.add(Dis(n), ensures=ens, props=props, opts={'checkonly': True, 'wording': True})
    Y = z3.BoolVal(True)

    def amount(c):
        a = c.pre[0]
        m = fld(a, 'mag')
        x = m * 100000000
        r = z3.ToReal(z3.If(x >= 0, z3.ToInt(x + z3.RealVal('1/2')), -z3.ToInt(-x + z3.RealVal('1/2')))) / 100000000
        num = c.eng.M.uf('display_float', [r], P.Str)
        sy = fld(a, 'symbol')
        short = c.eng.M.strlen(c.st, s.val(sy)) <= 2
        out = []
        for (neg, pre) in ((m < 0, ()), (m >= 0, (' ',))):
            out += [(z3.And(neg, z3.Not(s.some(sy))), pre + (num,)), (z3.And(neg, s.some(sy), short), (s.val(sy),) + pre + (num,)),
                    (z3.And(neg, s.some(sy), z3.Not(short)), pre + (num, ' ', s.val(sy)))]
        return out
    shows('amount::Amount', amount)
    shows(PO + 'Cost', lambda c: [(isv(c.pre[0], k), (sign, shown(c, get(c.pre[0], k, 0)))) for (k, sign) in ((P.vidx(c.pre[0].sort(), 'TotalCost'), ' = '), (P.vidx(c.pre[0].sort(), 'UnitCost'), ' @ '))])

    def classic(c, p):
        a, co, b = (fld(p, f) for f in ('amount', 'cost_assertion', 'balance_assertion'))
        out = []
        for k in range(8):
            on = [bool(k & 1), bool(k & 2), bool(k & 4)]
            cond = z3.And(*[s.some(v) if y else z3.Not(s.some(v)) for (v, y) in zip((a, co, b), on)])
            parts = (shown(c, s.val(a)),) * on[0] + (' ', shown(c, s.val(co))) * on[1] + (' ! ', shown(c, s.val(b))) * on[2]
            out.append((cond, (wide(c, fld(p, 'account')), ' ') + parts))
        return out
    envelope = lambda c, p: [(Y, (wide(c, cat(c, 'envelope ', fld(p, 'account_name'), ' ', fld(p, 'envelope_name'))), ' ', shown(c, fld(p, 'amount'))))]
    shows(PO + 'ClassicPosting', lambda c: classic(c, c.pre[0]))
    shows(PO + 'EnvelopePosting', lambda c: envelope(c, c.pre[0]))

    def posting(c):
        p = c.pre[0]
        out = []
        for (vn, f) in (('Classic', classic), ('Envelope', envelope)):
            k = P.vidx(p.sort(), vn)
            out += [(z3.And(isv(p, k), cond), parts) for (cond, parts) in f(c, get(p, k, 0))]
        return out
    shows(PO + 'Posting', posting)
    SG = {'Pending': '?', 'Cleared': '~', 'Reconciled': '*'}
    shows('entry::EntryStatus', lambda c: [(isv(c.pre[0], P.vidx(c.pre[0].sort(), v)), (x,)) for v, x in SG.items()])

    # ---- entries
    s.add(PO + 'Posting::as_parsable', pure=True, props=('C15',), opts={'wording': True}, ensures=lambda c: [('as-shown', c.ret == shown(c, c.pre[0]))])
    s.ptext = RecFold('postings', s.Po, [P.Str], P.Str, lambda eng, h: h,
                      lambda eng, arr, i, h: eng.M.cat([s.ptext(arr, i, h), lit('    '), eng.M.uf('display_adt', [arr[i]], P.Str), lit('\n')]))

    def head(c):
        e, M = c.pre[0], c.eng.M
        d = M.uf('trim_start', [M.uf('format_date', [fld(e, 'date'), c.pre[1]], P.Str)], P.Str)
        start = (d, ' ', shown(c, fld(e, 'status')), ' ', fld(e, 'description'))
        p, co = fld(e, 'payee'), fld(e, 'comment')
        py, cy = (' [', s.val(p), ']'), (' // ', s.val(co))
        t = lambda *x: cat(c, *start, *x, '\n')
        return z3.If(s.some(p), z3.If(s.some(co), t(*py, *cy), t(*py)), z3.If(s.some(co), t(*cy), t()))

    def entry_inv(L):
        c = L.eng.ctx0
        h = head(c)
        return [('postings so far', lambda st, g=g, a=a, pos=pos: g(st) == s.ptext(a, pos(st), h)) for (a, pos) in L.prefixes(s.Po) for (g, old) in L.leaves(P.Str)]
    def entry_setup(c):
        c.eng.text_touch(c.st, P.vparts(fld(c.pre[0], 'postings'))[0])
    s.add('entry::Entry::as_parsable', pure=True, props=('C15',), setup=entry_setup, inv=entry_inv, opts={'wording': True, 'text': lambda c: [(s.ptext, (head(c),))]},
          ensures=lambda c: [('as-shown', c.ret == s.ptext(*P.vparts(fld(c.pre[0], 'postings')), head(c)))])


def flags_part(s):
    """C12: what is written when"""
    P = s.P
    lf, LE = s.lf, 'ledger::Ledger::'
    ok = lambda c: P.isv(c.ret, 0)
    io = lambda c: (c.io_pre, c.io_post)
    I0 = z3.IntVal(0)
    AP = S + LE + 'append_entry'
    g2 = {'ACCT': P.Str, 'SYM': s.Sym, 'K1': s.I, 'K2': s.I}
    few = s.fewf

    # ---- filling: at most one entry, dated today, that only moves money into envelopes
    def fill_call(eng, st, call):
        e = call.pre[1]
        ps = P.fld(e, 'postings')
        return [('today', P.fld(e, 'date') == s.TODAY, ('C09', 'C10')), ('only-adds', s.fneg.of(P, ps) == 0, ('C09',)),
                ('something', P.vparts(ps)[1] > 0, ('C09',))]

    def fill_inv(L):
        return [('only adds so far', lambda st, g=g: s.fneg.of(P, g(st)) == 0) for (g, v0) in L.leaves(P.vec(s.Po))]

    def fill_ens(c):
        (w0, b0), (w1, b1) = io(c)
        return [('append-only', b0 == b1, ('C12',)), ('at-most-one-write', z3.And(w1 >= w0, w1 <= w0 + 1), ('C12',))] + s.grow_ens(c)
    s.add(LE + 'fill_envelopes', ghosts=g2, folds=lambda c: few(c) + [(s.fneg, ())], inv=fill_inv, ensures=fill_ens, props=('C09',),
          opts={'io': True, 'at_call': {AP: fill_call}})

    # ---- importing: the entries the importer gives, in that order, each of them written once
    Imp = s.sort('importer::CsvImporter')
    recs = lambda i: P.vparts(P.fld(i, 'records'))[1]

    def imp_call(eng, st, call):
        r = st.known.get('last:next')
        return [('imported-entry', z3.And(s.some(r), P.isv(s.val(r), 0), call.pre[1] == P.get(s.val(r), 0, 0)), ('C17',))] if r is not None else []

    def imp_inv(L):
        return [('as many as taken', lambda st, g=g, i0=i0: L.eng.M.io(st)[0] + recs(g(st)) == L.eng.M.io(L.st0)[0] + recs(i0)) for (g, i0) in L.leaves(Imp)] + \
               s.read_inv(L) + [('nothing else written', lambda st: L.eng.M.io(st)[1] == L.eng.M.io(L.st0)[1])]

    def imp_ens(c):
        (w0, b0), (w1, b1) = io(c)
        out = [('append-only', b0 == b1, ('C12',)), ('never-fewer', w1 >= w0, ('C12',))]
        for k in ('last:from_file_with_rules', 'last:from_file'):
            r = c.st_post.known.get(k)
            if r is not None:
                out.append(('one-entry-per-record', z3.Implies(ok(c), w1 == w0 + recs(P.get(r, 0, 0))), ('C17',)))
                break
        return out
    s.add(LE + 'import_csv', ghosts=g2, folds=few, inv=imp_inv, ensures=imp_ens, props=('C17',), opts={'io': True, 'at_call': {AP: imp_call}})


    # ---- reports
    KS = z3.ArraySort(P.Str, z3.BoolSort())
    s.nkey = Fold('nkey', P.Str, [KS], s.I, lambda k, d: z3.If(z3.Select(d, k), I0, z3.IntVal(1)), nonneg=True)
    adom = lambda l: P.get(lf(l, 'accounts'), 0, 0)
    s.add(LE + 'display_envelopes', folds=lambda c: [(s.nkey, (adom(c.pre[0]),))], props=('C06',),
          inv=lambda L: [('keys of the map', lambda st, g=g: s.nkey.of(P, g(st), adom(L.eng.ctx0.pre[0])) == 0) for (g, v0) in L.leaves(P.vec(P.Str))])
    s.add(LE + 'display_flat_balance', ghosts=g2, folds=few, props=('C05',),
          ensures=lambda c: [('no-error', z3.Implies(s.gbad.of(P, lf(c.pre[0], 'entries')) == 0, ok(c)), ('C18',))])
    s.add('account::Account::display_envelopes', props=('C06',))

    # ---- the commands
    FL = 'flags::CommandFlags::'
    SC = s.sort('flags::Subcommand')
    ff = lambda f, n: P.fld(f, n)
    is_sub = lambda f, n: P.isv(ff(f, 'subcommand'), P.vidx(SC, n))

    def exec_ens(c):
        f = c.pre[0]
        (w0, b0), (w1, b1) = io(c)
        quiet = z3.And(ff(f, 'no_move'), z3.Not(is_sub(f, 'Import')))
        return [('append-only', b0 == b1), ('no-move-writes-nothing', z3.Implies(quiet, w0 == w1)),
                ('one-entry-at-most', z3.Implies(z3.Not(is_sub(f, 'Import')), w1 <= w0 + 1)),
                ('no-move-imports-only', w1 >= w0)]

    def given(eng, st, call):
        f = eng.ctx0.pre[0]
        return [('the-journal-given', z3.Implies(s.some(ff(f, 'file_path')), call.pre[0] == s.val(ff(f, 'file_path'))), ('C12',))]

    def given_l(eng, st, call):
        f = eng.ctx0.pre[0]
        return [('the-journal-given', z3.Implies(s.some(ff(f, 'file_path')), lf(call.pre[0], 'file_path') == s.val(ff(f, 'file_path'))), ('C12',))]

    def imported(eng, st, call):
        f = eng.ctx0.pre[0]
        return given_l(eng, st, call) + [('the-csv-file-given', z3.And(s.some(ff(f, 'csv_file')), call.pre[1] == s.val(ff(f, 'csv_file'))), ('C17',)),
                                         ('the-rules-given', call.pre[2] == ff(f, 'rules_file'), ('C17',))]

    def registered(eng, st, call):
        f = eng.ctx0.pre[0]
        return [('the-dates-given', z3.And(call.pre[1] == ff(f, 'begin_date'), call.pre[2] == ff(f, 'end_date')), ('C16',))]
    s.add(FL + 'execute', ghosts=g2, folds=lambda c: [(s.gwrong, (c.ghost['SYM'],)), (s.greal, (c.ghost['ACCT'],))], ensures=exec_ens, props=('C12',),
          opts={'io': True, 'at_call': {S + LE + 'from_file': given, S + LE + 'fill_envelopes': given_l, S + LE + 'import_csv': imported, S + LE + 'display_register': registered}})
    s.add(FL + 'parse_from_env', props=('C18',))
    s.add('main', props=('C18',), opts={'io': True}, ghosts=g2)
    printed(s)
    # what is printed: formatting never panics (calls through the formatting machinery are not followed by the engine)
    for n in sorted(P.by_name):
        if n.startswith('<' + S) and n.endswith('as std::fmt::Display>::fmt') and n not in s.C:
            s.C[n] = Contract(n, props=('C18',), opts={'checkonly': True})
