"""Models of the standard library, chrono and I/O calls the crate makes.  These are the trusted
contracts of dependencies; each one used is reported in the evidence."""
import re
import z3
from core import *
from engine import simp_select, is_num

U = 'unit'


def strip_generics(s):
    out, d = [], 0
    i = 0
    while i < len(s):
        if s.startswith('::<', i) and d == 0 and not s.startswith('::<impl', i):
            # skip a turbofish
            j, dd = i + 2, 0
            while True:
                if s[j] == '<':
                    dd += 1
                elif s[j] == '>' and s[j-1] != '-':
                    dd -= 1
                    if dd == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(s[i])
        i += 1
    return ''.join(out)


class Models:
    def __init__(self, eng):
        self.e = eng
        self.P = eng.P
        self.axioms = []
        P = self.P
        self.TODAY = z3.Const('TODAY', z3.IntSort())
        I = z3.IntSort()
        self.MI = z3.Function('month_index_of', I, I)
        self.DAY = z3.Function('day_of', I, I)
        self.FIRST = z3.Function('first_of_month', I, I)
        self.LEAP = z3.Function('leap', I, z3.BoolSort())
        self._uf = {}
        self._defcache = {}

    # ------------------------------------------------------------ helpers
    def uf(self, name, args, sort):
        ss = [a.sort() for a in args]
        key = (name, tuple(x.get_id() for x in ss), sort.get_id())
        r = self._uf.get(key)
        if r is None:
            r = self._uf[key] = (z3.Function('%s:%s' % (name, '/'.join(str(x) for x in ss)), *ss, sort), ss, sort)
        return r[0](*args)

    def unit(self):
        return self.P.Unit.constructor(0)()

    def init_state(self, st):
        st.heap[('io',)] = PAgg(None, 0, (z3.Const('io_writes0', z3.IntSort()), z3.BoolVal(False)))
        # has the text to be written been read back (a successful call of the function that tests it)?
        st.heap[('tested',)] = z3.BoolVal(False)
        st.heap[('tested_text',)] = z3.Const('tested_text0', self.P.Str)
        self.date_facts(st, self.TODAY, rng=(12 * 1, 12 * 9999))

    def io(self, st):
        return st.heap[('io',)].fields

    def io_event(self, st, bad=False):
        w, b = self.io(st)
        if isinstance(bad, bool):
            bad = z3.BoolVal(bad)
        st.heap[('io',)] = PAgg(None, 0, (w + 1, simp(z3.Or(b, bad))))

    def journal(self):
        f = self.e.curc.opts.get('journal') if self.e.curc else None
        return f(self.e.ctx0) if f else None

    def strlen(self, st, s):
        l = self.uf('str_len', [s], z3.IntSort())
        key = ('sl', s.get_id())
        if key not in st.known:
            st.known[key] = s
            st.assume(z3.And(l >= 0, l <= 2**31 - 1))
            st.assume((l == 0) == (s == self.P.lit('')))
        return l

    def fmul(self, st, a, b):
        r = self.uf('fmul', [a, b], z3.RealSort())
        st.assume(z3.Implies(z3.Or(a == 0, b == 0), r == 0))
        st.assume(r == self.uf('fmul', [b, a], z3.RealSort()))
        st.assume(z3.Implies(b == 1, r == a))
        self.e.assumptions.add('a product of two variable f64 values is an uninterpreted function (commutative, 0 absorbing, 1 neutral)')
        return r

    def fdiv(self, st, a, b):
        r = self.uf('fdiv', [a, b], z3.RealSort())
        st.assume(z3.Implies(z3.And(b >= 1, a >= 0), z3.And(r >= 0, r <= a)))
        st.assume(z3.Implies(z3.And(b >= 1, a <= 0), z3.And(r <= 0, r >= a)))
        st.assume(z3.Implies(b == 1, r == a))
        self.e.assumptions.add('division of two variable f64 values is uninterpreted up to 0 <= a/b <= a for a >= 0, b >= 1')
        return r

    def on_touch(self, st, arr, i, ln):
        # element type facts: vectors inside elements, map key sequences
        for h in st.known.get('maphooks', ()):
            h(st, arr, i)

    # ------------------------------------------------------------ dates
    def mlen(self, mi):
        m0, y = mi % 12, mi / 12
        return z3.If(m0 == 1, z3.If(self.LEAP(y), z3.IntVal(29), z3.IntVal(28)),
                     z3.If(z3.Or(m0 == 3, m0 == 5, m0 == 8, m0 == 10), z3.IntVal(30), z3.IntVal(31)))

    def reg_month(self, st, mi, cond=None):
        """ordering facts between the first days of the months seen so far"""
        ms = st.known.get('months', ())
        mi = simp(mi)
        if any(m.eq(mi) for m in ms):
            return
        for m in ms:
            for a, b in ((m, mi), (mi, m)):
                st.assume(z3.Implies(a < b, self.FIRST(a) + self.mlen(a) <= self.FIRST(b)))
                st.assume(z3.Implies(b == a + 1, self.FIRST(b) == self.FIRST(a) + self.mlen(a)))
        st.known['months'] = ms + (mi,)

    def date_facts(self, st, d, rng=None):
        key = ('d', d.get_id())
        if key in st.known:
            return self.MI(d), self.DAY(d)
        st.known[key] = d
        mi, day = self.MI(d), self.DAY(d)
        lo, hi = rng or (-262143 * 12, 262142 * 12 + 11)
        st.assume(z3.And(mi >= lo, mi <= hi, day >= 1, day <= self.mlen(mi), d == self.FIRST(mi) + day - 1, d >= -97000000, d <= 97000000))
        self.reg_month(st, mi)
        self.e.trusted.add('chrono::NaiveDate (calendar: months follow each other, have 28 to 31 days, dates order by year, month, day)')
        return mi, day

    def mkdate(self, st, mi, day, extra):
        """Option<NaiveDate> for the day of the month"""
        P = self.P
        mi = simp(mi)
        valid = simp(z3.And(extra, day >= 1, day <= self.mlen(mi), mi >= -262143 * 12, mi <= 262142 * 12 + 11))
        self.reg_month(st, mi)
        v = self.FIRST(mi) + day - 1
        w = self.e.fresh(z3.IntSort(), 'date')
        st.assume(z3.Implies(valid, z3.And(w == v, self.MI(w) == mi, self.DAY(w) == day)))
        self.date_facts(st, w)
        self.e.trusted.add('chrono::NaiveDate::from_ymd_opt, with_day, with_month, with_year (Some exactly for an existing day)')
        return z3.If(valid, P.some(w), P.none(z3.IntSort()))

    def weekday(self, d, sort):
        n = d % 7
        r = sort.constructor(6)()
        for i in range(5, -1, -1):
            r = z3.If(n == i, sort.constructor(i)(), r)
        return r

    def weekday_num(self, w):
        r = z3.IntVal(6)
        for i in range(5, -1, -1):
            r = z3.If(self.P.isv(w, i), z3.IntVal(i), r)
        return r

    # ------------------------------------------------------------ vectors
    def empty_vec(self, st, es):
        # (what is in the array beyond the length is never read: any one will do)
        v = self.empty(es)
        self.e.seen_vec(st, v)
        return v

    def empty(self, es):
        return self.P.mkvec(z3.Const('empty<%s>' % es, z3.ArraySort(z3.IntSort(), es)), z3.IntVal(0))

    def vec_push(self, st, v, x):
        arr, ln = self.P.vparts(v)
        ln = simp(ln)
        arr2 = z3.Store(arr, ln, x)
        self.e.event(st, ('push', arr, ln, arr2))
        w = self.P.mkvec(arr2, simp(ln + 1))
        self.e.seen_vec(st, w)
        return w

    def mk_opt(self, dty, v):
        """Option value of the destination type; v None for None"""
        P = self.P
        if v is None:
            s = P.sort(dty)
            return s.constructor(0)() if s is not None else PAgg(dty, 0, ())
        if is_z3(v) and P.sort(dty) is not None:
            return P.sort(dty).constructor(1)(v)
        return PAgg(dty, 1, (v,))

    def range_of(self, v, ln):
        """(start, end) of a Range-like value over a length, by its type name"""
        P = self.P
        s = v.sort()
        n = s.name()
        if n.startswith('std::ops::RangeFull'):
            return z3.IntVal(0), ln
        if n.startswith('std::ops::RangeFrom'):
            return P.get(v, 0, 0), ln
        if n.startswith('std::ops::RangeToInclusive'):
            return z3.IntVal(0), P.get(v, 0, 0) + 1
        if n.startswith('std::ops::RangeTo'):
            return z3.IntVal(0), P.get(v, 0, 0)
        if n.startswith('std::ops::RangeInclusive'):
            return P.get(v, 0, 0), P.get(v, 0, 1) + 1
        if n.startswith('std::ops::Range'):
            return P.get(v, 0, 0), P.get(v, 0, 1)
        raise Unsupported('range ' + n)

    # ------------------------------------------------------------ iterators
    def to_iter(self, st, v):
        P, e = self.P, self.e
        if isinstance(v, It):
            return v
        if isinstance(v, MutRef):
            t = e.resolve(st, v)
            if isinstance(t, It):
                return It('byref', v)
            if isinstance(t, MutRef):
                return self.to_iter(st, t)
            if is_z3(t) and P.is_vec(t.sort()):
                arr, ln = e.seen_vec(st, t)
                return It('seq', v, z3.IntVal(0), ln)
            if is_z3(t) and P.is_map(t.sort()):
                return self.map_iter(st, t, 'mut', v)
            raise Unsupported('iteration over &mut %r' % (t,))
        if is_z3(v):
            s = v.sort()
            if P.is_vec(s):
                arr, ln = e.seen_vec(st, v)
                return It('seq', arr, z3.IntVal(0), ln)
            if P.is_map(s):
                return self.map_iter(st, v, 'pair', None)
            if P.is_set(s):
                return self.map_iter(st, v, 'key', None)
            n = s.name()
            if n.startswith('std::ops::RangeInclusive'):
                return It('range', P.get(v, 0, 0), P.get(v, 0, 1) + 1)
            if n.startswith('std::ops::Range<'):
                return It('range', P.get(v, 0, 0), P.get(v, 0, 1))
            if n.startswith('std::option::Option<'):
                raise Unsupported('Option as iterator')
        if isinstance(v, Opq) and v.what == 'array':
            raise Unsupported('array of non-values as iterator')
        raise Unsupported('iteration over %r' % (v,))

    def map_iter(self, st, m, mode, ref):
        """iteration over a map or set: some order of its keys"""
        P, e = self.P, self.e
        if e.curc and e.curc.opts.get('maporder'):
            e.assumptions.add('one HashMap object iterates in the same order every time it is iterated without having been changed')
        else:
            e.nondet = True
        dom = P.get(m, 0, 0)
        ks = dom.sort().domain()
        n = P.get(m, 0, 1 if P.is_set(m.sort()) else 2)
        if e.curc and e.curc.opts.get('maporder'):
            keys = self.uf('map_keys', [m], z3.ArraySort(z3.IntSort(), ks))
        else:
            keys = e.fresh(z3.ArraySort(z3.IntSort(), ks), 'keys')
        pos = z3.Function('pos!%d' % e.fid(), ks, z3.IntSort())
        st.assume(n >= 0)
        st.assume(n <= 2**31 - 1)

        def hook(s, arr, i):
            if arr.eq(keys):
                k = simp_select(keys, i)
                s.assume(z3.Implies(z3.And(i >= 0, i < n), z3.And(z3.Select(dom, k), pos(k) == i)))
        st.known['maphooks'] = st.known.get('maphooks', ()) + (hook,)
        kt = e.curc.opts.get('keyterms') if e.curc else None
        for g in list(e.ctxg.values()) + (kt(e.ctx0) if kt else []):
            if g.sort().eq(ks):
                st.assume(z3.Implies(z3.Select(dom, g), z3.And(pos(g) >= 0, pos(g) < n, z3.Select(keys, pos(g)) == g)))
        for (F, ps) in st.inst:
            # (by induction from the hook: every key is in the map)
            if F.name == 'nkey' and ps[0].eq(dom):
                st.assume(F(keys, n, *ps) == 0)
        st.known['mappos'] = st.known.get('mappos', ()) + ((keys, pos, dom, n, m),)
        e.text_touch(st, keys)
        seq = It('seq', keys, z3.IntVal(0), n)
        if mode == 'key':
            return seq
        return It('mapit', seq, m, mode, ref)

    def next(self, st, it, back=False):
        """-> [(st, it', 'some', v) | (st, it', 'none', None) | (st, it', 'retry', None)]"""
        P, e = self.P, self.e
        k = it.k
        if k == 'byref':
            inner = e.resolve(st, it.f[0])
            res = []
            for (s, i2, kind, v) in self.next(st, inner, back):
                e.write_ref(s, it.f[0], i2)
                res.append((s, it, kind, v))
            return res
        if k == 'seq':
            src, lo, hi = it.f
            res = []
            for (s, more) in e.branch(st, [(simp(lo < hi), True), (simp(z3.Not(lo < hi)), False)]):
                if not more:
                    res.append((s, it, 'none', None))
                    continue
                i = simp(hi - 1) if back else lo
                if isinstance(src, MutRef):
                    vv = e.resolve(s, src)
                    arr, ln = e.seen_vec(s, vv)
                    e.touch(s, arr, i, ln)
                    v = MutRef(src.cell, src.path + (('idx', i),))
                else:
                    e.touch(s, src, i, hi)
                    if back:
                        for (a, ln) in [x for k2, x in s.known.items() if isinstance(k2, tuple) and k2[0] == 'v' and k2[1] == src.get_id()]:
                            if not ln.eq(hi):
                                e.event(s, ('touch', src, i, ln))
                    v = simp_select(src, i)
                    self.elem_facts(s, v)
                it2 = It('seq', src, lo, simp(hi - 1)) if back else It('seq', src, simp(lo + 1), hi)
                res.append((s, it2, 'some', v))
            return res
        if k == 'range':
            lo, hi = it.f
            res = []
            for (s, more) in e.branch(st, [(simp(lo < hi), True), (simp(z3.Not(lo < hi)), False)]):
                if not more:
                    res.append((s, it, 'none', None))
                elif back:
                    res.append((s, It('range', lo, simp(hi - 1)), 'some', simp(hi - 1)))
                else:
                    res.append((s, It('range', simp(lo + 1), hi), 'some', lo))
            return res
        if k == 'mapit':
            seq, m, mode, ref = it.f
            res = []
            for (s, i2, kind, key) in self.next(st, seq, back):
                it2 = It('mapit', i2, m, mode, ref)
                if kind != 'some':
                    res.append((s, it2, kind, None))
                    continue
                if mode == 'mut':
                    v = PAgg(None, 0, (key, MutRef(ref.cell, ref.path + (('map', key),))))
                elif mode == 'mutval':
                    v = MutRef(ref.cell, ref.path + (('map', key),))
                else:
                    val = simp_select(P.get(m, 0, 1), key)
                    self.elem_facts(s, val)
                    v = val if mode == 'val' else PAgg(None, 0, (key, val))
                    if mode == 'pair':
                        v = self.tup(key, val)
                res.append((s, it2, 'some', v))
            return res
        if k == 'chain':
            a, b = it.f
            first, second = (b, a) if back else (a, b)
            res = []
            for (s, f2, kind, v) in self.next(st, first, back):
                if kind != 'none':
                    res.append((s, It('chain', a, f2) if back else It('chain', f2, b), kind, v))
                    continue
                for (s2, g2, kind2, v2) in self.next(s, second, back):
                    res.append((s2, It('chain', g2, f2) if back else It('chain', f2, g2), kind2, v2))
            return res
        if k == 'rev':
            return [(s, It('rev', i2), kind, v) for (s, i2, kind, v) in self.next(st, it.f[0], not back)]
        if k in ('cloned', 'copied'):
            return [(s, It(k, i2), kind, v) for (s, i2, kind, v) in self.next(st, it.f[0], back)]
        if k == 'filter':
            inner, clo = it.f
            res = []
            for (s, i2, kind, v) in self.next(st, inner, back):
                it2 = It('filter', i2, clo)
                if kind != 'some':
                    res.append((s, it2, kind, None))
                    continue
                for (s2, b) in self.call_fn(s, clo, [v]):
                    for (s3, yes) in e.branch(s2, [(b, True), (simp(z3.Not(b)), False)]):
                        res.append((s3, it2, 'some' if yes else 'retry', v if yes else None))
            return res
        if k in ('map', 'inspect'):
            inner, clo = it.f
            res = []
            for (s, i2, kind, v) in self.next(st, inner, back):
                it2 = It(k, i2, clo)
                if kind != 'some':
                    res.append((s, it2, kind, None))
                    continue
                for (s2, r) in self.call_fn(s, clo, [v]):
                    res.append((s2, it2, 'some', r if k == 'map' else v))
            return res
        if k == 'filter_map':
            inner, clo = it.f
            res = []
            for (s, i2, kind, v) in self.next(st, inner, back):
                it2 = It(k, i2, clo)
                if kind != 'some':
                    res.append((s, it2, kind, None))
                    continue
                for (s2, r) in self.call_fn(s, clo, [v]):
                    for (s3, some, x) in self.split_opt(s2, r):
                        res.append((s3, it2, 'some' if some else 'retry', x))
            return res
        if k == 'enumerate':
            if back:
                raise Unsupported('enumerate backwards')
            inner, n = it.f
            return [(s, It('enumerate', i2, simp(n + 1) if kind == 'some' else n), kind, PAgg(None, 0, (n, v)) if kind == 'some' and not is_z3(v) else (self.tup(n, v) if kind == 'some' else None))
                    for (s, i2, kind, v) in self.next(st, inner)]
        if k == 'skip':
            inner, n = it.f
            res = []
            if back:
                raise Unsupported('skip backwards')
            for (s, sk) in e.branch(st, [(simp(n > 0), True), (simp(n <= 0), False)]):
                for (s2, i2, kind, v) in self.next(s, inner):
                    if sk:
                        res.append((s2, It('skip', i2, simp(n - 1)), 'retry' if kind != 'none' else 'none', None))
                    else:
                        res.append((s2, It('skip', i2, n), kind, v))
            return res
        if k == 'take':
            inner, n = it.f
            res = []
            for (s, ok) in e.branch(st, [(simp(n > 0), True), (simp(n <= 0), False)]):
                if not ok:
                    res.append((s, it, 'none', None))
                    continue
                for (s2, i2, kind, v) in self.next(s, inner):
                    res.append((s2, It('take', i2, simp(n - 1) if kind == 'some' else n), kind, v))
            return res
        if k == 'take_while':
            inner, clo, done = it.f
            res = []
            for (s, dn) in e.branch(st, [(done, True), (simp(z3.Not(done)), False)]):
                if dn:
                    res.append((s, it, 'none', None))
                    continue
                for (s1, i2, kind, v) in self.next(s, inner):
                    if kind != 'some':
                        res.append((s1, It(k, i2, clo, done), kind, None))
                        continue
                    for (s2, b) in self.call_fn(s1, clo, [v]):
                        for (s3, yes) in e.branch(s2, [(b, True), (simp(z3.Not(b)), False)]):
                            res.append((s3, It(k, i2, clo, z3.BoolVal(not yes)), 'some' if yes else 'none', v if yes else None))
            return res
        if k == 'zip':
            a, b = it.f
            if back:
                raise Unsupported('zip backwards')
            res = []
            for (s, a2, kind, v) in self.next(st, a):
                if kind != 'some':
                    res.append((s, It('zip', a2, b), kind, None))
                    continue
                for (s2, b2, kind2, w) in self.next(s, b):
                    if kind2 == 'retry':
                        raise Unsupported('zip of a filter')
                    res.append((s2, It('zip', a2, b2), kind2, self.tup(v, w) if kind2 == 'some' else None))
            return res
        if k == 'peekable':
            inner, pk = it.f
            if pk is not None:
                return [(st, It('peekable', inner, None), 'some' if pk[0] else 'none', pk[1] if pk[0] else None)]
            return [(s, It('peekable', i2, None), kind, v) for (s, i2, kind, v) in self.next(st, inner, back)]
        if k == 'once':
            if it.f[0] is None:
                return [(st, it, 'none', None)]
            return [(st, It('once', None), 'some', it.f[0])]
        if k == 'empty':
            return [(st, it, 'none', None)]
        if k == 'local':     # a crate-local Iterator implementation
            key, cell = it.f
            outs = e.exec_fn(st, key, [MutRef(cell, ())])
            res = []
            for (s, r) in outs:
                for (s3, some, x) in self.split_opt(s, r):
                    res.append((s3, it, 'some' if some else 'none', x))
            return res
        raise Unsupported('iterator ' + k)

    def elem_facts(self, st, v):
        self.e.value_facts(st, v)

    def tup(self, a, b):
        if is_z3(a) and is_z3(b):
            P = self.P
            s = P.dt('tup(%s,%s)' % (a.sort(), b.sort()), [('tup', [('_0', a.sort()), ('_1', b.sort())])])
            return s.constructor(0)(a, b)
        return PAgg(None, 0, (a, b))

    def untup(self, v, n):
        if isinstance(v, PAgg):
            return list(v.fields)
        if v.sort().eq(self.P.Unit):
            return []
        return [self.P.get(v, 0, j) for j in range(n)]

    def split_opt(self, st, r):
        """-> [(st, is_some, value)]"""
        P, e = self.P, self.e
        if isinstance(r, PAgg):
            return [(st, r.variant == 1, r.fields[0] if r.variant == 1 else None)]
        c = P.isv(r, 1)
        return [(s, yes, P.get(r, 1, 0) if yes else None) for (s, yes) in e.branch(st, [(c, True), (simp(z3.Not(c)), False)])]

    def has_retry(self, it):
        if not isinstance(it, It):
            return isinstance(it, MutRef)
        if it.k in ('filter', 'filter_map', 'skip', 'skip_while', 'byref', 'flatten'):
            return True
        return any(self.has_retry(x) for x in it.f if isinstance(x, (It, MutRef)))

    def it_next(self, st, ref, back=False):
        """Iterator::next on a cell: -> [(st, some?, value)] with filters resolved by a loop"""
        e = self.e

        def one(s):
            it = e.resolve(s, ref)
            while isinstance(it, MutRef):
                it = e.resolve(s, it)
            res = []
            for (s2, i2, kind, v) in self.next(s, it, back):
                r = ref
                while isinstance(e.resolve(s2, r), MutRef):
                    r = e.resolve(s2, r)
                e.write_ref(s2, r, i2)
                res.append((s2, kind, v))
            return res
        it = e.deref_full(st, ref)
        if not self.has_retry(it):
            return [(s, k == 'some', v) for (s, k, v) in one(st)]

        def step(s):
            return [('cont', s2) if kind == 'retry' else ('exit', s2, (kind == 'some', v)) for (s2, kind, v) in one(s)]
        return [(s, p[0], p[1]) for (s, p) in e.run_loop(st, step, 'filtered next')]

    def consume(self, st, it, body, label, init=None):
        """loop over an iterator: body(st, acc_ref, v) -> [(st, 'cont'|('break', val))];
        -> [(st, 'end'|('break', val), final acc)]"""
        e = self.e
        itc = e.new_cell(st, it)
        accc = e.new_cell(st, init if init is not None else self.unit())
        ir, ar = MutRef(itc, ()), MutRef(accc, ())

        def step(s):
            res = []
            cur = e.resolve(s, ir)
            for (s2, i2, kind, v) in self.next(s, cur):
                e.write_ref(s2, ir, i2)
                if kind == 'none':
                    res.append(('exit', s2, 'end'))
                elif kind == 'retry':
                    res.append(('cont', s2))
                else:
                    for (s3, r) in body(s2, ar, v):
                        if r == 'cont':
                            res.append(('cont', s3))
                        else:
                            res.append(('exit', s3, r))
            return res
        outs = []
        base = it
        while isinstance(base, It) and base.k == 'byref':
            base = e.resolve(st, base.f[0])
        if isinstance(base, It) and base.k == 'seq' and all(is_z3(x) for x in base.f) and \
                all(z3.is_int_value(simp(x)) for x in base.f[1:3]) and simp(base.f[2]).as_long() - simp(base.f[1]).as_long() <= 6:
            # a constant number of elements: step by step, nothing to be invariant
            done, todo = [], [st]
            while todo:
                for r in step(todo.pop()):
                    if r[0] == 'cont':
                        todo.append(r[1])
                    else:
                        done.append((r[1], r[2]))
        else:
            done = e.run_loop(st, step, label)
        for (s, p) in done:
            acc = e.resolve(s, ar)
            left = e.resolve(s, ir)
            del s.heap[itc]
            del s.heap[accc]
            outs.append((s, p, acc, left))
        return outs

    # ------------------------------------------------------------ calling closures
    def call_fn(self, st, f, args):
        e, P = self.e, self.P
        while isinstance(f, MutRef):
            f0 = f
            f = e.resolve(st, f)
        if isinstance(f, FnVal):
            t = P.t(f.ty)
            d = t['def']
            r = self.ctor(st, t, args)
            if r is not None:
                return r
            key = t['inst']['key'] if t.get('inst') else None
            fn = P.F.get(key)
            if fn is not None and fn['body'] is not None:
                dty = fn['body']['locals'][0]
            else:
                dty = t['args'][0] if str(d).endswith('::From::from') and t.get('args') else None
            return e.call(st, f.ty, args, [None] * len(args), dty, _FakeFrame, {'line': '?'})
        if isinstance(f, PAgg):
            t = P.t(f.ty)
            if t['k'] == 'closure':
                inst = t.get('mut') or t.get('fn') or t.get('once')
                for cand in ('fn', 'mut', 'once'):
                    if t.get(cand) and P.F.get(t[cand]['key']) and P.F[t[cand]['key']]['body'] and P.F[t[cand]['key']]['kind'] == 'Item':
                        inst = t[cand]
                        break
                fn = P.F.get(inst['key'])
                if fn is None or fn['body'] is None:
                    raise Unsupported('closure without a body: ' + t['def'])
                selfty = P.t(fn['body']['locals'][1])
                cell = None
                if selfty['k'] == 'ref' and selfty['mut']:
                    cell = e.new_cell(st, f)
                    env = MutRef(cell, ())
                else:
                    env = f
                outs = []
                for (s, r) in e.exec_fn(st, inst['key'], [env] + list(args)):
                    if cell is not None:
                        now = s.heap.pop(cell)
                        if not veq(now, f):
                            raise Unsupported('closure with its own mutable state')
                    outs.append((s, r))
                return outs
        raise Unsupported('call of %r' % (f,))

    def ctor(self, st, t, args, dty=None):
        """a tuple constructor used as a function"""
        e, P = self.e, self.P
        nm = t['inst']['name'] if t.get('inst') else t['def']
        f = P.F.get(t['inst']['key']) if t.get('inst') else None
        if f is not None and f['body'] is not None:
            return None
        nm = strip_generics(nm)
        if nm == 'std::option::Option::Some':
            return [(st, P.some(args[0]) if is_z3(args[0]) else PAgg(None, 1, (args[0],)))]
        if dty is not None and P.t(dty)['k'] == 'adt':
            ts = [dty]
        else:
            ts = [int(k) for k, x in P.T.items() if x['k'] == 'adt' and x['local']]
        for ty in ts:
            x = P.t(ty)
            for vi, v in enumerate(x['variants']):
                if nm in (x['name'] + '::' + v['name'], x['name']) and (nm != x['name'] or len(x['variants']) == 1) and len(v['fields']) == len(args):
                    return [(st, e.mkagg(ty, vi, [e.deref_full(st, a) if P.t(v['fields'][j]['ty'])['k'] != 'ref' else a for j, a in enumerate(args)]))]
        return None

    # ------------------------------------------------------------ panics
    def panic(self, st, what, fr, blk):
        e = self.e
        if e.record:
            e.oblige(st, 'no-panic(%s)@%s' % (what, fr.fn['name'].replace('silverfox::', '') if fr is not _FakeFrame else '?'), z3.BoolVal(False), 'panic', e.panic_props(what), blk.get('line', ''))
        return []

    def struct_eq_ok(self, ty):
        """may == on this type be decided structurally?"""
        P = self.P
        t = P.t(P.strip(ty))
        if t['k'] in ('bool', 'int', 'uint', 'char', 'float', 'str'):
            return True
        if t['k'] == 'tuple':
            return all(self.struct_eq_ok(x) for x in t['ts'])
        if t['k'] == 'adt':
            if t['name'] in STRLIKE or t['name'] in ('chrono::NaiveDate', 'chrono::TimeDelta', 'chrono::Weekday', 'std::cmp::Ordering'):
                return True
            if t['name'] in ('std::option::Option',):
                return all(self.struct_eq_ok(a) for a in t['args'] if isinstance(a, int))
            if t['local'] and t['kind'] == 'Enum' and all(not v['fields'] for v in t['variants']):
                return False
        return False

    # ------------------------------------------------------------ dispatch
    def model(self, st, t, inst, args, argtys, dty, fr, blk):
        d = t['def']
        iname = inst['name'] if inst else d
        if inst:
            f = self.P.F.get(inst['key'])
            if f is not None and f['local'] and not d.startswith('std::ops::Fn') and 'IntoIterator' not in iname:
                return None
        h = self._defcache.get(d)
        if h is None:
            nm = re.sub(r'<[^<>]*>', '', d)
            nm = re.sub(r'<[^<>]*>', '', nm)
            nm = re.sub(r'<[^<>]*>', '', nm)
            nm = re.sub(r'::+', '::', nm).strip(':')
            nm = nm.replace('::', '_').replace(' ', '')
            # impl blocks keep their self type
            m = re.search(r'<impl ([^>]*?)>?>::(\w+)$', d)
            key = None
            if m:
                ty = re.sub(r'[^\w]', '', m.group(1))
                key = 'impl_%s_%s' % (ty, m.group(2))
            h = getattr(self, 'm_' + key, None) if key else None
            if h is None:
                h = getattr(self, 'm_' + nm, None)
            if h is None and d.startswith('core::num::<impl '):
                h = self.int_op
            if h is None:
                h = False
            self._defcache[d] = h
            self._nm = nm
        if h is False:
            return self.model_late(st, t, inst, args, argtys, dty, fr, blk)
        c = Call(self, st, t, inst, args, argtys, dty, fr, blk)
        r = h(c)
        if r is None:
            return self.model_late(st, t, inst, args, argtys, dty, fr, blk)
        self.e.trusted.add(strip_generics(d))
        if isinstance(r, str) and r == U:
            return [(st, self.unit())]
        if isinstance(r, list):
            return r
        return [(st, r)]

    def model_late(self, st, t, inst, args, argtys, dty, fr, blk):
        d = t['def']
        if 'panicking' in d or d in ('core::option::unwrap_failed', 'core::option::expect_failed', 'core::result::unwrap_failed') or \
                d.endswith(('::unwrap_failed', '::expect_failed', 'panic_fmt', 'panic_display', 'unreachable_display')):
            return self.panic(st, d.split('::')[-1], fr, blk)
        r = self.ctor(st, t, args, dty)
        if r is not None:
            return r
        if d == 'std::process::exit' or d == 'std::process::abort':
            return []
        return None

    # ---- calls of closures
    def m_std_ops_FnOnce_call_once(self, c):
        args = self.untup_args(c)
        return self.call_fn(c.st, c.args[0], args)
    m_std_ops_FnMut_call_mut = m_std_ops_FnOnce_call_once
    m_std_ops_Fn_call = m_std_ops_FnOnce_call_once

    def untup_args(self, c):
        v = c.args[1]
        if isinstance(v, PAgg):
            return list(v.fields)
        if v.sort().eq(self.P.Unit):
            return []
        return [self.P.get(v, 0, j) for j in range(v.sort().constructor(0).arity())]

    # ---- identity-like
    def ident(self, c):
        v = c.args[0]
        if isinstance(v, MutRef) and c.dty is not None:
            t = self.P.t(c.dty)
            if t['k'] != 'ref' or not t['mut']:
                v = self.e.deref_full(c.st, v)
        return v
    m_std_ops_Deref_deref = ident
    m_std_ops_DerefMut_deref_mut = ident
    m_std_hint_must_use = ident
    m_std_borrow_ToOwned_to_owned = ident
    m_std_string_String_as_str = ident
    m_std_borrow_Borrow_borrow = ident
    m_std_path_Path_to_path_buf = ident
    m_std_convert_AsRef_as_ref = ident
    m_std_string_String_as_mut_str = ident
    m_std_vec_Vec_as_slice = ident
    m_std_vec_Vec_as_mut_slice = ident
    m_std_convert_identity = ident
    m_std_borrow_Cow_into_owned = ident
    m_std_path_PathBuf_as_path = ident
    m_std_string_String_into_boxed_str = ident
    m_impl_T_to_vec = ident
    m_std_slice_to_vec = ident
    m_std_boxed_Box_new = ident

    def m_std_clone_Clone_clone(self, c):
        v = self.e.deref_full(c.st, c.args[0])
        return v

    def m_std_string_ToString_to_string(self, c):
        v = self.e.deref_full(c.st, c.args[0])
        if is_z3(v) and v.sort().eq(self.P.Str):
            return v
        if isinstance(v, Opq) and v.what == 'dateformat' and v.data is not None:
            return v.data
        r = self.fmtarg(c, 'display').data
        return r if r is not None else self.e.fresh(self.P.Str, 'str')

    def m_std_convert_From_from(self, c):
        v = self.e.deref_full(c.st, c.args[0])
        s = self.P.sort(c.dty)
        if is_z3(v) and s is not None and v.sort().eq(s):
            return v
        if is_z3(v) and z3.is_int(v) and s is not None and s.kind() == z3.Z3_REAL_SORT:
            return z3.ToReal(v)
        if is_z3(v) and s is not None and self.P.is_dt(s) and s.name().startswith('std::option::Option<') and s.constructor(1).domain(0).eq(v.sort()):
            return s.constructor(1)(v)
        return None

    def m_std_convert_Into_into(self, c):
        r = self.m_std_convert_From_from(c)
        if r is not None:
            return r
        P = self.P
        S, D = P.t(c.t['args'][0]), P.t(c.dty)
        if D['k'] == 'adt':
            for key, f in P.F.items():
                if f['local'] and f['name'].endswith('>>::from') and f['body'] and f['body']['argc'] == 1:
                    if P.canon(f['body']['locals'][0]) == P.canon(c.dty) and P.canon(f['body']['locals'][1]) == P.canon(c.t['args'][0]):
                        return self.e.exec_fn(c.st, key, c.args)
        return None

    def m_std_default_Default_default(self, c):
        P = self.P
        t = P.t(c.dty)
        s = P.sort(c.dty)
        if s is None:
            return None
        return self.default_of(c.st, s)

    def default_of(self, st, s):
        P = self.P
        if s.eq(P.Str):
            return P.lit('')
        if s.kind() == z3.Z3_INT_SORT:
            return z3.IntVal(0)
        if s.kind() == z3.Z3_REAL_SORT:
            return z3.RealVal(0)
        if s.kind() == z3.Z3_BOOL_SORT:
            return z3.BoolVal(False)
        if P.is_vec(s):
            return self.empty_vec(st, s.accessor(0, 0).range().range())
        if P.is_map(s) or P.is_set(s):
            return self.empty_map(s)
        if s.name().startswith('std::option::Option<'):
            return s.constructor(0)()
        if s.eq(P.Unit):
            return self.unit()
        raise Unsupported('default of %s' % s)

    def empty_map(self, s):
        P = self.P
        ks = s.accessor(0, 0).range().domain()
        dom = z3.K(ks, z3.BoolVal(False))
        if P.is_set(s):
            return s.constructor(0)(dom, z3.IntVal(0))
        vs = s.accessor(0, 1).range().range()
        return s.constructor(0)(dom, self.e.fresh(z3.ArraySort(ks, vs), 'val'), z3.IntVal(0))

    # ---- comparisons
    def m_std_cmp_PartialEq_eq(self, c):
        a, b = self.e.deref_full(c.st, c.args[0]), self.e.deref_full(c.st, c.args[1])
        ty = c.t['args'][0]
        if is_z3(a) and is_z3(b) and a.sort().eq(b.sort()) and self.struct_eq_ok(ty):
            return simp(a == b)
        if self.P.t(self.P.strip(ty))['k'] == 'array' or (is_z3(a) and is_z3(b) and self.P.is_vec(a.sort())):
            r = self.e.fresh(z3.BoolSort(), 'eq')
            c.st.assume(z3.Implies(a == b, r))
            return r
        # references to something with its own PartialEq
        return self.ref_impl(c, 'eq')

    def ref_impl(self, c, meth):
        """&A == &B goes to A == B"""
        P = self.P
        ty = P.strip(c.t['args'][0])
        t = P.t(ty)
        if t['k'] == 'adt' and t['local'] and c.inst and c.inst['key'] in P.F and P.F[c.inst['key']]['body'] is None:
            for key, f in P.F.items():
                if f['local'] and f['name'].endswith('::' + meth) and f['body'] and f['body']['argc'] == len(c.args) and \
                        ('PartialEq' in f['name'] or 'PartialOrd' in f['name'] or ' Ord' in f['name'] or '::Ord' in f['name']) and \
                        P.canon(P.strip(f['body']['locals'][1])) == P.canon(ty):
                    return self.e.exec_fn(c.st, key, [self.e.deref_full(c.st, a) for a in c.args])
        return None

    def m_std_cmp_PartialEq_ne(self, c):
        r = self.m_std_cmp_PartialEq_eq(c)
        if r is None:
            return None
        if isinstance(r, list):
            return [(s, simp(z3.Not(x))) for s, x in r]
        return simp(z3.Not(r))

    def numeric(self, c):
        a, b = self.e.deref_full(c.st, c.args[0]), self.e.deref_full(c.st, c.args[1])
        if is_z3(a) and is_z3(b) and (z3.is_int(a) or z3.is_real(a)) and a.sort().eq(b.sort()):
            return a, b
        return None

    def m_std_cmp_PartialOrd_lt(self, c):
        n = self.numeric(c)
        return simp(n[0] < n[1]) if n else None

    def m_std_cmp_PartialOrd_le(self, c):
        n = self.numeric(c)
        return simp(n[0] <= n[1]) if n else None

    def m_std_cmp_PartialOrd_gt(self, c):
        n = self.numeric(c)
        return simp(n[0] > n[1]) if n else None

    def m_std_cmp_PartialOrd_ge(self, c):
        n = self.numeric(c)
        return simp(n[0] >= n[1]) if n else None

    def order(self, a, b):
        o = self.e.ordering_sort()
        return z3.If(a < b, o.constructor(0)(), z3.If(a == b, o.constructor(1)(), o.constructor(2)()))

    def m_std_cmp_Ord_cmp(self, c):
        n = self.numeric(c)
        if n:
            return self.order(*n)
        a, b = self.e.deref_full(c.st, c.args[0]), self.e.deref_full(c.st, c.args[1])
        if is_z3(a) and is_z3(b) and a.sort().eq(self.P.Str) and b.sort().eq(self.P.Str):
            o = self.e.ordering_sort()
            lt = self.uf('str_lt', [a, b], z3.BoolSort())
            return z3.If(a == b, o.constructor(1)(), z3.If(lt, o.constructor(0)(), o.constructor(2)()))
        return None

    def m_std_cmp_PartialOrd_partial_cmp(self, c):
        r = self.m_std_cmp_Ord_cmp(c)
        return self.P.some(r) if r is not None else None

    def m_impl_f64_total_cmp(self, c):
        return self.m_std_cmp_Ord_cmp(c)

    def m_std_cmp_Ord_max(self, c):
        n = self.numeric(c)
        return simp(z3.If(n[0] > n[1], n[0], n[1])) if n else None

    def m_std_cmp_Ord_min(self, c):
        n = self.numeric(c)
        return simp(z3.If(n[0] <= n[1], n[0], n[1])) if n else None

    m_std_cmp_max = m_std_cmp_Ord_max
    m_std_cmp_min = m_std_cmp_Ord_min

    def m_std_cmp_Ord_clamp(self, c):
        a, lo, hi = [self.e.deref_full(c.st, x) for x in c.args]
        if z3.is_int(a):
            self.need(c, 'clamp-bounds', lo <= hi)
            return simp(z3.If(a < lo, lo, z3.If(a > hi, hi, a)))

    def need(self, c, what, f):
        """the call panics unless f"""
        if self.e.record:
            self.e.oblige(c.st, what + '@' + c.where(), f, 'panic', self.e.panic_props(what), c.blk.get('line', ''))
        c.st.assume(f)

    # ---- integers
    def int_args(self, c):
        xs = [self.e.deref_full(c.st, a) for a in c.args]
        return xs if all(is_z3(x) and z3.is_int(x) for x in xs) else None

    def int_op(self, c):
        """methods of the integer types"""
        P, xs = self.P, self.int_args(c)
        if xs is None:
            return None
        m = re.search(r'<impl ([iu])(\d+|size)>::(\w+)$', c.t['def'])
        if not m:
            return None
        lo, hi = INT_RANGE[(m.group(1) + m.group(2)).capitalize()] if (m.group(1) + m.group(2)).capitalize() in INT_RANGE else (None, None)
        if lo is None:
            return None
        op, a = m.group(3), xs[0]
        b = xs[1] if len(xs) > 1 else None
        const = b is not None and z3.is_int_value(b) and b.as_long() > 0
        inr = lambda r: z3.And(r >= lo, r <= hi)
        mabs = lambda x: z3.If(x >= 0, x, -x)
        raw = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'neg': lambda: -a, 'abs': lambda: mabs(a)}
        if op in ('add_signed', 'add_unsigned', 'sub_unsigned'):
            return None
        if op == 'abs':
            self.need(c, 'no-overflow', a > lo)
            return simp(mabs(a))
        if op == 'unsigned_abs':
            return simp(mabs(a))
        if op == 'abs_diff':
            return simp(mabs(a - b))
        if op == 'signum':
            return simp(z3.If(a > 0, z3.IntVal(1), z3.If(a < 0, z3.IntVal(-1), z3.IntVal(0))))
        if op == 'is_positive':
            return simp(a > 0)
        if op == 'is_negative':
            return simp(a < 0)
        if op == 'div_euclid' and const:
            return simp(a / b)
        if op == 'rem_euclid' and const:
            return simp(a % b)
        if op == 'div_ceil' and const:
            return simp(-((-a) / b))
        k, _, w = op.partition('_')
        if w in raw and not (w == 'mul' and not (is_num(a) or is_num(b))):
            r = simp(raw[w]())
            if k == 'checked':
                o = P.sort(c.dty)
                return simp(z3.If(inr(r), P.some(r), P.none(z3.IntSort())))
            if k == 'saturating':
                return simp(z3.If(r < lo, z3.IntVal(lo), z3.If(r > hi, z3.IntVal(hi), r)))
            if k == 'wrapping':
                return simp((r - lo) % (hi - lo + 1) + lo)
        if k == 'checked' and w in ('div', 'rem', 'div_euclid', 'rem_euclid') and const:
            r = {'div': lambda: z3.If(a >= 0, a / b, -((-a) / b)), 'rem': lambda: z3.If(a >= 0, a % b, -((-a) % b)),
                 'div_euclid': lambda: a / b, 'rem_euclid': lambda: a % b}[w]()
            return P.some(simp(r))
        return None

    # ---- f64
    def m_impl_f64_abs(self, c):
        x = c.args[0]
        return simp(z3.If(x >= 0, x, -x))

    def m_impl_f64_min(self, c):
        a, b = c.args
        return simp(z3.If(a <= b, a, b))

    def m_impl_f64_max(self, c):
        a, b = c.args
        return simp(z3.If(a >= b, a, b))

    def m_impl_f64_clamp(self, c):
        a, lo, hi = c.args
        self.need(c, 'clamp-bounds', lo <= hi)
        return simp(z3.If(a < lo, lo, z3.If(a > hi, hi, a)))

    def m_impl_f64_round(self, c):
        x = c.args[0]
        return z3.ToReal(z3.If(x >= 0, z3.ToInt(x + z3.RealVal('1/2')), -z3.ToInt(-x + z3.RealVal('1/2'))))

    def m_impl_f64_floor(self, c):
        return z3.ToReal(z3.ToInt(c.args[0]))

    def m_impl_f64_is_nan(self, c):
        return z3.BoolVal(False)

    def m_impl_f64_is_finite(self, c):
        return z3.BoolVal(True)

    def m_impl_f64_is_infinite(self, c):
        return z3.BoolVal(False)

    def m_impl_f64_is_sign_negative(self, c):
        self.e.assumptions.add('negative zero is not distinguished from zero')
        return simp(c.args[0] < 0)

    def m_impl_f64_is_sign_positive(self, c):
        return simp(c.args[0] >= 0)

    def m_impl_f64_signum(self, c):
        x = c.args[0]
        return z3.If(x >= 0, z3.RealVal(1), z3.RealVal(-1))

    def m_impl_f64_copysign(self, c):
        x, y = c.args
        a = z3.If(x >= 0, x, -x)
        return z3.If(y >= 0, a, -a)

    # operators on &f64, dates, durations
    def texts(self, c):
        a = [self.e.deref_full(c.st, x) for x in c.args[:2]]
        return a if all(is_z3(x) and x.sort().eq(self.P.Str) for x in a) else None

    def m_std_ops_Add_add(self, c):
        t = self.texts(c)
        if t:
            return self.cat(t)
        return self.arith(c, lambda a, b: a + b)

    def m_std_ops_Sub_sub(self, c):
        return self.arith(c, lambda a, b: a - b)

    def arith(self, c, op):
        n = self.numeric(c)
        if not n:
            return None
        r = simp(op(*n))
        t = self.P.t(c.t['args'][0])
        tt = self.P.t(self.P.strip(c.t['args'][0]))
        if tt['k'] in ('int', 'uint'):
            lo, hi = INT_RANGE[tt['n']]
            self.e.oblige(c.st, 'no-overflow@' + c.where(), z3.And(r >= lo, r <= hi), 'panic', self.e.panic_props('overflow'))
            c.st.assume(z3.And(r >= lo, r <= hi))
        if tt['k'] == 'adt' and tt['name'] == 'chrono::NaiveDate' and self.P.t(self.P.strip(c.dty))['name'] == 'chrono::NaiveDate':
            w = self.e.fresh(z3.IntSort(), 'date')
            c.st.assume(w == r)
            self.date_facts(c.st, w)
            self.e.assumptions.add('date arithmetic stays within chrono\'s range of years')
            return w
        return r

    def m_std_ops_Mul_mul(self, c):
        n = self.numeric(c)
        if not n:
            return None
        return self.e.binop(c.st, 'Mul', n[0], n[1], None, None)

    def m_std_ops_Neg_neg(self, c):
        a = self.e.deref_full(c.st, c.args[0])
        if is_z3(a) and (z3.is_real(a) or z3.is_int(a)):
            return simp(-a)

    def m_std_ops_AddAssign_add_assign(self, c):
        t = self.texts(c)
        if t and isinstance(c.args[0], MutRef):
            self.e.write_ref(c.st, c.args[0], self.cat(t))
            return U
        return self.arith_assign(c, lambda a, b: a + b)

    def m_std_ops_SubAssign_sub_assign(self, c):
        return self.arith_assign(c, lambda a, b: a - b)

    def arith_assign(self, c, op):
        n = self.numeric(c)
        if not n or not isinstance(c.args[0], MutRef):
            return None
        r = simp(op(*n))
        tt = self.P.t(self.P.strip(c.t['args'][0]))
        if tt['k'] == 'adt':
            w = self.e.fresh(z3.IntSort(), 'date')
            c.st.assume(w == r)
            self.date_facts(c.st, w)
            r = w
        self.e.write_ref(c.st, c.args[0], r)
        return U

    # ---- chrono
    def m_chrono_Local_now(self, c):
        # only the date is modelled, and it is one and the same for the whole run
        self.e.assumptions.add('the local date does not change while silverfox runs')
        return Opq('now')

    def m_chrono_Utc_now(self, c):
        self.e.nondet = True
        return Opq('utcnow')

    def m_chrono_DateTime_date_naive(self, c):
        v = self.e.deref_full(c.st, c.args[0])
        if isinstance(v, Opq) and v.what == 'now':
            return self.TODAY
        return None

    def m_chrono_NaiveDate_from_ymd_opt(self, c):
        y, m, d = c.args
        return self.mkdate(c.st, 12 * y + m - 1, d, z3.And(m >= 1, m <= 12))

    def m_chrono_Datelike_year(self, c):
        d = c.d(0)
        mi, _ = self.date_facts(c.st, d)
        return mi / 12

    def m_chrono_Datelike_month(self, c):
        mi, _ = self.date_facts(c.st, c.d(0))
        return mi % 12 + 1

    def m_chrono_Datelike_month0(self, c):
        mi, _ = self.date_facts(c.st, c.d(0))
        return mi % 12

    def m_chrono_Datelike_day(self, c):
        _, day = self.date_facts(c.st, c.d(0))
        return day

    def m_chrono_Datelike_day0(self, c):
        _, day = self.date_facts(c.st, c.d(0))
        return day - 1

    def m_chrono_Datelike_with_day(self, c):
        mi, _ = self.date_facts(c.st, c.d(0))
        return self.mkdate(c.st, mi, c.args[1], z3.BoolVal(True))

    def m_chrono_Datelike_with_month(self, c):
        mi, day = self.date_facts(c.st, c.d(0))
        m = c.args[1]
        return self.mkdate(c.st, 12 * (mi / 12) + m - 1, day, z3.And(m >= 1, m <= 12))

    def m_chrono_Datelike_with_year(self, c):
        mi, day = self.date_facts(c.st, c.d(0))
        return self.mkdate(c.st, 12 * c.args[1] + mi % 12, day, z3.BoolVal(True))

    def m_chrono_Datelike_weekday(self, c):
        return self.weekday(c.d(0), self.P.sort(c.dty))

    def m_chrono_Weekday_num_days_from_monday(self, c):
        return self.weekday_num(c.d(0))

    def m_chrono_NaiveDate_pred_opt(self, c):
        w = self.e.fresh(z3.IntSort(), 'date')
        c.st.assume(w == c.d(0) - 1)
        self.date_facts(c.st, w)
        self.e.assumptions.add('date arithmetic stays within chrono\'s range of years')
        return self.P.some(w)

    def m_chrono_NaiveDate_succ_opt(self, c):
        w = self.e.fresh(z3.IntSort(), 'date')
        c.st.assume(w == c.d(0) + 1)
        self.date_facts(c.st, w)
        return self.P.some(w)

    def m_chrono_NaiveDate_signed_duration_since(self, c):
        return simp(c.d(0) - c.d(1))

    def m_chrono_TimeDelta_days(self, c):
        return c.args[0]

    def m_chrono_TimeDelta_weeks(self, c):
        return simp(7 * c.args[0])

    def m_chrono_TimeDelta_num_days(self, c):
        return c.d(0)

    def m_chrono_TimeDelta_num_weeks(self, c):
        a = c.d(0)
        return simp(z3.If(a >= 0, a / 7, -((-a) / 7)))

    def m_chrono_NaiveDate_format(self, c):
        v, f = c.d(0), c.d(1)
        return Opq('dateformat', self.uf('format_date', [v, f], self.P.Str) if is_z3(v) and is_z3(f) else None)

    def m_chrono_NaiveDate_parse_from_str(self, c):
        s = self.P.sort(c.dty)
        r = self.uf('parse_date', [c.d(0), c.d(1)], s)
        self.date_facts(c.st, self.P.get(r, 0, 0))
        return r

    # ---- strings
    def charpat(self, st, f):
        """a predicate of characters used as a pattern, by what it says of a character"""
        if is_z3(f) or not isinstance(f, (FnVal, PAgg)):
            return f
        x = z3.Const('pattern_char', z3.IntSort())
        try:
            outs = self.call_fn(st.copy(), f, [x])
        except Unsupported:
            return f
        if len(outs) != 1 or not is_z3(outs[0][1]) or not z3.is_bool(outs[0][1]):
            return f
        return self.pattern(simp(outs[0][1]))

    def charpat_of(self, fn):
        return self.pattern(simp(fn(z3.Const('pattern_char', z3.IntSort()))))

    def pattern(self, b):
        if not hasattr(self, '_pats'):
            self._pats = []
        for (b2, k) in self._pats:
            if b2.eq(b):
                return k
        k = z3.Const('pattern:%s' % b.sexpr().replace(' ', '_')[:80], z3.DeclareSort('CharPredicate'))
        self._pats.append((b, k))
        return k

    def strfn(self, c, name, *extra):
        """an uninterpreted function of the string and the pattern"""
        P = self.P
        a = [c.d(i) for i in range(len(c.args))]
        a = [self.charpat(c.st, x) for x in a]
        s = P.sort(c.dty)
        if s is None:
            raise Unsupported('string function ' + name)
        if all(is_z3(x) for x in a):
            return self.uf(name, a, s)
        return self.e.fresh(s, name)

    def m_impl_str_trim(self, c, name='trim'):
        r = self.strfn(c, name)
        x = c.d(0)
        # (trusted) trimming twice changes nothing more; what a string does not contain, no part of it does
        c.st.assume(self.uf(name, [r], self.P.Str) == r)
        c.st.assume(self.uf(name, [self.P.lit('')], self.P.Str) == self.P.lit(''))
        for (nm, srt) in (('split_whitespace_n', z3.IntSort()), ('split_whitespace_arr', z3.ArraySort(z3.IntSort(), self.P.Str))):
            c.st.assume(self.uf(nm, [r], srt) == self.uf(nm, [x], srt))
        for p in self.sought():
            f = lambda v: self.P.isv(self.uf('find', [v, p], self.P.opt(z3.IntSort())), 1)
            c.st.assume(z3.Implies(f(r), f(x)))
        return r

    def sought(self):
        return [self.P.lit('//'), z3.IntVal(ord(';'))]

    def m_impl_str_trim_start(self, c):
        return self.m_impl_str_trim(c, 'trim_start')

    def m_impl_str_trim_end(self, c):
        return self.m_impl_str_trim(c, 'trim_end')

    def m_impl_str_trim_matches(self, c):
        return self.strfn(c, 'trim_matches')

    def m_impl_str_to_lowercase(self, c):
        return self.strfn(c, 'to_lowercase')

    def m_impl_str_replace(self, c):
        return self.strfn(c, 'replace')

    def m_impl_str_repeat(self, c):
        return self.strfn(c, 'repeat')

    def m_impl_str_contains(self, c):
        return self.strfn(c, 'contains')

    def m_impl_str_starts_with(self, c):
        x, k = c.d(0), self.charpat(c.st, c.d(1))
        if is_z3(x) and is_z3(k) and not k.sort().eq(self.P.Str):
            # a character, or a predicate of characters: what the first character is
            I = z3.IntSort()
            ca, cn = self.uf('chars_arr', [x], z3.ArraySort(I, I)), self.uf('chars_n', [x], I)
            first = ca[0] == k if z3.is_int(k) else None
            for (b, k2) in getattr(self, '_pats', []):
                if k2.eq(k):
                    first = z3.substitute(b, (z3.Const('pattern_char', I), ca[0]))
            if first is not None:
                c.st.assume(cn >= 0)
                c.st.assume((cn == 0) == (x == self.P.lit('')))
                return simp(z3.And(cn > 0, first))
        return self.strfn(c, 'starts_with')

    def m_impl_str_ends_with(self, c):
        return self.strfn(c, 'ends_with')

    def patlen(self, st, p):
        if is_z3(p) and p.sort().eq(self.P.Str):
            return self.strlen(st, p)
        if z3.is_int_value(p):
            return z3.IntVal(len(chr(p.as_long()).encode()))
        if is_z3(p):
            return self.uf('utf8_len', [p], z3.IntSort())
        return None

    def bnd(self, s, i):
        return self.uf('char_boundary', [s, i], z3.BoolSort())

    def m_impl_str_find(self, c, name='find'):
        P = self.P
        s = c.d(0)
        r = self.strfn(c, name)
        i = P.get(r, 1, 0)
        ln = self.strlen(c.st, s)
        pl = self.patlen(c.st, c.d(1)) if is_z3(c.d(1)) else None
        f = [i >= 0, i <= ln, self.bnd(s, i)]
        if pl is not None:
            c.st.assume(z3.And(pl >= 0, pl <= 4) if not (is_z3(c.d(1)) and c.d(1).sort().eq(P.Str)) else pl >= 0)
            f += [i + pl <= ln, self.bnd(s, simp(i + pl))]
        else:
            f += [i < ln]
        c.st.assume(z3.Implies(P.isv(r, 1), z3.And(*f)))
        return r

    def m_impl_str_rfind(self, c):
        r = self.m_impl_str_find(c, 'rfind')
        # an occurrence exists for rfind exactly when one exists for find
        if is_z3(c.d(1)):
            g = self.uf('find', [c.d(0), c.d(1)], r.sort())
            c.st.assume(self.P.isv(r, 1) == self.P.isv(g, 1))
            c.st.assume(z3.Implies(self.P.isv(r, 1), self.P.get(r, 1, 0) >= self.P.get(g, 1, 0)))
        return r

    def m_impl_str_len(self, c):
        return self.strlen(c.st, c.d(0))

    def m_std_string_String_len(self, c):
        return self.strlen(c.st, c.d(0))

    def m_impl_str_is_empty(self, c):
        self.strlen(c.st, c.d(0))
        return simp(c.d(0) == self.P.lit(''))
    m_std_string_String_is_empty = m_impl_str_is_empty

    def m_std_string_String_new(self, c):
        return self.P.lit('')
    m_std_path_PathBuf_new = m_std_string_String_new

    def m_std_string_String_with_capacity(self, c):
        return self.P.lit('')

    def m_std_string_String_push_str(self, c):
        v = self.e.resolve(c.st, c.args[0])
        self.e.write_ref(c.st, c.args[0], self.cat([v, c.d(1)]))
        return U

    def charstr(self, st, x):
        r = self.uf('str_of_char', [x], self.P.Str)
        x = simp(x)
        if z3.is_int_value(x) and 0 < x.as_long() < 0xd800:
            l = self.P.lit(chr(x.as_long()))
            st.assume(r == l)
            return l
        return r

    def m_std_string_String_push(self, c):
        v = self.e.resolve(c.st, c.args[0])
        self.e.write_ref(c.st, c.args[0], self.cat([v, self.charstr(c.st, c.args[1])]))
        return U

    def m_std_string_String_clear(self, c):
        self.e.write_ref(c.st, c.args[0], self.P.lit(''))
        return U

    def m_impl_str_strip_prefix(self, c):
        r = self.strfn(c, 'strip_prefix')
        if is_z3(c.d(1)):
            c.st.assume(self.P.isv(r, 1) == self.uf('starts_with', [c.d(0), c.d(1)], z3.BoolSort()))
        return r

    def m_impl_str_split_once(self, c):
        return self.strfn(c, 'split_once')

    def m_impl_str_parse(self, c):
        P = self.P
        ty = c.t['args'][0]
        t = P.t(ty)
        if t['k'] == 'adt' and t['local']:
            for key, f in P.F.items():
                if f['local'] and f['body'] and 'FromStr>::from_str' in f['name'] and P.canon(f['body']['locals'][0]) == P.canon(c.dty):
                    return self.e.exec_fn(c.st, key, c.args)
            return None
        s = P.sort(c.dty)
        if s is None:
            raise Unsupported('parse into ' + P.canon(ty))
        r = self.uf('parse', [c.d(0)], s)
        self.e.int_range(c.st, P.get(r, 0, 0), ty)
        return r

    def m_std_str_FromStr_from_str(self, c):
        s = self.P.sort(c.dty)
        r = self.uf('parse', [c.d(0)], s)
        t = self.P.t(c.dty)
        if t['k'] == 'adt' and t.get('args'):
            self.e.int_range(c.st, self.P.get(r, 0, 0), t['args'][0])
        return r

    def strseq(self, c, name, es, minlen=0):
        a = [c.d(i) for i in range(len(c.args))]
        if not all(is_z3(x) for x in a):
            arr, ln = self.e.fresh(z3.ArraySort(z3.IntSort(), es), name), self.e.fresh(z3.IntSort(), name + '_n')
        else:
            arr = self.uf(name + '_arr', a, z3.ArraySort(z3.IntSort(), es))
            ln = self.uf(name + '_n', a, z3.IntSort())
        c.st.assume(z3.And(ln >= minlen, ln <= 2**31 - 1))
        self.e.text_touch(c.st, arr)
        return It('seq', arr, z3.IntVal(0), ln)

    def m_impl_str_lines(self, c):
        return self.strseq(c, 'lines', self.P.Str)

    def m_impl_str_split_whitespace(self, c):
        it = self.strseq(c, 'split_whitespace', self.P.Str)
        x = c.d(0)
        if is_z3(x):
            # (trusted) a string has no words exactly where nothing is left of it when trimmed
            c.st.assume((it.f[2] == 0) == (self.uf('trim', [x], self.P.Str) == self.P.lit('')))
            c.st.assume(self.uf('trim', [self.P.lit('')], self.P.Str) == self.P.lit(''))
        return it

    def m_impl_str_split(self, c):
        return self.strseq(c, 'split', self.P.Str, 1)

    def m_impl_str_rsplit(self, c):
        return self.strseq(c, 'rsplit', self.P.Str, 1)

    def m_impl_str_splitn(self, c):
        return self.strseq(c, 'splitn', self.P.Str)

    def m_impl_str_chars(self, c):
        it = self.strseq(c, 'chars', z3.IntSort())
        s = c.d(0)
        self.strlen(c.st, s)
        c.st.assume((it.f[2] == 0) == (s == self.P.lit('')))
        return it

    def m_impl_str_char_indices(self, c):
        return None

    def m_impl_char_is_ascii_digit(self, c):
        x = c.d(0)
        return simp(z3.And(x >= 48, x <= 57))

    def m_impl_char_is_whitespace(self, c):
        x = c.d(0)
        return self.uf('is_whitespace', [x], z3.BoolSort())

    def m_impl_char_is_alphabetic(self, c):
        return self.uf('is_alphabetic', [c.d(0)], z3.BoolSort())

    def m_impl_char_is_numeric(self, c):
        return self.uf('is_numeric', [c.d(0)], z3.BoolSort())

    def m_impl_T_join(self, c):
        v = c.d(0)
        if is_z3(v):
            arr, ln = self.P.vparts(v)
            r = self.uf('join', [arr, ln, c.d(1)], self.P.sort(c.dty))
            if r.sort().eq(self.P.Str) and arr.sort().range().eq(self.P.Str):
                c.st.assume(z3.And(z3.Implies(ln == 0, r == self.P.lit('')), z3.Implies(ln == 1, r == simp_select(arr, z3.IntVal(0)))))
            return r
        return self.e.fresh(self.P.Str, 'join')

    # ---- formatting and printing: no effect on what is verified, except through what is written
    def opq(self, c):
        s = self.P.sort(c.dty) if c.dty is not None else None
        if s is not None:
            return self.e.fresh(s, 'fmt')
        return Opq('fmt')

    def fmtarg(self, c, how):
        v = self.e.deref_full(c.st, c.args[0])
        if not is_z3(v):
            return Opq('fmtarg', v.data if isinstance(v, Opq) and v.what == 'dateformat' and how == 'display' else None)
        if v.sort().eq(self.P.Str) and how == 'display':
            return Opq('fmtarg', v)
        kind = self.P.t(self.P.strip(c.argtys[0]))['k'] if c.argtys and c.argtys[0] is not None else ''
        if kind == 'char' and how == 'display':
            return Opq('fmtarg', self.charstr(c.st, v))
        return Opq('fmtarg', self.uf('%s_%s' % (how, kind), [v], self.P.Str))

    def m_core_fmt_rt_Argument_new_display(self, c):
        return self.fmtarg(c, 'display')

    def m_core_fmt_rt_Argument_new_debug(self, c):
        return self.fmtarg(c, 'debug')
    m_core_fmt_rt_Argument_from_usize = opq

    def cat(self, parts):
        """strings one after the other; the same term however they were put together"""
        flat = []

        def put(x):
            if z3.is_app(x) and x.decl().name().startswith('concat:'):
                put(x.arg(0))
                put(x.arg(1))
            elif x.eq(self.P.lit('')):
                pass
            elif flat and self.P.lit_of(flat[-1]) is not None and self.P.lit_of(x) is not None:
                flat[-1] = self.P.lit(self.P.lit_of(flat[-1]) + self.P.lit_of(x))
            else:
                flat.append(x)
        for x in parts:
            put(x)
        if not flat:
            return self.P.lit('')
        r = flat[0]
        for x in flat[1:]:
            r = self.uf('concat', [r, x], self.P.Str)
        return r

    def m_std_fmt_Arguments_new(self, c):
        """the text a template and its arguments make, where they are known (the template is that of core::fmt)"""
        t, a = self.e.deref_full(c.st, c.args[0]), self.e.deref_full(c.st, c.args[1])
        if not (isinstance(t, Opq) and t.what == 'bytes' and t.data is not None and isinstance(a, Opq) and a.what == 'array'):
            return Opq('fmt')
        args = [self.e.deref_full(c.st, x) for x in a.data]
        b, i, k, parts = t.data, 0, 0, []
        try:
            while b[i] != 0:
                n = b[i]
                if n < 0x80:
                    parts.append(self.P.lit(b[i + 1:i + 1 + n].decode()))
                    i += 1 + n
                elif n == 0x80:
                    n = b[i + 1] + 256 * b[i + 2]
                    parts.append(self.P.lit(b[i + 3:i + 3 + n].decode()))
                    i += 3 + n
                elif n >= 0xc0:
                    opts = b[i + 1:i + 1 + 4 * (n & 1) + 2 * (n >> 1 & 1) + 2 * (n >> 2 & 1)]
                    i += 1 + len(opts)
                    if n & 0x30:
                        return Opq('fmt')
                    if n & 8:
                        k = b[i] + 256 * b[i + 1]
                        i += 2
                    x = args[k]
                    k += 1
                    if not (isinstance(x, Opq) and x.what == 'fmtarg' and x.data is not None):
                        return Opq('fmt')
                    fl = int.from_bytes(opts[:4], 'little') if n & 7 == 3 else 0
                    plain = not (z3.is_app(x.data) and x.data.decl().name().startswith(('display_', 'debug_')))
                    if plain and fl & 0x1fffffff == 0x8000020 and fl >> 29 & 3 in (0, 3):
                        # a string of at least some width: spaces behind it
                        parts.append(self.uf('padded', [x.data], self.P.Str))
                        continue
                    parts.append(x.data if not opts else self.uf('with_options_%d_%s' % (n & 7, opts.hex()), [x.data], self.P.Str))
                else:
                    return Opq('fmt')
        except (IndexError, UnicodeDecodeError):
            return Opq('fmt')
        return Opq('fmt', self.cat(parts))

    def m_std_fmt_Arguments_from_str(self, c):
        v = self.e.deref_full(c.st, c.args[0])
        return Opq('fmt', v if is_z3(v) and v.sort().eq(self.P.Str) else None)
    m_std_fmt_Arguments_from_str_nonconst = m_std_fmt_Arguments_from_str

    def fmttext(self, c, x):
        v = self.e.deref_full(c.st, x)
        return v.data if isinstance(v, Opq) and v.what == 'fmt' and v.data is not None else self.e.fresh(self.P.Str, 'fmt')

    def written(self, c, ref, x):
        """the formatter has this text more (where writing succeeds)"""
        v = self.e.deref_full(c.st, ref)
        if isinstance(ref, MutRef) and is_z3(v) and v.sort().eq(self.P.Str):
            while isinstance(self.e.resolve(c.st, ref), MutRef):
                ref = self.e.resolve(c.st, ref)
            self.e.write_ref(c.st, ref, self.cat([v, x]) if x is not None else self.e.fresh(self.P.Str, 'written'))
        return self.opq(c)

    def m_std_fmt_Formatter_write_fmt(self, c):
        return self.written(c, c.args[0], self.fmttext(c, c.args[1]))

    def m_std_fmt_Formatter_write_str(self, c):
        x = c.d(1)
        return self.written(c, c.args[0], x if is_z3(x) and x.sort().eq(self.P.Str) else None)
    m_std_fmt_Formatter_pad = m_std_fmt_Formatter_write_str      # (contracts on what is printed are about formatters without options)

    def m_std_fmt_Formatter_write_char(self, c):
        return self.written(c, c.args[0], self.charstr(c.st, c.args[1]) if is_z3(c.args[1]) else None)

    def m_std_fmt_Formatter_sign_plus(self, c):
        return z3.Bool('with_sign')

    def m_std_fmt_Display_fmt(self, c):
        return self.written(c, c.args[1], self.fmtarg(c, 'display').data)

    def m_std_fmt_Debug_fmt(self, c):
        return self.written(c, c.args[1], self.fmtarg(c, 'debug').data)
    m_std_path_Path_display = opq
    m_terminal_size_terminal_size = opq

    def m_std_fmt_format(self, c):
        return self.fmttext(c, c.args[0])

    def m_std_io__print(self, c):
        return U
    m_std_io__eprint = m_std_io__print

    def m_std_fmt_Write_write_fmt(self, c):
        r = c.args[0]
        v = self.e.deref_full(c.st, r)
        if isinstance(r, MutRef) and is_z3(v) and v.sort().eq(self.P.Str):
            self.e.write_ref(c.st, r, self.cat([v, self.fmttext(c, c.args[1])]))
        return self.e.fresh(self.P.sort(c.dty), 'fmt')

    # ---- files and environment
    def m_std_fs_read_to_string(self, c):
        self.e.nondet = True
        r = self.e.fresh(self.P.sort(c.dty), 'file')
        path = c.d(0)
        if is_z3(path) and path.sort().eq(self.P.Str):
            c.st.known['reads'] = c.st.known.get('reads', ()) + ((path, r),)
        return r

    def m_std_env_current_dir(self, c):
        self.e.nondet = True
        return self.e.fresh(self.P.sort(c.dty), 'cwd')

    def m_std_env_set_current_dir(self, c):
        return self.e.fresh(self.P.sort(c.dty), 'chdir')

    def m_std_env_var(self, c):
        self.e.nondet = True
        s = self.P.sort(c.dty)
        if s is None:
            raise Unsupported('env::var')
        return self.e.fresh(s, 'env')

    def m_std_path_Path_parent(self, c):
        # None only for the root or an empty path, neither of which can be read as a file
        self.e.assumptions.add('Path::parent of a path that was read as a file is Some')
        return self.P.some(self.uf('parent', [c.d(0)], self.P.Str))

    def m_std_fs_OpenOptions_new(self, c):
        return Opq('openopts', ())

    def openflag(self, c, name):
        v = self.e.deref_full(c.st, c.args[0])
        on = is_true(simp(c.args[1]))
        fl = tuple(x for x in v.data if x != name) + ((name,) if on else ())
        self.e.write_ref(c.st, c.args[0], Opq('openopts', fl))
        return c.args[0]

    def m_std_fs_OpenOptions_append(self, c):
        return self.openflag(c, 'append')

    def m_std_fs_OpenOptions_write(self, c):
        return self.openflag(c, 'write')

    def m_std_fs_OpenOptions_read(self, c):
        return self.openflag(c, 'read')

    def m_std_fs_OpenOptions_truncate(self, c):
        return self.openflag(c, 'truncate')

    def m_std_fs_OpenOptions_create(self, c):
        return self.openflag(c, 'create')

    def m_std_fs_OpenOptions_open(self, c):
        v = self.e.deref_full(c.st, c.args[0])
        s1, s2 = c.st, c.st.copy()
        if 'truncate' in v.data:
            self.io_event(s1, True)
        err = self.P.opaque('std::io::Error')
        return [(s1, PAgg(c.dty, 0, (Opq('file', (v.data, c.d(1))),))), (s2, PAgg(c.dty, 1, (self.e.fresh(err, 'ioerr'),)))]

    def file_write(self, c):
        v = self.e.deref_full(c.st, c.args[0])
        if not (isinstance(v, Opq) and v.what == 'file'):
            return None
        bad = 'append' not in v.data[0] or 'truncate' in v.data[0]
        if bad:
            self.io_event(c.st, True)
        else:
            # only to the journal, and only what was read back before
            good = c.st.heap[('tested',)]
            j = self.journal()
            if j is not None:
                good = z3.And(good, v.data[1] == j) if is_z3(v.data[1]) else z3.BoolVal(False)
            # and that after a line break, where it is known
            x = self.e.deref_full(c.st, c.args[1])
            x = x.data if isinstance(x, Opq) and x.what == 'fmt' else x
            if is_z3(x) and not x.sort().eq(self.P.Str) and z3.is_app(x) and x.decl().name().startswith('as_bytes'):
                x = x.arg(0)
            if is_z3(x) and x.sort().eq(self.P.Str):
                t = c.st.heap[('tested_text',)]
                nl = self.P.lit('\n')
                good = z3.And(good, z3.Or(x == self.cat([nl, t]), x == self.cat([nl, t, nl])))
            self.io_event(c.st, simp(z3.Not(good)))
            c.st.heap[('tested',)] = z3.BoolVal(False)
        s = self.P.sort(c.dty)
        return self.e.fresh(s, 'io')

    def m_std_io_Write_write_fmt(self, c):
        return self.file_write(c)
    m_std_io_Write_write_all = m_std_io_Write_write_fmt
    m_std_io_Write_write = m_std_io_Write_write_fmt

    def m_std_io_Write_flush(self, c):
        return self.e.fresh(self.P.sort(c.dty), 'io')

    def bad_io(self, c):
        self.io_event(c.st, True)
        s = self.P.sort(c.dty)
        if s is None:
            raise Unsupported(c.t['def'])
        return self.e.fresh(s, 'io')

    m_std_fs_write = bad_io
    m_std_fs_remove_file = bad_io
    m_std_fs_rename = bad_io
    m_std_fs_copy = bad_io
    m_std_fs_File_set_len = bad_io

    def m_std_fs_File_create(self, c):
        self.io_event(c.st, True)
        err = self.P.opaque('std::io::Error')
        s2 = c.st.copy()
        return [(c.st, PAgg(c.dty, 0, (Opq('file', (('write',), c.d(0))),))), (s2, PAgg(c.dty, 1, (self.e.fresh(err, 'ioerr'),)))]

    # ---- vec
    def m_std_vec_Vec_new(self, c):
        s = self.P.sort(c.dty)
        if s is None:
            raise Unsupported('Vec of non-values')
        return self.empty_vec(c.st, s.accessor(0, 0).range().range())
    m_std_vec_Vec_with_capacity = m_std_vec_Vec_new
    m_std_collections_VecDeque_new = m_std_vec_Vec_new
    m_std_collections_LinkedList_new = m_std_vec_Vec_new

    def m_std_vec_Vec_push(self, c):
        r = c.args[0]
        while isinstance(self.e.resolve(c.st, r), MutRef):
            r = self.e.resolve(c.st, r)
        v = self.e.resolve(c.st, r)
        if not is_z3(v) or not is_z3(c.args[1]):
            raise Unsupported('push of a non-value')
        self.e.write_ref(c.st, r, self.vec_push(c.st, v, c.args[1]))
        return U
    m_std_collections_VecDeque_push_back = m_std_vec_Vec_push
    m_std_collections_LinkedList_push_back = m_std_vec_Vec_push

    def m_std_collections_VecDeque_pop_front(self, c):
        P, e = self.P, self.e
        v = e.resolve(c.st, c.args[0])
        arr, ln = e.seen_vec(c.st, v)
        outs = []
        for (s, more) in e.branch(c.st, [(simp(ln > 0), True), (simp(ln <= 0), False)]):
            if not more:
                outs.append((s, self.mk_opt(c.dty, None)))
                continue
            e.touch(s, arr, z3.IntVal(0), ln)
            x = simp_select(arr, z3.IntVal(0))
            arr2, n1 = e.fresh(arr.sort(), 'tail'), simp(ln - 1)
            e.event(s, ('perm', arr, ln, arr2))
            s.assume(z3.Select(arr2, n1) == x)
            e.touch(s, arr2, n1, ln)
            for g in e.ctxg.values():
                if g.sort().eq(z3.IntSort()):
                    s.assume(z3.Implies(z3.And(g >= 0, g < n1), z3.Select(arr2, g) == z3.Select(arr, g + 1)))
            w2 = P.mkvec(arr2, n1)
            e.seen_vec(s, w2)
            e.write_ref(s, c.args[0], w2)
            outs.append((s, self.mk_opt(c.dty, x)))
        return outs

    def m_std_vec_Vec_pop(self, c):
        P, e = self.P, self.e
        v = e.resolve(c.st, c.args[0])
        arr, ln = e.seen_vec(c.st, v)
        outs = []
        for (s, more) in e.branch(c.st, [(simp(ln > 0), True), (simp(ln <= 0), False)]):
            if not more:
                outs.append((s, self.mk_opt(c.dty, None)))
                continue
            i = simp(ln - 1)
            e.touch(s, arr, i, ln)
            e.write_ref(s, c.args[0], P.mkvec(arr, i))
            outs.append((s, self.mk_opt(c.dty, simp_select(arr, i))))
        return outs

    def m_std_vec_Vec_insert(self, c):
        # the elements with one more, in another order
        P, e = self.P, self.e
        v, i = e.resolve(c.st, c.args[0]), c.args[1]
        arr, ln = e.seen_vec(c.st, v)
        outs = []
        for (s, ok) in e.branch(c.st, [(simp(i <= ln), True), (simp(i > ln), False)]):
            if not ok:
                outs += self.panic(s, 'insert beyond the end', c.fr, c.blk)
                continue
            w = self.vec_push(s, v, c.args[2])
            a1, n1 = P.vparts(w)
            arr2 = e.fresh(arr.sort(), 'ins')
            e.event(s, ('perm', a1, n1, arr2))
            s.assume(z3.Select(arr2, i) == c.args[2])
            w2 = P.mkvec(arr2, n1)
            e.seen_vec(s, w2)
            e.write_ref(s, c.args[0], w2)
            outs.append((s, self.unit()))
        return outs

    def m_std_vec_Vec_remove(self, c):
        P, e = self.P, self.e
        v, i = e.resolve(c.st, c.args[0]), c.args[1]
        arr, ln = e.seen_vec(c.st, v)
        outs = []
        for (s, ok) in e.branch(c.st, [(simp(i < ln), True), (simp(i >= ln), False)]):
            if not ok:
                outs += self.panic(s, 'remove beyond the end', c.fr, c.blk)
                continue
            e.touch(s, arr, i, ln)
            x = simp_select(arr, i)
            arr2 = e.fresh(arr.sort(), 'rem')
            e.event(s, ('perm', arr, ln, arr2))
            n1 = simp(ln - 1)
            s.assume(z3.Select(arr2, n1) == x)
            e.touch(s, arr2, n1, ln)
            w2 = P.mkvec(arr2, n1)
            e.seen_vec(s, w2)
            e.write_ref(s, c.args[0], w2)
            outs.append((s, x))
        return outs
    m_std_vec_Vec_swap_remove = m_std_vec_Vec_remove

    def m_std_vec_Vec_truncate(self, c):
        P, e = self.P, self.e
        v = e.resolve(c.st, c.args[0])
        arr, ln = e.seen_vec(c.st, v)
        w = P.mkvec(arr, simp(z3.If(c.args[1] < ln, c.args[1], ln)))
        e.seen_vec(c.st, w)
        e.write_ref(c.st, c.args[0], w)
        return U

    def m_impl_T_contains(self, c):
        v, x = c.d(0), c.d(1)
        if not is_z3(v) or not is_z3(x) or not self.struct_eq_ok(c.argtys[1]):
            return None
        r = self.uf('slice_contains', [v, x], z3.BoolSort())
        arr, ln = self.e.seen_vec(c.st, v)
        c.st.assume(z3.Implies(ln == 0, z3.Not(r)))
        return r

    # ---- external functions of which nothing is assumed but their types
    def havoc_call(self, c):
        e, P = self.e, self.P
        e.nondet = True
        for a in c.args:
            if isinstance(a, MutRef):
                old = e.resolve(c.st, a)
                if is_z3(old):
                    e.write_ref(c.st, a, e.fresh(old.sort(), 'ext'))
                elif not isinstance(old, Opq):
                    return None
        if c.dty is None:
            return None
        t = P.t(c.dty)
        if t['k'] == 'ref' and t['mut'] and isinstance(c.args[0], MutRef):
            return c.args[0]
        s = P.sort(c.dty)
        if s is None:
            return Opq('ext')
        r = e.fresh(s, 'ext')
        e.int_range(c.st, r, c.dty)
        e.value_facts(c.st, r)
        return r
    m_std_fs_canonicalize = havoc_call
    m_std_path_Path_with_extension = havoc_call
    m_std_path_Path_exists = havoc_call
    m_std_path_Path_is_absolute = havoc_call
    m_std_path_Path_join = havoc_call
    m_csv_StringRecord_new = havoc_call
    m_csv_StringRecord_get = havoc_call
    m_csv_ReaderBuilder_from_path = havoc_call
    m_std_io_Error_kind = havoc_call
    m_std_fmt_Formatter_alternate = havoc_call

    def m_std_vec_Vec_len(self, c):
        return self.e.seen_vec(c.st, c.d(0))[1]
    m_impl_T_len = m_std_vec_Vec_len
    m_std_collections_VecDeque_len = m_std_vec_Vec_len
    m_std_collections_LinkedList_len = m_std_vec_Vec_len

    def m_std_vec_Vec_is_empty(self, c):
        return simp(self.e.seen_vec(c.st, c.d(0))[1] == 0)
    m_impl_T_is_empty = m_std_vec_Vec_is_empty
    m_std_collections_VecDeque_is_empty = m_std_vec_Vec_is_empty

    def m_std_vec_Vec_clear(self, c):
        v = self.e.resolve(c.st, c.args[0])
        self.e.write_ref(c.st, c.args[0], self.empty_vec(c.st, self.P.vparts(v)[0].sort().range()))
        return U

    def m_std_vec_Vec_append(self, c):
        e, P = self.e, self.P
        a, b = e.resolve(c.st, c.args[0]), e.resolve(c.st, c.args[1])
        e.write_ref(c.st, c.args[0], self.concat(c.st, a, b))
        e.write_ref(c.st, c.args[1], self.empty_vec(c.st, P.vparts(b)[0].sort().range()))
        return U

    def concat(self, st, a, b):
        e, P = self.e, self.P
        aa, al = e.seen_vec(st, a)
        ba, bl = e.seen_vec(st, b)
        arr2 = e.fresh(aa.sort(), 'cat')
        e.event(st, ('concat', aa, al, ba, bl, arr2))
        w = P.mkvec(arr2, simp(al + bl))
        e.seen_vec(st, w)
        return w

    def m_std_vec_Vec_extend_from_slice(self, c):
        e = self.e
        e.write_ref(c.st, c.args[0], self.concat(c.st, e.resolve(c.st, c.args[0]), c.d(1)))
        return U

    def m_std_iter_Extend_extend(self, c):
        e, P = self.e, self.P
        r = c.args[0]
        v = e.resolve(c.st, r)
        if is_z3(v) and P.is_vec(v.sort()):
            src = c.args[1]
            if is_z3(src) and P.is_vec(src.sort()):
                e.write_ref(c.st, r, self.concat(c.st, v, src))
                return U

            if is_z3(src) and src.sort().name().startswith('std::option::Option<'):
                outs = []
                for (s, some, x) in self.split_opt(c.st, src):
                    if some:
                        e.write_ref(s, r, self.vec_push(s, e.resolve(s, r), x))
                    outs.append((s, self.unit()))
                return outs

            def body(s, acc, x):
                e.write_ref(s, r, self.vec_push(s, e.resolve(s, r), x))
                return [(s, 'cont')]
            return [(s, self.unit()) for (s, p, a, l) in self.consume(c.st, self.to_iter(c.st, src), body, 'extend')]
        return None

    def m_impl_T_reverse(self, c):
        e, P = self.e, self.P
        v = e.resolve(c.st, c.args[0])
        arr, ln = e.seen_vec(c.st, v)
        arr2 = e.fresh(arr.sort(), 'rev')
        e.event(c.st, ('perm', arr, ln, arr2))
        w = P.mkvec(arr2, ln)
        e.seen_vec(c.st, w)
        e.write_ref(c.st, c.args[0], w)
        # the two shapes the importer looks at
        c.st.assume(z3.Implies(ln == 1, z3.Select(arr2, 0) == z3.Select(arr, 0)))
        return U

    def sort_common(self, c, less):
        e, P = self.e, self.P
        v = e.resolve(c.st, c.args[0])
        arr, ln = e.seen_vec(c.st, v)
        arr2 = e.fresh(arr.sort(), 'sorted')
        e.event(c.st, ('perm', arr, ln, arr2))
        w = P.mkvec(arr2, ln)
        e.seen_vec(c.st, w)
        e.write_ref(c.st, c.args[0], w)
        outs = [(c.st, self.unit())]
        g = [e.ctxg[n] for n in ('K1', 'K2') if n in e.ctxg]
        if less is not None and len(g) >= 2:
            outs = []
            i, j = g[0], g[1]
            s = c.st
            e.touch(s, arr2, i, ln)
            e.touch(s, arr2, j, ln)
            for (s2, r) in less(s, simp_select(arr2, i), simp_select(arr2, j)):
                # not Greater
                s2.assume(z3.Implies(z3.And(0 <= i, i < j, j < ln), z3.Not(P.isv(r, 2))))
                outs.append((s2, self.unit()))
        elif less is not None:
            # the comparison is made of elements of the vector: it must not panic
            i, j = e.fresh(z3.IntSort(), 'i'), e.fresh(z3.IntSort(), 'j')
            s = c.st.copy()
            s.assume(z3.And(0 <= i, i < ln, 0 <= j, j < ln))
            e.touch(s, arr2, i, ln)
            e.touch(s, arr2, j, ln)
            a, b = simp_select(arr2, i), simp_select(arr2, j)
            self.elem_facts(s, a)
            self.elem_facts(s, b)
            less(s, a, b)
        return outs

    def m_impl_T_sort_by(self, c):
        return self.sort_common(c, lambda s, a, b: self.call_fn(s, c.args[1], [a, b]))
    m_impl_T_sort_unstable_by = m_impl_T_sort_by

    def m_impl_T_sort_by_key(self, c):
        def less(s, a, b):
            outs = []
            for (s1, x) in self.call_fn(s, c.args[1], [a]):
                for (s2, y) in self.call_fn(s1, c.args[1], [b]):
                    if is_z3(x) and (z3.is_int(x) or z3.is_real(x)):
                        outs.append((s2, self.order(x, y)))
                    else:
                        raise Unsupported('sort_by_key key')
            return outs
        return self.sort_common(c, less)
    m_impl_T_sort_by_cached_key = m_impl_T_sort_by_key

    def m_impl_T_sort(self, c):
        # the order of the element type
        P = self.P
        et = P.strip(c.t['args'][0])
        t = P.t(et)
        if t['k'] == 'adt' and t['local']:
            for key, f in P.F.items():
                if f['local'] and f['body'] and f['name'].endswith(' as std::cmp::Ord>::cmp') and P.canon(P.strip(f['body']['locals'][1])) == P.canon(et):
                    return self.sort_common(c, lambda s, a, b: self.e.exec_fn(s, key, [a, b]))
            raise Unsupported('sort of a type without an order in the program')
        return self.sort_common(c, None)
    m_impl_T_sort_unstable = m_impl_T_sort

    def m_impl_T_first(self, c):
        return self.at(c, lambda ln: z3.IntVal(0))

    def m_impl_T_last(self, c):
        return self.at(c, lambda ln: ln - 1)

    def m_impl_T_get(self, c):
        i = c.args[1]
        if not (is_z3(i) and z3.is_int(i)):
            raise Unsupported('get of a range')
        return self.at(c, lambda ln: i)

    def at(self, c, f):
        e, P = self.e, self.P
        arr, ln = e.seen_vec(c.st, c.d(0))
        i = simp(f(ln))
        outs = []
        ok = simp(z3.And(i >= 0, i < ln))
        for (s, yes) in e.branch(c.st, [(ok, True), (simp(z3.Not(ok)), False)]):
            if yes:
                e.touch(s, arr, i, ln)
                v = simp_select(arr, i)
                self.elem_facts(s, v)
                outs.append((s, self.mk_opt(c.dty, v)))
            else:
                outs.append((s, self.mk_opt(c.dty, None)))
        return outs

    def m_impl_T_get_mut(self, c):
        e = self.e
        r = c.args[0]
        arr, ln = e.seen_vec(c.st, e.resolve(c.st, r))
        i = c.args[1]
        ok = simp(z3.And(i >= 0, i < ln))
        outs = []
        for (s, yes) in e.branch(c.st, [(ok, True), (simp(z3.Not(ok)), False)]):
            if yes:
                e.touch(s, arr, i, ln)
                outs.append((s, PAgg(c.dty, 1, (MutRef(r.cell, r.path + (('idx', i),)),))))
            else:
                outs.append((s, PAgg(c.dty, 0, ())))
        return outs

    def m_std_ops_Index_index(self, c):
        e, P = self.e, self.P
        a, i = c.d(0), c.d(1)
        if is_z3(a) and P.is_vec(a.sort()):
            arr, ln = e.seen_vec(c.st, a)
            if z3.is_int(i):
                ok = z3.And(i >= 0, i < ln)
                e.oblige(c.st, 'index-in-bounds@' + c.where(), ok, 'panic', e.panic_props('index'), c.blk['line'])
                c.st.assume(ok)
                e.touch(c.st, arr, i, ln)
                v = simp_select(arr, i)
                self.elem_facts(c.st, v)
                return v
            lo, hi = self.range_of(i, ln)
            ok = z3.And(lo >= 0, lo <= hi, hi <= ln)
            e.oblige(c.st, 'slice-in-bounds@' + c.where(), ok, 'panic', e.panic_props('slice'), c.blk['line'])
            c.st.assume(ok)
            if z3.is_int_value(simp(lo)) and simp(lo).as_long() == 0:
                return P.mkvec(arr, simp(hi))
            arr2 = self.uf('drop', [arr, lo], arr.sort())
            return P.mkvec(arr2, simp(hi - lo))
        if is_z3(a) and a.sort().eq(P.Str):
            ln = self.strlen(c.st, a)
            lo, hi = self.range_of(i, ln)
            c.st.assume(self.bnd(a, z3.IntVal(0)))
            c.st.assume(self.bnd(a, ln))
            ok = z3.And(lo >= 0, lo <= hi, hi <= ln, self.bnd(a, simp(lo)), self.bnd(a, simp(hi)))
            e.oblige(c.st, 'str-slice-valid@' + c.where(), ok, 'panic', e.panic_props('slice'), c.blk['line'])
            c.st.assume(ok)
            if z3.is_int_value(simp(lo)) and simp(lo).as_long() == 0 and simp(hi).eq(simp(ln)):
                return a
            r = self.uf('substr', [a, simp(lo), simp(hi)], P.Str)
            for p in self.sought():
                # (trusted) what a string does not contain before `hi`, its beginning does not contain
                fa, fr = [self.uf('find', [v, p], P.opt(z3.IntSort())) for v in (a, r)]
                c.st.assume(z3.Implies(z3.Or(z3.Not(P.isv(fa, 1)), z3.And(simp(lo) == 0, P.get(fa, 1, 0) >= hi)), z3.Not(P.isv(fr, 1))))
            rl = self.strlen(c.st, r)
            c.st.assume(rl == hi - lo)
            return r
        if is_z3(a) and P.is_map(a.sort()):
            dom = P.get(a, 0, 0)
            e.oblige(c.st, 'key-present@' + c.where(), z3.Select(dom, i), 'panic', e.panic_props('key'), c.blk['line'])
            return simp_select(P.get(a, 0, 1), i)
        return None

    def m_std_ops_IndexMut_index_mut(self, c):
        e, P = self.e, self.P
        r, i = c.args[0], c.d(1)
        a = e.resolve(c.st, r)
        if is_z3(a) and P.is_vec(a.sort()) and z3.is_int(i):
            arr, ln = e.seen_vec(c.st, a)
            ok = z3.And(i >= 0, i < ln)
            e.oblige(c.st, 'index-in-bounds@' + c.where(), ok, 'panic', e.panic_props('index'), c.blk['line'])
            c.st.assume(ok)
            e.touch(c.st, arr, i, ln)
            return MutRef(r.cell, r.path + (('idx', i),))
        return None

    def m_std_vec_Vec_retain(self, c):
        e, P = self.e, self.P
        r = c.args[0]
        v = e.resolve(c.st, r)
        clo = c.args[1]
        arr0, ln0 = e.seen_vec(c.st, v)
        init = self.empty_vec(c.st, arr0.sort().range())

        def body(s, acc, x):
            outs = []
            for (s2, b) in self.call_fn(s, clo, [x]):
                for (s3, yes) in e.branch(s2, [(b, True), (simp(z3.Not(b)), False)]):
                    if yes:
                        e.write_ref(s3, acc, self.vec_push(s3, e.resolve(s3, acc), x))
                    outs.append((s3, 'cont'))
            return outs
        outs = []
        for (s, p, acc, left) in self.consume(c.st, It('seq', arr0, z3.IntVal(0), ln0), body, 'retain', init):
            e.write_ref(s, r, acc)
            outs.append((s, self.unit()))
        return outs

    # vec![..] goes through a box
    def m_std_boxed_Box_new_uninit(self, c):
        cell = self.e.new_cell(c.st, UNDEF)
        return Opq('rawbox', cell)

    def m_std_boxed_box_assume_init_into_vec_unsafe(self, c):
        v = c.st.heap.pop(c.args[0].data)
        while isinstance(v, PAgg):
            v = [x for x in v.fields if not isinstance(x, Undef)][0]
        return v

    def m_std_slice_into_vec(self, c):
        return c.args[0]
    m_impl_T_into_vec = m_std_slice_into_vec

    # ---- hash maps and sets
    def m_std_collections_HashMap_new(self, c):
        s = self.P.sort(c.dty)
        if s is None:
            raise Unsupported('map of non-values')
        return self.empty_map(s)
    m_std_collections_HashSet_new = m_std_collections_HashMap_new
    m_std_collections_BTreeMap_new = m_std_collections_HashMap_new
    m_std_collections_BTreeSet_new = m_std_collections_HashMap_new

    def m_std_collections_HashMap_insert(self, c):
        e, P = self.e, self.P
        r = c.args[0]
        m = e.resolve(c.st, r)
        k, v = c.args[1], c.args[2]
        s = m.sort()
        dom, val, n = [P.get(m, 0, j) for j in range(3)]
        old = z3.If(z3.Select(dom, k), P.some(simp_select(val, k)), P.none(v.sort()))
        e.write_ref(c.st, r, s.constructor(0)(z3.Store(dom, k, z3.BoolVal(True)), z3.Store(val, k, v), n + z3.If(z3.Select(dom, k), z3.IntVal(0), z3.IntVal(1))))
        return old
    m_std_collections_BTreeMap_insert = m_std_collections_HashMap_insert

    def m_std_collections_HashMap_remove(self, c):
        e, P = self.e, self.P
        r = c.args[0]
        m = e.resolve(c.st, r)
        k = c.d(1)
        s = m.sort()
        dom, val, n = [P.get(m, 0, j) for j in range(3)]
        old = z3.If(z3.Select(dom, k), P.some(simp_select(val, k)), P.none(val.sort().range()))
        e.write_ref(c.st, r, s.constructor(0)(z3.Store(dom, k, z3.BoolVal(False)), val, n - z3.If(z3.Select(dom, k), z3.IntVal(1), z3.IntVal(0))))
        return old

    def m_std_collections_HashMap_get(self, c):
        e, P = self.e, self.P
        m, k = c.d(0), c.d(1)
        inn = simp(z3.Select(P.get(m, 0, 0), k))
        outs = []
        for (s, yes) in e.branch(c.st, [(inn, True), (simp(z3.Not(inn)), False)]):
            if yes:
                v = simp_select(P.get(m, 0, 1), k)
                self.elem_facts(s, v)
                outs.append((s, self.mk_opt(c.dty, v)))
            else:
                outs.append((s, self.mk_opt(c.dty, None)))
        return outs
    m_std_collections_BTreeMap_get = m_std_collections_HashMap_get

    def m_std_collections_HashMap_get_mut(self, c):
        e, P = self.e, self.P
        r, k = c.args[0], c.d(1)
        m = e.resolve(c.st, r)
        inn = simp(z3.Select(P.get(m, 0, 0), k))
        outs = []
        for (s, yes) in e.branch(c.st, [(inn, True), (simp(z3.Not(inn)), False)]):
            if yes:
                self.elem_facts(s, simp_select(P.get(m, 0, 1), k))
                outs.append((s, PAgg(c.dty, 1, (MutRef(r.cell, r.path + (('map', k),)),))))
            else:
                outs.append((s, PAgg(c.dty, 0, ())))
        return outs

    def m_std_collections_HashMap_contains_key(self, c):
        return simp(z3.Select(self.P.get(c.d(0), 0, 0), c.d(1)))
    m_std_collections_BTreeMap_contains_key = m_std_collections_HashMap_contains_key

    def m_std_collections_HashSet_contains(self, c):
        return simp(z3.Select(self.P.get(c.d(0), 0, 0), c.d(1)))
    m_std_collections_BTreeSet_contains = m_std_collections_HashSet_contains

    def m_std_collections_HashSet_insert(self, c):
        e, P = self.e, self.P
        r = c.args[0]
        m = e.resolve(c.st, r)
        k = c.args[1]
        dom, n = P.get(m, 0, 0), P.get(m, 0, 1)
        had = z3.Select(dom, k)
        e.write_ref(c.st, r, m.sort().constructor(0)(z3.Store(dom, k, z3.BoolVal(True)), n + z3.If(had, z3.IntVal(0), z3.IntVal(1))))
        return simp(z3.Not(had))
    m_std_collections_BTreeSet_insert = m_std_collections_HashSet_insert

    def m_std_collections_HashSet_len(self, c):
        m = c.d(0)
        n = self.P.get(m, 0, 1)
        c.st.assume(z3.And(n >= 0, n <= 2**31 - 1))
        return n

    def m_std_collections_HashMap_len(self, c):
        n = self.P.get(c.d(0), 0, 2)
        c.st.assume(z3.And(n >= 0, n <= 2**31 - 1))
        return n

    def m_std_collections_HashMap_is_empty(self, c):
        n = self.P.get(c.d(0), 0, 2)
        c.st.assume(n >= 0)
        return simp(n == 0)

    def m_std_collections_HashSet_is_empty(self, c):
        n = self.P.get(c.d(0), 0, 1)
        c.st.assume(n >= 0)
        return simp(n == 0)

    def m_std_collections_HashMap_iter(self, c):
        return self.map_iter(c.st, c.d(0), 'pair', None)
    m_std_collections_BTreeMap_iter = m_std_collections_HashMap_iter

    def m_std_collections_HashMap_iter_mut(self, c):
        return self.map_iter(c.st, c.d(0), 'mut', c.args[0])

    def m_std_collections_HashMap_values(self, c):
        return self.map_iter(c.st, c.d(0), 'val', None)

    def m_std_collections_HashMap_values_mut(self, c):
        return self.map_iter(c.st, c.d(0), 'mutval', c.args[0])

    def m_std_collections_HashMap_keys(self, c):
        it = self.map_iter(c.st, c.d(0), 'pair', None)
        return it.f[0]

    def m_std_collections_HashSet_iter(self, c):
        return self.map_iter(c.st, c.d(0), 'key', None)

    def m_std_collections_HashMap_entry(self, c):
        return Opq('mapentry', (c.args[0], c.args[1]))

    def entry_or(self, c, mk):
        e, P = self.e, self.P
        r, k = c.args[0].data
        outs = []
        m = e.resolve(c.st, r)
        inn = simp(z3.Select(P.get(m, 0, 0), k))
        for (s, yes) in e.branch(c.st, [(inn, True), (simp(z3.Not(inn)), False)]):
            if yes:
                self.elem_facts(s, simp_select(P.get(m, 0, 1), k))
                outs.append((s, MutRef(r.cell, r.path + (('map', k),))))
                continue
            for (s2, v) in mk(s):
                m2 = e.resolve(s2, r)
                dom, val, n = [P.get(m2, 0, j) for j in range(3)]
                e.write_ref(s2, r, m2.sort().constructor(0)(z3.Store(dom, k, z3.BoolVal(True)), z3.Store(val, k, v), n + 1))
                outs.append((s2, MutRef(r.cell, r.path + (('map', k),))))
        return outs

    def m_std_collections_hash_map_Entry_or_insert(self, c):
        return self.entry_or(c, lambda s: [(s, c.args[1])])

    def m_std_collections_hash_map_Entry_or_insert_with(self, c):
        return self.entry_or(c, lambda s: self.call_fn(s, c.args[1], []))

    def m_std_collections_hash_map_Entry_or_default(self, c):
        P = self.P
        vty = P.t(c.dty)['t']

        def mk(s):
            t = P.t(vty)
            if t['k'] == 'adt' and t['local']:
                for key, f in P.F.items():
                    if f['local'] and f['body'] and 'Default>::default' in f['name'] and P.canon(f['body']['locals'][0]) == P.canon(vty):
                        return self.e.exec_fn(s, key, [])
                raise Unsupported('default of ' + t['name'])
            return [(s, self.default_of(s, P.sort(vty)))]
        return self.entry_or(c, mk)

    # ---- iterator methods
    def m_impl_T_iter(self, c):
        return self.to_iter(c.st, c.d(0))
    m_std_collections_LinkedList_iter = m_impl_T_iter
    m_std_collections_VecDeque_iter = m_impl_T_iter

    def m_impl_T_iter_mut(self, c):
        r = c.args[0]
        while isinstance(self.e.resolve(c.st, r), MutRef):
            r = self.e.resolve(c.st, r)
        return self.to_iter(c.st, r)

    def m_std_vec_Vec_drain(self, c):
        e, P = self.e, self.P
        v = e.resolve(c.st, c.args[0])
        if not (is_z3(c.args[1]) and c.args[1].sort().name().startswith('std::ops::RangeFull')) and not isinstance(c.args[1], Opq):
            raise Unsupported('drain of a range')
        arr, ln = e.seen_vec(c.st, v)
        e.write_ref(c.st, c.args[0], self.empty_vec(c.st, arr.sort().range()))
        return It('seq', arr, z3.IntVal(0), ln)

    def m_std_iter_IntoIterator_into_iter(self, c):
        a = c.args[0]
        P = self.P
        t = P.t(c.t['args'][0])
        if t['k'] == 'adt' and t['local'] and is_z3(a):
            # a crate-local IntoIterator or Iterator
            if c.inst and c.inst['key'] in P.F and P.F[c.inst['key']]['local'] and P.F[c.inst['key']]['body']:
                return None
            for key, f in P.F.items():
                if f['local'] and f['body'] and f['name'].endswith('std::iter::Iterator>::next') and P.canon(P.strip(f['body']['locals'][1])) == P.canon(c.t['args'][0]):
                    cell = self.e.new_cell(c.st, a)
                    return It('local', key, cell)
            return None
        if t['k'] == 'ref' and P.t(P.strip(c.t['args'][0]))['k'] == 'adt' and P.t(P.strip(c.t['args'][0]))['local']:
            return None
        return self.to_iter(c.st, a)

    def m_std_iter_Iterator_next(self, c, back=False):
        r = c.args[0]
        t = self.P.t(c.t['args'][0])
        if not isinstance(self.e.deref_full(c.st, r), It):
            return None
        return [(s, self.mk_opt(c.dty, v if some else None)) for (s, some, v) in self.it_next(c.st, r, back)]

    def m_std_iter_DoubleEndedIterator_next_back(self, c):
        return self.m_std_iter_Iterator_next(c, True)

    def it0(self, c):
        v = c.args[0]
        if isinstance(v, MutRef):
            return It('byref', v)
        return self.to_iter(c.st, v)

    def m_std_iter_Iterator_chain(self, c):
        return It('chain', self.it0(c), self.to_iter(c.st, c.args[1]))

    def m_std_iter_Iterator_filter(self, c):
        return It('filter', self.it0(c), c.args[1])

    def m_std_iter_Iterator_filter_map(self, c):
        return It('filter_map', self.it0(c), c.args[1])

    def m_std_iter_Iterator_map(self, c):
        return It('map', self.it0(c), c.args[1])

    def m_std_iter_Iterator_inspect(self, c):
        return It('inspect', self.it0(c), c.args[1])

    def m_std_iter_Iterator_rev(self, c):
        return It('rev', self.it0(c))

    def m_std_iter_Iterator_cloned(self, c):
        return It('cloned', self.it0(c))

    def m_std_iter_Iterator_copied(self, c):
        return It('copied', self.it0(c))

    def m_std_iter_Iterator_by_ref(self, c):
        return c.args[0]

    def m_std_iter_Iterator_enumerate(self, c):
        return It('enumerate', self.it0(c), z3.IntVal(0))

    def m_std_iter_Iterator_skip(self, c):
        it = self.it0(c)
        n = c.args[1]
        if it.k == 'seq':
            src, lo, hi = it.f
            return It('seq', src, simp(z3.If(lo + n <= hi, lo + n, hi)), hi)
        return It('skip', it, n)

    def m_std_iter_Iterator_take(self, c):
        return It('take', self.it0(c), c.args[1])

    def m_std_iter_Iterator_take_while(self, c):
        return It('take_while', self.it0(c), c.args[1], z3.BoolVal(False))

    def m_std_iter_Iterator_zip(self, c):
        return It('zip', self.it0(c), self.to_iter(c.st, c.args[1]))

    def m_std_iter_Iterator_peekable(self, c):
        return It('peekable', self.it0(c), None)

    def m_std_iter_once(self, c):
        return It('once', c.args[0])

    def m_std_iter_empty(self, c):
        return It('empty')

    def finish_byref(self, outs):
        return outs

    def m_std_iter_Iterator_find(self, c):
        e = self.e
        it = self.it0(c)

        def body(s, acc, x):
            outs = []
            for (s2, b) in self.call_fn(s, c.args[1], [x]):
                for (s3, yes) in e.branch(s2, [(b, True), (simp(z3.Not(b)), False)]):
                    outs.append((s3, ('break', x) if yes else 'cont'))
            return outs
        return [(s, self.mk_opt(c.dty, None if p == 'end' else p[1])) for (s, p, a, l) in self.consume(c.st, it, body, 'find')]

    def m_std_iter_Iterator_find_map(self, c):
        it = self.it0(c)

        def body(s, acc, x):
            outs = []
            for (s2, r) in self.call_fn(s, c.args[1], [x]):
                for (s3, some, v) in self.split_opt(s2, r):
                    outs.append((s3, ('break', v) if some else 'cont'))
            return outs
        return [(s, self.mk_opt(c.dty, None if p == 'end' else p[1])) for (s, p, a, l) in self.consume(c.st, it, body, 'find_map')]

    def m_std_iter_Iterator_position(self, c):
        e = self.e
        it = self.it0(c)

        def body(s, acc, x):
            outs = []
            for (s2, b) in self.call_fn(s, c.args[1], [x]):
                for (s3, yes) in e.branch(s2, [(b, True), (simp(z3.Not(b)), False)]):
                    n = e.resolve(s3, acc)
                    if yes:
                        outs.append((s3, ('break', n)))
                    else:
                        e.write_ref(s3, acc, simp(n + 1))
                        outs.append((s3, 'cont'))
            return outs
        return [(s, self.mk_opt(c.dty, None if p == 'end' else p[1])) for (s, p, a, l) in self.consume(c.st, it, body, 'position', z3.IntVal(0))]

    def anyall(self, c, stop):
        e = self.e
        it = self.it0(c)

        def body(s, acc, x):
            outs = []
            for (s2, b) in self.call_fn(s, c.args[1], [x]):
                for (s3, yes) in e.branch(s2, [(b, True), (simp(z3.Not(b)), False)]):
                    outs.append((s3, ('break', None) if yes == stop else 'cont'))
            return outs
        return [(s, z3.BoolVal(stop if p != 'end' else not stop)) for (s, p, a, l) in self.consume(c.st, it, body, 'any/all')]

    def m_std_iter_Iterator_any(self, c):
        return self.anyall(c, True)

    def m_std_iter_Iterator_all(self, c):
        return self.anyall(c, False)

    def m_std_iter_Iterator_for_each(self, c):
        def body(s, acc, x):
            return [(s2, 'cont') for (s2, r) in self.call_fn(s, c.args[1], [x])]
        return [(s, self.unit()) for (s, p, a, l) in self.consume(c.st, self.it0(c), body, 'for_each')]

    def m_std_iter_Iterator_try_for_each(self, c):
        P, e = self.P, self.e

        def body(s, acc, x):
            outs = []
            for (s2, r) in self.call_fn(s, c.args[1], [x]):
                if not is_z3(r) or not r.sort().name().startswith('std::result::Result<'):
                    raise Unsupported('try_for_each')
                ok = P.isv(r, 0)
                for (s3, yes) in e.branch(s2, [(ok, True), (simp(z3.Not(ok)), False)]):
                    outs.append((s3, 'cont' if yes else ('break', r)))
            return outs
        s = P.sort(c.dty)
        return [(s2, s.constructor(0)(self.unit()) if p == 'end' else p[1]) for (s2, p, a, l) in self.consume(c.st, self.it0(c), body, 'try_for_each')]

    def m_std_iter_Iterator_fold(self, c):
        e = self.e
        init = c.args[1]
        if not is_z3(init):
            raise Unsupported('fold over a non-value')

        def body(s, acc, x):
            outs = []
            for (s2, r) in self.call_fn(s, c.args[2], [e.resolve(s, acc), x]):
                e.write_ref(s2, acc, r)
                outs.append((s2, 'cont'))
            return outs
        return [(s, a) for (s, p, a, l) in self.consume(c.st, self.it0(c), body, 'fold', init)]

    def m_std_iter_Iterator_try_fold(self, c):
        e, P = self.e, self.P
        init = c.args[1]
        s = P.sort(c.dty)
        if not is_z3(init) or s is None or not s.name().startswith(('std::result::Result<', 'std::option::Option<')):
            raise Unsupported('try_fold')
        good = 0 if s.name().startswith('std::result') else 1

        def body(st, acc, x):
            outs = []
            for (s2, r) in self.call_fn(st, c.args[2], [e.resolve(st, acc), x]):
                ok = P.isv(r, good)
                for (s3, yes) in e.branch(s2, [(ok, True), (simp(z3.Not(ok)), False)]):
                    if yes:
                        e.write_ref(s3, acc, P.get(r, good, 0))
                        outs.append((s3, 'cont'))
                    else:
                        outs.append((s3, ('break', r)))
            return outs
        return [(s2, s.constructor(good)(a) if p == 'end' else p[1]) for (s2, p, a, l) in self.consume(c.st, self.it0(c), body, 'try_fold', init)]

    def m_std_iter_Iterator_sum(self, c):
        e = self.e
        s0 = self.P.sort(c.dty)
        if s0 is None or s0.kind() not in (z3.Z3_INT_SORT, z3.Z3_REAL_SORT):
            raise Unsupported('sum of %s' % s0)
        zero = z3.RealVal(0) if s0.kind() == z3.Z3_REAL_SORT else z3.IntVal(0)

        def body(s, acc, x):
            e.write_ref(s, acc, simp(e.resolve(s, acc) + x))
            return [(s, 'cont')]
        return [(s, a) for (s, p, a, l) in self.consume(c.st, self.it0(c), body, 'sum', zero)]

    def m_std_iter_Iterator_count(self, c):
        e = self.e

        def body(s, acc, x):
            e.write_ref(s, acc, simp(e.resolve(s, acc) + 1))
            return [(s, 'cont')]
        it = self.it0(c)
        if it.k == 'seq':
            return simp(it.f[2] - it.f[1])
        return [(s, a) for (s, p, a, l) in self.consume(c.st, it, body, 'count', z3.IntVal(0))]

    def m_std_iter_Iterator_last(self, c):
        it = self.it0(c)
        cell = self.e.new_cell(c.st, it)
        return [(s, self.mk_opt(c.dty, v if some else None)) for (s, some, v) in self.it_next(c.st, MutRef(cell, ()), True)]

    def m_std_iter_Iterator_nth(self, c):
        it = self.e.deref_full(c.st, c.args[0])
        if isinstance(it, Opq):
            return None
        if it.k == 'seq' and is_z3(it.f[0]):
            src, lo, hi = it.f
            i = simp(lo + c.args[1])
            outs = []
            for (s, ok) in self.e.branch(c.st, [(simp(i < hi), True), (simp(i >= hi), False)]):
                if ok:
                    self.e.touch(s, src, i, hi)
                    self.e.write_ref(s, c.args[0], It('seq', src, simp(i + 1), hi))
                    outs.append((s, self.mk_opt(c.dty, simp_select(src, i))))
                else:
                    self.e.write_ref(s, c.args[0], It('seq', src, hi, hi))
                    outs.append((s, self.mk_opt(c.dty, None)))
            return outs
        raise Unsupported('nth')

    def m_std_iter_Iterator_max(self, c):
        return self.minmax(c, lambda a, b: z3.If(b >= a, b, a))

    def m_std_iter_Iterator_min(self, c):
        return self.minmax(c, lambda a, b: z3.If(b < a, b, a))

    def minmax(self, c, f):
        e, P = self.e, self.P
        s0 = P.sort(c.dty)
        if s0 is None or s0.constructor(1).domain(0).kind() not in (z3.Z3_INT_SORT, z3.Z3_REAL_SORT):
            raise Unsupported('max/min')

        def body(s, acc, x):
            a = e.resolve(s, acc)
            e.write_ref(s, acc, z3.If(P.isv(a, 1), s0.constructor(1)(f(P.get(a, 1, 0), x)), s0.constructor(1)(x)))
            return [(s, 'cont')]
        # first step peeled so that "non-empty gives Some" needs no invariant
        cell = e.new_cell(c.st, self.it0(c))
        ref = MutRef(cell, ())
        outs = []
        for (s, some, v) in self.it_next(c.st, ref):
            if not some:
                outs.append((s, s0.constructor(0)()))
                continue

            def body2(s2, acc, x):
                e.write_ref(s2, acc, f(e.resolve(s2, acc), x))
                return [(s2, 'cont')]
            for (s2, p, a, l) in self.consume(s, e.resolve(s, ref), body2, 'max', v):
                outs.append((s2, s0.constructor(1)(a)))
        return outs

    def m_std_iter_Iterator_partition(self, c):
        raise Unsupported('partition')

    def m_std_iter_Iterator_collect(self, c):
        e, P = self.e, self.P
        it = self.it0(c)
        s0 = P.sort(c.dty)
        t = P.t(c.dty)
        if s0 is None:
            # Vec<&mut T> and the like
            raise Unsupported('collect into ' + P.canon(c.dty))
        if P.is_vec(s0):
            if it.k == 'seq' and is_z3(it.f[0]) and z3.is_int_value(simp(it.f[1])) and simp(it.f[1]).as_long() == 0:
                return P.mkvec(it.f[0], it.f[2])
            if it.k == 'seq' and is_z3(it.f[0]) and it.f[0].sort().range().eq(P.Str) and z3.is_int_value(simp(it.f[1])):
                v = P.mkvec(self.uf('drop', [it.f[0], simp(it.f[1])], it.f[0].sort()), simp(it.f[2] - it.f[1]))
                self.e.seen_vec(c.st, v)
                return v
            if it.k == 'take' and is_z3(it.f[1]) and isinstance(it.f[0], It) and it.f[0].k == 'seq' and is_z3(it.f[0].f[0]) \
                    and z3.is_int_value(simp(it.f[0].f[1])) and simp(it.f[0].f[1]).as_long() == 0:
                return P.mkvec(it.f[0].f[0], z3.If(it.f[0].f[2] < it.f[1], it.f[0].f[2], it.f[1]))
            init = self.empty_vec(c.st, s0.accessor(0, 0).range().range())

            def body(s, acc, x):
                if not is_z3(x):
                    raise Unsupported('collect of non-values')
                e.write_ref(s, acc, self.vec_push(s, e.resolve(s, acc), x))
                return [(s, 'cont')]
            return [(s, a) for (s, p, a, l) in self.consume(c.st, it, body, 'collect', init)]
        if s0.eq(P.Str):
            def body(s, acc, x):
                e.write_ref(s, acc, self.uf('concat', [e.resolve(s, acc), x if x.sort().eq(P.Str) else self.uf('str_of_char', [x], P.Str)], P.Str))
                return [(s, 'cont')]
            return [(s, a) for (s, p, a, l) in self.consume(c.st, it, body, 'collect', P.lit(''))]
        if P.is_set(s0):
            # the keys of a map, or a set of references to the same set
            if it.k == 'seq':
                for (keys, pos, dom, n, m) in c.st.known.get('mappos', ()):
                    if is_z3(it.f[0]) and it.f[0].eq(keys) and z3.is_int_value(simp(it.f[1])):
                        return s0.constructor(0)(dom, n)
            init = self.empty_map(s0)

            def body(s, acc, x):
                m = e.resolve(s, acc)
                dom, n = P.get(m, 0, 0), P.get(m, 0, 1)
                e.write_ref(s, acc, s0.constructor(0)(z3.Store(dom, x, z3.BoolVal(True)), n + z3.If(z3.Select(dom, x), z3.IntVal(0), z3.IntVal(1))))
                return [(s, 'cont')]
            if it.k == 'cloned' and isinstance(it.f[0], It) and it.f[0].k == 'seq':
                for (keys, pos, dom, n, m) in c.st.known.get('mappos', ()):
                    if is_z3(it.f[0].f[0]) and it.f[0].f[0].eq(keys):
                        return s0.constructor(0)(dom, n)
            return [(s, a) for (s, p, a, l) in self.consume(c.st, it, body, 'collect', init)]
        if s0.name().startswith('std::result::Result<') and P.is_vec(s0.constructor(0).domain(0)):
            init = self.empty_vec(c.st, s0.constructor(0).domain(0).accessor(0, 0).range().range())

            def body(s, acc, x):
                outs = []
                ok = P.isv(x, 0)
                for (s3, yes) in e.branch(s, [(ok, True), (simp(z3.Not(ok)), False)]):
                    if yes:
                        e.write_ref(s3, acc, self.vec_push(s3, e.resolve(s3, acc), P.get(x, 0, 0)))
                        outs.append((s3, 'cont'))
                    else:
                        outs.append((s3, ('break', s0.constructor(1)(P.get(x, 1, 0)))))
                return outs
            return [(s, s0.constructor(0)(a) if p == 'end' else p[1]) for (s, p, a, l) in self.consume(c.st, it, body, 'collect', init)]
        raise Unsupported('collect into ' + P.canon(c.dty))

    # ---- memory
    def m_std_mem_take(self, c):
        e = self.e
        v = e.resolve(c.st, c.args[0])
        e.write_ref(c.st, c.args[0], self.default_of(c.st, v.sort()))
        return v

    def m_std_mem_replace(self, c):
        e = self.e
        v = e.resolve(c.st, c.args[0])
        e.write_ref(c.st, c.args[0], c.args[1])
        return v

    def m_std_mem_swap(self, c):
        e = self.e
        a, b = e.resolve(c.st, c.args[0]), e.resolve(c.st, c.args[1])
        e.write_ref(c.st, c.args[0], b)
        e.write_ref(c.st, c.args[1], a)
        return U

    def m_std_mem_drop(self, c):
        return U
    m_core_mem_drop = m_std_mem_drop

    # Option/Result helpers that take &mut self or would fork needlessly
    def m_std_option_Option_as_ref(self, c):
        v = self.e.deref_full(c.st, c.args[0])
        return v if is_z3(v) else None
    m_std_option_Option_as_deref = m_std_option_Option_as_ref
    m_std_option_Option_cloned = m_std_option_Option_as_ref
    m_std_option_Option_copied = m_std_option_Option_as_ref

    def m_std_option_Option_is_some(self, c):
        v = self.e.deref_full(c.st, c.args[0])
        return self.P.isv(v, 1) if is_z3(v) else z3.BoolVal(v.variant == 1)

    def m_std_option_Option_is_none(self, c):
        v = self.e.deref_full(c.st, c.args[0])
        return simp(z3.Not(self.P.isv(v, 1))) if is_z3(v) else z3.BoolVal(v.variant == 0)

    def m_std_option_Option_unwrap_or(self, c):
        v = c.args[0]
        if is_z3(v) and is_z3(c.args[1]):
            return simp(z3.If(self.P.isv(v, 1), self.P.get(v, 1, 0), c.args[1]))
        return None

    def m_std_env_args(self, c):
        self.e.nondet = True
        arr = z3.Const('env_args', z3.ArraySort(z3.IntSort(), self.P.Str))
        n = z3.Const('env_args_n', z3.IntSort())
        c.st.assume(z3.And(n >= 0, n <= 2**31 - 1))
        return It('seq', arr, z3.IntVal(0), n)

    # csv: what a reader gives is a function of the options it was built with and of the text
    def m_impl_str_as_bytes(self, c):
        r = self.strfn(c, 'as_bytes')
        if is_z3(r) and self.P.is_vec(r.sort()) and is_z3(c.d(0)):
            arr, ln = self.e.seen_vec(c.st, r)
            c.st.assume(ln == self.strlen(c.st, c.d(0)))
        return r
    m_std_string_String_as_bytes = m_impl_str_as_bytes

    def m_csv_ReaderBuilder_new(self, c):
        return z3.Const('csv_builder', self.P.sort(c.dty))

    def csv_option(name):
        def f(self, c):
            e = self.e
            if not isinstance(c.args[0], MutRef):
                return None
            old = e.resolve(c.st, c.args[0])
            a = [e.deref_full(c.st, x) for x in c.args[1:]]
            if not is_z3(old):
                return None
            new = self.uf('csv_' + name, [old] + a, old.sort()) if all(is_z3(x) for x in a) else e.fresh(old.sort(), 'csv_' + name)
            e.write_ref(c.st, c.args[0], new)
            return c.args[0]
        return f
    m_csv_ReaderBuilder_has_headers = csv_option('has_headers')
    m_csv_ReaderBuilder_flexible = csv_option('flexible')
    m_csv_ReaderBuilder_trim = csv_option('trim')
    m_csv_ReaderBuilder_delimiter = csv_option('delimiter')
    m_csv_ReaderBuilder_quote = csv_option('quote')
    m_csv_ReaderBuilder_quoting = csv_option('quoting')
    m_csv_ReaderBuilder_double_quote = csv_option('double_quote')
    m_csv_ReaderBuilder_comment = csv_option('comment')

    def m_csv_ReaderBuilder_from_reader(self, c):
        return self.strfn(c, 'csv_reader')

    def m_csv_Reader_records(self, c):
        e, P = self.e, self.P
        srt = P.result_sort('csv::StringRecord', 'csv::Error')
        r = c.args[0]
        v = e.resolve(c.st, r) if isinstance(r, MutRef) else r
        if srt is None or not is_z3(v):
            return None
        arr = self.uf('csv_records_arr', [v], z3.ArraySort(z3.IntSort(), srt))
        ln = self.uf('csv_records_n', [v], z3.IntSort())
        c.st.assume(z3.And(ln >= 0, ln <= 2**31 - 1))
        if isinstance(r, MutRef):
            e.write_ref(c.st, r, e.fresh(v.sort(), 'csv_rest'))
        e.assumptions.add('what the csv crate reads is a function of its options and the text')
        return It('seq', arr, z3.IntVal(0), ln)
    m_csv_Reader_into_records = m_csv_Reader_records

    def m_csv_StringRecord_as_slice(self, c):
        return self.strfn(c, 'record_text')

    def m_csv_StringRecord_iter(self, c):
        return self.strseq(c, 'record_fields', self.P.Str)


class _FakeFrameC:
    fn = {'name': '?'}


_FakeFrame = _FakeFrameC()


class Call:
    __slots__ = ('m', 'st', 't', 'inst', 'args', 'argtys', 'dty', 'fr', 'blk')

    def __init__(self, m, st, t, inst, args, argtys, dty, fr, blk):
        self.m, self.st, self.t, self.inst, self.args, self.argtys, self.dty, self.fr, self.blk = m, st, t, inst, args, argtys, dty, fr, blk

    def d(self, i):
        return self.m.e.deref_full(self.st, self.args[i])

    def where(self):
        return self.fr.fn['name'].replace('silverfox::', '')
