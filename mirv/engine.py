import time, itertools, os
import z3
from core import *

# clauses that say which text is read as what: they decide only the properties they name, no other obligation rests on them
WORDING = {'an-entry-otherwise', 'the-amount-written', 'the-account-written', 'the-cost-written', 'the-envelope-written', 'refused-only-if-unreadable', 'refused-only-if-malformed', 'the-date-written',
           'the-status-written', 'the-description-written', 'the-payee-written', 'no-comment', 'the-header-written', 'a-posting-for-each-line', 'nothing-from-nothing', 'account', 'currency',
           'date_format', 'include', 'chunk by chunk, without comments', 'what-is-given', 'nothing-else', 'the-name-written', 'the-account-given', 'for-no-account-yet',
           'filled-by-hand-unless-said', 'the-type-written', 'the-starting-date-written', 'the-due-date-written', 'one-word', 'line-by-line', 'wrong-lines-are-refused', 'as-written',
           'errors-are-passed-on', 'all-before-it'}
CHECK_MS = int(os.environ.get('MIRV_CHECK_MS', '20000'))
FEAS_MS = 3000


class Ctx:
    """what a contract talks about: argument values before and after, result, ghosts"""

    def __init__(self, eng, st, args, fnrec):
        self.eng, self.P, self.st = eng, eng.P, st
        self.raw = args
        self.pre = [eng.deref_full(st, a) for a in args]
        self.post = None
        self.ret = None
        self.ghost = {}
        self.fn = fnrec
        self.extra = {}
        self.caller = False
        self.io_pre = eng.M.io(st)

    def finish(self, st, ret):
        self.st_post = st
        self.io_post = self.eng.M.io(st)
        self.post = [self.eng.deref_full(st, a) for a in self.raw]
        self.ret = self.eng.deref_full(st, ret)


class Contract:
    def __init__(self, name, ensures=None, requires=None, ghosts=None, folds=None, auto=None, inv=None,
                 props=(), panic_props=('C18',), modifies=None, pure=False, assumed=False, uses=None, setup=None,
                 inline=(), opts=None, rettype=None, native=None):
        self.name = name
        self.ensures = ensures or (lambda c: [])
        self.requires = requires or (lambda c: [])
        self.ghosts = ghosts or {}
        self.folds = folds or (lambda c: [])
        self.auto = auto or []
        self.inv = inv
        self.props = props
        self.panic_props = panic_props
        self.modifies = modifies
        self.pure = pure
        self.assumed = assumed
        self.setup = setup
        self.inline = set(inline)
        self.opts = opts or {}
        self.native = native


class Frame:
    __slots__ = ('id', 'fn', 'body', 'loops')

    def __init__(self, id, fn, body, loops):
        self.id, self.fn, self.body, self.loops = id, fn, body, loops


class Res:
    __slots__ = ('m', 'why')

    def __init__(self, m, why):
        self.m, self.why = m, why

    def model(self):
        return self.m

    def reason_unknown(self):
        return self.why


class Engine:
    def __init__(self, prog, contracts, doms=(), tinv=None):
        self.tinv = tinv or {}
        self.P = prog
        self.contracts = contracts     # name -> Contract
        self.doms = list(doms)
        self.n = 0
        self.record = True
        self.obls = []
        self.cur = None
        self.curc = None
        self.depth = 0
        self._loops = {}
        self.checks = 0
        self.solver_time = 0.0
        self.assumptions = set()
        self.trusted = set()
        self.inlined = set()
        self.called = set()
        self.tyinv = []        # (sort, fn(eng, st, value) -> [(name, formula)])
        self.nondet = False
        self.failed = {}
        self.deadline = None
        self._inc = None
        self._inc_lits = self._inc_ax = 0
        self._lv, self._asserted = [], []
        self.ctxg = {}
        self.strfn = {}
        import models
        self.M = models.Models(self)

    # ------------------------------------------------------------ basics
    def fresh(self, sort, nm='v'):
        self.n += 1
        return z3.Const('%s!%d' % (nm, self.n), sort)

    def tg(self, name, sort):
        """the arbitrary value a type invariant is stated for: a ghost of the contract, or one of its own"""
        g = self.ctxg.get(name)
        return g if g is not None and g.sort().eq(sort) else z3.Const('any_' + name, sort)

    def fid(self):
        self.n += 1
        return self.n

    def special_float(self, f):
        if f != f:
            raise Unsupported('NaN constant')
        c = z3.Const('f64_inf', z3.RealSort())
        self.assumptions.add('f64 infinity constants are treated as an unspecified real')
        return c if f > 0 else -c

    def solver(self, ms):
        s = z3.Solver()
        s.set('timeout', ms)
        return s

    def sat(self, st, extra, ms, model=True):
        self.checks += 1
        t = time.time()
        if self.deadline and t > self.deadline:
            raise Unsupported('time budget used up')
        s = self._inc
        nl = len(self.P._litc)
        if s is None or nl != self._inc_lits or len(self.M.axioms) != self._inc_ax:
            s = self._inc = z3.Solver()
            self._inc_lits, self._inc_ax = nl, len(self.M.axioms)
            s.add(*self.P.lit_axioms())
            s.add(*self.M.axioms)
            self._lv = []          # [(number of pc formulas below this level, [formulas])]
            self._asserted = []
        s.set('timeout', ms)
        pc, old = st.pc, self._asserted
        n = min(len(pc), len(old))
        k = 0
        while k < n and pc[k] is old[k]:
            k += 1
        while self._lv and self._lv[-1] >= k and len(self._asserted) > k:
            s.pop()
            base = self._lv.pop()
            del self._asserted[base:]
        if len(self._asserted) > k:
            s.pop()
            base = self._lv.pop()
            del self._asserted[base:]
        if len(pc) > len(self._asserted):
            s.push()
            self._lv.append(len(self._asserted))
            new = pc[len(self._asserted):]
            s.add(*new)
            self._asserted.extend(new)
        s.push()
        s.add(*extra)
        r = s.check()
        m = s.model() if model and r == z3.sat else None
        why = s.reason_unknown() if r == z3.unknown else ''
        s.pop()
        self.solver_time += time.time() - t
        return r, Res(m, why)

    def feasible(self, st, cond):
        if is_true(cond):
            return True
        if is_false(cond):
            return False
        r, _ = self.sat(st, [cond], FEAS_MS, model=False)
        return r != z3.unsat

    def prove(self, st, goal):
        """-> (ok, model text)"""
        if is_true(goal):
            return True, ''
        r, s = self.sat(st, [z3.Not(goal)], CHECK_MS)
        if r == z3.unsat:
            return True, ''
        if r == z3.sat:
            return False, self.model_text(s.model())
        return False, 'unknown: ' + s.reason_unknown()

    def model_text(self, m):
        out = []
        for d in m.decls():
            v = str(m[d]).replace('\n', ' ')
            if len(v) < 160 and not d.name().startswith('fold:'):
                out.append('%s = %s' % (d.name(), v))
        return '; '.join(sorted(out)[:60])

    def oblige(self, st, name, goal, kind, props, line=''):
        if not self.record:
            return True
        if self.failed.get((name, line), 0) >= 3:
            return False      # refuted on other paths already
        t = time.time()
        ok, m = self.prove(st, goal)
        if not ok:
            self.failed[(name, line)] = self.failed.get((name, line), 0) + 1
        if not ok and os.environ.get('MIRV_DUMP'):
            print('FAILED', self.cur, name)
            for f in st.pc:
                print('   PC', str(f).replace('\n', ' ')[:int(os.environ['MIRV_DUMP'])])
            print('   GOAL', str(goal).replace('\n', ' ')[:2000])
        self.obls.append(Obl(self.cur, name, kind, tuple(props), ok, '', line, time.time() - t, m))
        return ok

    # ------------------------------------------------------------ heap
    def resolve(self, st, ref):
        v = st.heap[ref.cell]
        return self.walk(st, v, ref.path)

    def walk(self, st, v, path):
        for p in path:
            v = self.step(st, v, p)
        return v

    def walk_soft(self, st, v, path):
        for p in path:
            if isinstance(v, Undef) or (isinstance(v, PAgg) and p[0] == 'f' and p[2] >= len(v.fields)):
                return UNDEF
            v = self.step(st, v, p)
        return v

    def step(self, st, v, p):
        if isinstance(v, MutRef):
            v = self.resolve(st, v)
        k = p[0]
        if isinstance(v, Undef):
            raise Unsupported('read of an undefined value')
        if k == 'f':
            if isinstance(v, Opq):
                raise Unsupported('field of opaque ' + v.what)
            if isinstance(v, It):
                raise Unsupported('field of iterator')
            if is_z3(v) and not self.P.is_dt(v.sort()):
                raise Unsupported('field of %s' % v.sort())
            return self.P.get(v, p[1], p[2])
        if k == 'idx':
            arr, ln = self.P.vparts(v)
            return simp_select(arr, p[1])
        if k == 'map':
            return simp_select(self.P.get(v, 0, 1), p[1])
        if k == 'p':
            return v.fields[p[1]]
        if k == 'i':
            return v.f[p[1]]
        if k == 't':
            return v[p[1]]
        raise Unsupported('path ' + k)

    def update(self, st, v, path, new):
        if not path:
            return new
        p = path[0]
        if isinstance(v, MutRef):
            self.write_ref(st, MutRef(v.cell, v.path + tuple(path)), new)
            return v
        k = p[0]
        if k == 'f':
            if isinstance(v, Undef):
                v = PAgg(None, p[1], ())
            if isinstance(v, PAgg):
                fs = list(v.fields)
                while len(fs) <= p[2]:
                    fs.append(UNDEF)
                fs[p[2]] = self.update(st, fs[p[2]], path[1:], new)
                return PAgg(v.ty, p[1], fs)
            s = v.sort()
            c = s.constructor(p[1])
            fs = [self.P.get(v, p[1], j) for j in range(c.arity())]
            fs[p[2]] = self.update(st, fs[p[2]], path[1:], new)
            if not is_z3(fs[p[2]]):
                raise Unsupported('non-value stored in %s' % s)
            return self.P.con(s, p[1], *fs)
        if k == 'idx':
            arr, ln = self.P.vparts(v)
            old = simp_select(arr, p[1])
            nv = self.update(st, old, path[1:], new)
            arr2 = z3.Store(arr, p[1], nv)
            self.event(st, ('store', arr, p[1], ln, arr2))
            return self.P.mkvec(arr2, ln)
        if k == 'map':
            s = v.sort()
            old = simp_select(self.P.get(v, 0, 1), p[1])
            nv = self.update(st, old, path[1:], new)
            return s.constructor(0)(self.P.get(v, 0, 0), z3.Store(self.P.get(v, 0, 1), p[1], nv), self.P.get(v, 0, 2))
        if k == 'p':
            fs = list(v.fields)
            fs[p[1]] = self.update(st, fs[p[1]], path[1:], new)
            return PAgg(v.ty, v.variant, fs)
        if k == 'i':
            fs = list(v.f)
            fs[p[1]] = self.update(st, fs[p[1]], path[1:], new)
            return It(v.k, *fs)
        if k == 't':
            fs = list(v)
            fs[p[1]] = self.update(st, fs[p[1]], path[1:], new)
            return tuple(fs)
        raise Unsupported('update ' + k)

    def write_ref(self, st, ref, new):
        st.heap[ref.cell] = self.update(st, st.heap.get(ref.cell, UNDEF), ref.path, new)

    def deref_full(self, st, v):
        while isinstance(v, MutRef):
            v = self.resolve(st, v)
        return v

    def new_cell(self, st, v):
        c = ('c', self.fid())
        st.heap[c] = v
        return c

    # ------------------------------------------------------------ folds and events
    def event(self, st, ev):
        st.events.append(ev)
        for ins in st.inst:
            self.emit(st, ev, ins)
        for ins in st.inst:
            for d in self.doms:
                self.emit_dom(st, ev, d, ins)

    def add_inst(self, st, fold, ps):
        for (f, q) in st.inst:
            if f is fold and len(q) == len(ps) and all(x.eq(y) for x, y in zip(q, ps)):
                return
        ins = (fold, tuple(ps))
        st.inst.append(ins)
        for ev in st.events:
            self.emit(st, ev, ins)
            for d in self.doms:
                self.emit_dom(st, ev, d, ins)

    def points(self, ev):
        if ev[0] == 'touch':
            _, arr, i, ln = ev
            return arr, [(None, i), (None, i + 1), (None, ln), (i, ln), (i + 1, ln)]
        if ev[0] == 'vec':
            return ev[1], [(None, ev[2])]
        if ev[0] == 'pos':
            return ev[1], [(None, ev[2])]
        return None, []

    def emit(self, st, ev, ins):
        F, ps = ins
        k = ev[0]
        if k == 'vec':
            _, arr, ln = ev
            if not arr.sort().range().eq(F.elem):
                return
            st.assume(F(arr, z3.IntVal(0), *ps) == 0)
            if F.nonneg:
                st.assume(F(arr, ln, *ps) >= 0)
        elif k == 'pos':
            _, arr, i = ev
            if not arr.sort().range().eq(F.elem):
                return
            if F.nonneg:
                st.assume(F(arr, i, *ps) >= 0)
        elif k == 'touch':
            _, arr, i, ln = ev
            if not arr.sort().range().eq(F.elem):
                return
            st.assume(F(arr, z3.IntVal(0), *ps) == 0)
            t = F.term(simp_select(arr, i), *ps)
            st.assume(z3.Implies(i >= 0, F(arr, simp(i + 1), *ps) == F(arr, i, *ps) + t))
            if F.nonneg:
                st.assume(z3.Implies(z3.And(i >= 0, i + 1 <= ln),
                                     z3.And(F(arr, i, *ps) >= 0, F(arr, simp(i + 1), *ps) <= F(arr, ln, *ps))))
                for g in self.ctxg.values():
                    if g.sort().eq(z3.IntSort()) and not g.eq(i):
                        for (lo, hi) in ((i, g), (i + 1, g), (g, i), (g + 1, i)):
                            st.assume(z3.Implies(z3.And(lo >= 0, lo <= hi), F(arr, simp(lo), *ps) <= F(arr, simp(hi), *ps)))
        elif k == 'store':
            _, arr, i, ln, arr2 = ev
            if not arr.sort().range().eq(F.elem):
                return
            old, new = simp_select(arr, i), simp_select(arr2, i)
            d = F.term(new, *ps) - F.term(old, *ps)
            st.assume(z3.Implies(z3.And(i >= 0, i < ln), z3.And(F(arr2, ln, *ps) == F(arr, ln, *ps) + d,
                                                               F(arr2, i, *ps) == F(arr, i, *ps))))
        elif k == 'push':
            _, arr, ln, arr2 = ev
            if not arr.sort().range().eq(F.elem):
                return
            st.assume(F(arr2, z3.IntVal(0), *ps) == 0)
            st.assume(z3.Implies(ln >= 0, z3.And(F(arr2, ln, *ps) == F(arr, ln, *ps),
                                                 F(arr2, simp(ln + 1), *ps) == F(arr, ln, *ps) + F.term(simp_select(arr2, ln), *ps))))
            st.assume(z3.Implies(ln == 0, F(arr, ln, *ps) == 0))
        elif k == 'perm':      # same elements in another order (trusted: slice sort, reverse)
            _, arr, ln, arr2 = ev
            if not arr.sort().range().eq(F.elem):
                return
            st.assume(F(arr2, ln, *ps) == F(arr, ln, *ps))
        elif k == 'concat':    # arr2 = arr ++ b
            _, arr, ln, b, bl, arr2 = ev
            if not arr.sort().range().eq(F.elem):
                return
            st.assume(F(arr2, simp(ln + bl), *ps) == F(arr, ln, *ps) + F(b, bl, *ps))
            st.assume(F(arr2, ln, *ps) == F(arr, ln, *ps))
            for (x, l) in ((arr, ln), (b, bl)):
                st.assume(z3.Implies(l == 0, F(x, l, *ps) == 0))
        elif k == 'prefix':    # arr2 agrees with arr below ln
            _, arr, ln, arr2 = ev
            if not arr.sort().range().eq(F.elem):
                return
            st.assume(F(arr2, ln, *ps) == F(arr, ln, *ps))

    def emit_dom(self, st, ev, d, ins):
        """termwise lemmas over prefixes and suffixes, for the combinations `ins` takes part in"""
        arr, pts = self.points(ev)
        if arr is None or ins[0] not in d.Fs or not arr.sort().range().eq(d.Fs[0].elem):
            return
        pools = [[i for i in st.inst if i[0] is F] for F in d.Fs]
        for combo in itertools.product(*pools):
            if not any(x is ins for x in combo):
                continue
            k = ('dom', id(d), arr.get_id(), ev[0], tuple(x.get_id() for x in ev[2:] if is_z3(x)), tuple(tuple(p.get_id() for p in c[1]) for c in combo))
            if k in st.known:
                continue
            st.known[k] = (ev, combo)
            pars = [c[1] for c in combo]
            for (m, n) in pts:
                n = simp(n)
                if m is None:
                    f = z3.Implies(n >= 0, d.rel([c[0](arr, n, *c[1]) for c in combo], pars))
                else:
                    m = simp(m)
                    f = z3.Implies(z3.And(m >= 0, m <= n), d.rel([c[0](arr, n, *c[1]) - c[0](arr, m, *c[1]) for c in combo], pars))
                st.assume(simp(f))

    def touch(self, st, arr, i, ln):
        i = simp(i)
        key = ('t', arr.get_id(), i.get_id())
        if key in st.known:
            return
        st.known[key] = (arr, i)
        if self.curc and self.curc.opts.get('on_touch'):
            for (srt, fn) in self.curc.opts['on_touch'].items():
                if arr.sort().range().name() == srt:
                    for (F, ps) in fn(self, simp_select(arr, i)):
                        self.add_inst(st, F, ps)
        self.event(st, ('touch', arr, i, ln))
        self.text_touch(st, arr, i)
        self.M.on_touch(st, arr, i, ln)

    def text_folds(self):
        tf = self.curc.opts.get('text') if self.curc else None
        return tf(self.ctx0) if tf else ()

    def text_touch(self, st, arr, i=None):
        """what is kept of no characters, and of one more"""
        M, Str = self.M, self.P.Str
        for (F, ps) in self.text_folds():
            if not F.elem.eq(arr.sort().range()):
                continue
            if F.step:
                st.assume(F(arr, z3.IntVal(0), *ps) == F.init(self, *ps))
                if i is not None:
                    st.assume(z3.Implies(i >= 0, F(arr, simp(i + 1), *ps) == F.step(self, arr, i, *ps)))
                continue
            st.assume(F(arr, z3.IntVal(0), *ps) == self.P.lit(''))
            if i is not None:
                x = simp_select(arr, i)
                img = F.image(x, *ps) if F.image else x
                img = img if F.elem.eq(Str) else M.uf('str_of_char', [simp(img)], Str)
                f = F(arr, i, *ps)
                if F.lo is not None:
                    st.assume(z3.Implies(z3.And(i >= 0, i <= F.lo(*ps)), f == self.P.lit('')))
                    st.assume(z3.Implies(z3.And(i >= -1, i + 1 <= F.lo(*ps)), F(arr, simp(i + 1), *ps) == self.P.lit('')))
                st.assume(z3.Implies(i >= 0, F(arr, simp(i + 1), *ps) == z3.If(F.keep(x, i, *ps), M.uf('concat', [f, img], Str), f)))

    def seen_vec(self, st, v):
        arr, ln = self.P.vparts(v)
        key = ('v', arr.get_id(), ln.get_id())
        if key in st.known:
            return arr, ln
        st.known[key] = (arr, ln)
        if not z3.is_int_value(ln):
            st.assume(z3.And(ln >= 0, ln <= 2**31 - 1))
        self.event(st, ('vec', arr, ln))
        return arr, ln

    # ------------------------------------------------------------ places
    def place_ty(self, fr, pl):
        ty = fr.body['locals'][pl['local']]
        return ty

    def local_cell(self, fr, l):
        return (fr.id, l)

    def place_path(self, st, fr, pl):
        """-> (cell, path) of a place, following &mut; shared refs and boxes are transparent"""
        cell = self.local_cell(fr, pl['local'])
        path = []
        variant = 0
        for e in pl['projection']:
            if e == 'Deref':
                v = self.walk(st, st.heap.get(cell, UNDEF), path)
                if isinstance(v, MutRef):
                    cell, path = v.cell, list(v.path)
                elif isinstance(v, Opq) and v.what == 'rawbox':
                    cell, path = v.data, []
                variant = 0
            elif 'Downcast' in e:
                variant = e['Downcast']
            elif 'Field' in e:
                v = self.walk_soft(st, st.heap.get(cell, UNDEF), path)
                if isinstance(v, MutRef):
                    cell, path = v.cell, list(v.path)
                if isinstance(v, Opq) and v.what == 'rawbox':
                    continue     # the pointer inside a box
                path.append(('f', variant, e['Field'][0]))
                variant = 0
            elif 'Index' in e:
                i = st.heap[self.local_cell(fr, e['Index'])]
                v = self.walk(st, st.heap.get(cell, UNDEF), path)
                while isinstance(v, MutRef):
                    cell, path = v.cell, list(v.path)
                    v = self.walk(st, st.heap.get(cell, UNDEF), path)
                arr, ln = self.seen_vec(st, v)
                self.touch(st, arr, i, ln)
                path.append(('idx', i))
            elif 'ConstantIndex' in e:
                ci = e['ConstantIndex']
                v = self.walk(st, st.heap.get(cell, UNDEF), path)
                arr, ln = self.seen_vec(st, v)
                i = z3.IntVal(ci['offset']) if not ci['from_end'] else simp(ln - ci['offset'])
                self.touch(st, arr, i, ln)
                path.append(('idx', i))
            elif 'Subtype' in e or 'OpaqueCast' in e:
                pass
            else:
                raise Unsupported('projection ' + str(e))
        return cell, path

    def place_type(self, fr, pl):
        P = self.P
        ty = fr.body['locals'][pl['local']]
        variant = 0
        for e in pl['projection']:
            t = P.t(ty)
            if e == 'Deref':
                ty = t['t'] if t['k'] in ('ref', 'ptr') else t['args'][0]
            elif 'Downcast' in e:
                variant = e['Downcast']
            elif 'Field' in e:
                ty = e['Field'][1]
            elif 'Index' in e or 'ConstantIndex' in e:
                ty = t['t'] if t['k'] in ('slice', 'array') else t['args'][0]
            else:
                raise Unsupported('type of projection ' + str(e))
        return ty

    def read(self, st, fr, pl):
        cell, path = self.place_path(st, fr, pl)
        v = self.walk(st, st.heap.get(cell, UNDEF), path)
        if is_z3(v) and z3.is_int(v) and not z3.is_int_value(v) and pl['projection']:
            self.int_range(st, v, self.place_type(fr, pl))
        return v

    def int_range(self, st, v, ty):
        t = self.P.t(self.P.strip(ty))
        key = ('r', v.get_id())
        if key in st.known:
            return
        if t['k'] in ('int', 'uint'):
            lo, hi = INT_RANGE[t['n']]
            st.known[key] = v
            st.assume(z3.And(v >= lo, v <= hi))
        elif t['k'] == 'char':
            st.known[key] = v
            st.assume(z3.And(v >= 0, v <= 0x10ffff))
        elif t['k'] == 'adt' and t['name'] == 'chrono::NaiveDate':
            st.known[key] = v
            self.M.date_facts(st, v)

    def write(self, st, fr, pl, v):
        cell, path = self.place_path(st, fr, pl)
        if path or cell in st.heap or True:
            old = st.heap.get(cell, UNDEF)
            if path and isinstance(old, Undef):
                ty = fr.body['locals'][pl['local']]
                old = PAgg(ty, 0, ())
            if path and isinstance(old, Opq) and old.what == 'boxcell':
                pass
            st.heap[cell] = self.update(st, old, path, v)
        # a partially built struct may be complete now
        if path and isinstance(st.heap[cell], PAgg) and cell == self.local_cell(fr, pl['local']):
            st.heap[cell] = self.try_pack(fr.body['locals'][pl['local']], st.heap[cell])

    def try_pack(self, ty, v):
        s = self.P.sort(ty)
        if s is None or not self.P.is_dt(s) or not isinstance(v, PAgg):
            return v
        if s.constructor(v.variant).arity() == len(v.fields) and all(is_z3(x) for x in v.fields):
            return self.P.con(s, v.variant, *v.fields)
        return v

    # ------------------------------------------------------------ operands, rvalues
    def operand(self, st, fr, o):
        if 'Copy' in o:
            return self.read(st, fr, o['Copy'])
        if 'Move' in o:
            return self.read(st, fr, o['Move'])
        if 'Constant' in o:
            return self.P.const(o['Constant']['const_']['id'], self)
        if 'RuntimeChecks' in o:
            return z3.BoolVal(False)
        raise Unsupported('operand ' + str(o)[:60])

    def operand_ty(self, fr, o):
        if 'Copy' in o:
            return self.place_type(fr, o['Copy'])
        if 'Move' in o:
            return self.place_type(fr, o['Move'])
        return self.P.C[str(o['Constant']['const_']['id'])]['ty']

    def mkagg(self, ty, variant, fields):
        s = self.P.sort(ty)
        if s is not None and all(is_z3(x) for x in fields):
            if s.eq(self.P.Unit):
                return self.P.Unit.constructor(0)()
            return self.P.con(s, variant, *fields)
        return PAgg(ty, variant, fields)

    def rvalue(self, st, fr, r, dest_ty):
        P = self.P
        if isinstance(r, str):
            raise Unsupported('rvalue ' + r)
        k = next(iter(r))
        v = r[k]
        if k == 'Use':
            return self.operand(st, fr, v[0] if isinstance(v, list) else v)
        if k == 'Ref':
            kind, pl = v[1], v[2]
            if kind == 'Shared' or (isinstance(kind, dict) and 'Fake' in kind):
                return self.read(st, fr, pl)
            cell, path = self.place_path(st, fr, pl)
            # &mut through a shared value cannot happen; a &mut to a &mut is followed on use
            return MutRef(cell, path)
        if k in ('AddressOf', 'RawPtr'):
            pl = v[1]
            cell, path = self.place_path(st, fr, pl)
            return MutRef(cell, path)
        if k == 'CopyForDeref':
            return self.read(st, fr, v)
        if k == 'Aggregate':
            ak, ops = v
            vals = [self.operand(st, fr, o) for o in ops]
            if ak == 'Tuple':
                return self.mkagg(dest_ty, 0, vals)
            kk = next(iter(ak))
            if kk == 'Adt':
                return self.mkagg(dest_ty, ak['Adt'][1], vals)
            if kk == 'Closure':
                return PAgg(dest_ty, 0, vals)
            if kk == 'Array':
                es = P.sort(P.t(dest_ty)['t'])
                if es is None or not all(is_z3(x) for x in vals):
                    return Opq('array', tuple(vals))
                arr = self.fresh(z3.ArraySort(z3.IntSort(), es), 'arr')
                w = P.mkvec(arr, z3.IntVal(0))
                for x in vals:
                    w = self.M.vec_push(st, w, x)
                return w
            raise Unsupported('aggregate ' + kk)
        if k == 'Discriminant':
            x = self.read(st, fr, v)
            x = self.deref_full(st, x)
            ty = self.place_type(fr, v)
            t = P.t(P.strip(ty))
            if isinstance(x, PAgg):
                return z3.IntVal(int(t['variants'][x.variant]['disc']))
            if not is_z3(x) or not P.is_dt(x.sort()):
                if isinstance(x, Opq) and x.what == 'zst:std::option::Option<never:>':
                    return z3.IntVal(0)
                raise Unsupported('discriminant of %r' % (x,))
            return Discr(x, [int(vv['disc']) for vv in t['variants']])
        if k == 'BinaryOp':
            return self.binop(st, v[0], self.num(self.operand(st, fr, v[1])), self.num(self.operand(st, fr, v[2])), self.operand_ty(fr, v[1]), dest_ty)
        if k == 'CheckedBinaryOp':
            a, b = self.num(self.operand(st, fr, v[1])), self.num(self.operand(st, fr, v[2]))
            ty = self.operand_ty(fr, v[1])
            res = self.binop(st, v[0], a, b, ty, None)
            lo, hi = INT_RANGE[P.t(ty)['n']]
            ovf = simp(z3.Or(res < lo, res > hi))
            return self.mkagg(dest_ty, 0, [res, ovf])
        if k == 'UnaryOp':
            a = self.num(self.operand(st, fr, v[1]))
            if v[0] == 'Not':
                if z3.is_bool(a):
                    return simp(z3.Not(a))
                raise Unsupported('bitwise not')
            if v[0] == 'Neg':
                return simp(-a)
            if v[0] == 'PtrMetadata':
                if is_z3(a) and P.is_vec(a.sort()):
                    return self.seen_vec(st, a)[1]
                if is_z3(a) and a.sort().eq(P.Str):
                    return self.M.strlen(st, a)
            raise Unsupported('unop ' + v[0])
        if k == 'Cast':
            kind, o, ty = v
            x = self.operand(st, fr, o)
            if kind in ('IntToInt',):
                x = self.num(x)
                if z3.is_bool(x):
                    return z3.If(x, z3.IntVal(1), z3.IntVal(0))
                t = P.t(ty)
                if t['k'] == 'char':
                    return x
                lo, hi = INT_RANGE[t['n']]
                if z3.is_int_value(x):
                    n = x.as_long()
                    m = hi - lo + 1
                    return z3.IntVal((n - lo) % m + lo)
                st0 = self.P.t(self.operand_ty(fr, o))
                if st0['k'] in ('int', 'uint'):
                    l2, h2 = INT_RANGE[st0['n']]
                    if l2 >= lo and h2 <= hi:
                        return x
                if st0['k'] == 'char' and hi >= 0x10ffff:
                    return x
                m = hi - lo + 1
                return z3.If(z3.And(x >= lo, x <= hi), x, (x - lo) % m + lo)
            if kind == 'IntToFloat':
                return z3.ToReal(self.num(x))
            if kind == 'FloatToInt':
                lo, hi = INT_RANGE[P.t(ty)['n']]
                q = z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
                return z3.If(x <= lo, z3.IntVal(lo), z3.If(x >= hi, z3.IntVal(hi), q))
            if kind == 'FloatToFloat':
                return x
            if kind == 'BoxDerefTransmute' or kind == 'Transmute' or kind == 'PtrToPtr':
                return x
            if isinstance(kind, dict) and 'PointerCoercion' in kind:
                pc = kind['PointerCoercion']
                if isinstance(pc, str) and pc == 'Unsize' or isinstance(pc, dict):
                    return x
                return x
            raise Unsupported('cast ' + str(kind))
        if k == 'Len':
            x = self.deref_full(st, self.read(st, fr, v))
            return self.seen_vec(st, x)[1]
        if k == 'Repeat':
            raise Unsupported('repeat')
        if k == 'ThreadLocalRef':
            raise Unsupported('thread local')
        raise Unsupported('rvalue ' + k)

    def num(self, x):
        if isinstance(x, Discr):
            r = z3.IntVal(x.discs[-1])
            for i in range(len(x.discs) - 2, -1, -1):
                r = z3.If(self.P.isv(x.expr, i), z3.IntVal(x.discs[i]), r)
            return simp(r)
        return x

    def binop(self, st, op, a, b, ty, dest_ty):
        P = self.P
        if isinstance(op, dict):
            op = next(iter(op))
        if op in ('Eq', 'Ne'):
            if not (is_z3(a) and is_z3(b)):
                raise Unsupported('comparison of non-values')
            e = simp(a == b)
            return e if op == 'Eq' else simp(z3.Not(e))
        if not (is_z3(a) and is_z3(b)):
            raise Unsupported('arithmetic on non-values')
        if z3.is_bool(a):
            if op == 'BitAnd':
                return simp(z3.And(a, b))
            if op == 'BitOr':
                return simp(z3.Or(a, b))
            if op == 'BitXor':
                return simp(z3.Xor(a, b))
            a, b = z3.If(a, z3.IntVal(1), z3.IntVal(0)), z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if op == 'Lt':
            return simp(a < b)
        if op == 'Le':
            return simp(a <= b)
        if op == 'Gt':
            return simp(a > b)
        if op == 'Ge':
            return simp(a >= b)
        if op == 'Cmp':
            o = self.ordering_sort()
            return z3.If(a < b, o.constructor(0)(), z3.If(a == b, o.constructor(1)(), o.constructor(2)()))
        isf = z3.is_real(a)
        if op in ('Add', 'AddUnchecked'):
            return simp(a + b)
        if op in ('Sub', 'SubUnchecked'):
            return simp(a - b)
        if op in ('Mul', 'MulUnchecked'):
            if is_num(a) or is_num(b):
                return simp(a * b)
            if isf:
                return self.M.fmul(st, a, b)
            return a * b
        if op == 'Div':
            if isf:
                if is_num(b) and not is_zero(b):
                    return simp(a / b)
                return self.M.fdiv(st, a, b)
            # rust truncates towards zero; z3 div floors for positive divisors
            if z3.is_int_value(b) and b.as_long() > 0:
                return simp(z3.If(a >= 0, a / b, -((-a) / b)))
            raise Unsupported('division by a non-constant')
        if op == 'Rem':
            if not isf and z3.is_int_value(b) and b.as_long() > 0:
                return simp(z3.If(a >= 0, a % b, -((-a) % b)))
            raise Unsupported('remainder')
        raise Unsupported('binop ' + op)

    def ordering_sort(self):
        for k, t in self.P.T.items():
            if t['k'] == 'adt' and t['name'] == 'std::cmp::Ordering':
                return self.P.sort(int(k))
        raise Unsupported('no Ordering')

    # ------------------------------------------------------------ control flow
    def loops_of(self, key, body):
        if key in self._loops:
            return self._loops[key]
        succ = []
        for b in body['blocks']:
            t = b['t']
            s = []
            if isinstance(t, dict):
                k = next(iter(t))
                v = t[k]
                if k == 'Goto':
                    s = [v['target']]
                elif k == 'SwitchInt':
                    s = [x[1] for x in v['targets']['branches']] + [v['targets']['otherwise']]
                elif k == 'Call':
                    s = [v['target']] if v['target'] is not None else []
                elif k in ('Drop', 'Assert'):
                    s = [v['target']]
                elif 'target' in v:
                    s = [v['target']]
            succ.append(s)
        # back edges by DFS
        color = {}
        back = []
        stack = [(0, iter(succ[0]))]
        color[0] = 1
        while stack:
            n, it = stack[-1]
            for m in it:
                if color.get(m) == 1:
                    back.append((n, m))
                elif m not in color:
                    color[m] = 1
                    stack.append((m, iter(succ[m])))
                    break
            else:
                color[n] = 2
                stack.pop()
        pred = {}
        for i, s in enumerate(succ):
            for m in s:
                pred.setdefault(m, []).append(i)
        loops = {}
        for (n, h) in back:
            bodyset = loops.setdefault(h, {h})
            work = [n]
            while work:
                x = work.pop()
                if x in bodyset or x not in color:
                    continue
                bodyset.add(x)
                work.extend(pred.get(x, []))
        self._loops[key] = loops
        return loops

    def exec_fn(self, st, key, args):
        f = self.P.F.get(key)
        if f is None or f['body'] is None:
            raise Unsupported('no body for ' + (f['name'] if f else key))
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('inlining too deep (recursion?) in ' + f['name'])
        try:
            body = f['body']
            fr = Frame(('fr', self.fid()), f, body, self.loops_of(key, body))
            for i, a in enumerate(args):
                st.heap[self.local_cell(fr, i + 1)] = a
            if body.get('spread') is not None and body['spread']:
                self.spread_args(st, fr, body, args)
            outs = []
            for o in self.exec_region(st, fr, 0, None, None):
                if o[0] == 'ret':
                    s = o[1]
                    ret = s.heap.get(self.local_cell(fr, 0), None)
                    if ret is None:
                        ret = self.P.Unit.constructor(0)()
                    for c in [c for c in s.heap if c[0] == fr.id]:
                        del s.heap[c]
                    outs.append((s, ret))
                else:
                    raise Unsupported('control flow')
            return outs
        finally:
            self.depth -= 1

    def spread_args(self, st, fr, body, args):
        raise Unsupported('spread args')

    def exec_region(self, st, fr, start, header, bodyset):
        outs = []
        work = [(st, start, True)]
        while work:
            s, b, first = work.pop()
            if b == header and not first:
                outs.append(('cont', s))
                continue
            if bodyset is not None and b not in bodyset:
                outs.append(('exit', s, b))
                continue
            if b in fr.loops and not (first and b == header):
                for o in self.mir_loop(s, fr, b):
                    if o[0] == 'ret':
                        outs.append(o)
                    else:
                        work.append((o[1], o[2], False))
                continue
            for (s2, nb) in self.exec_block(s, fr, b):
                if nb == 'ret':
                    outs.append(('ret', s2))
                else:
                    work.append((s2, nb, False))
        return outs

    def mir_loop(self, st, fr, header):
        bodyset = fr.loops[header]

        def step(s):
            res = []
            for o in self.exec_region(s, fr, header, header, bodyset):
                if o[0] == 'cont':
                    res.append(('cont', o[1]))
                elif o[0] == 'ret':
                    res.append(('exit', o[1], ('ret',)))
                else:
                    res.append(('exit', o[1], ('exit', o[2])))
            return res
        outs = []
        for (s, payload) in self.run_loop(st, step, '%s bb%d' % (fr.fn['name'], header)):
            if payload[0] == 'ret':
                outs.append(('ret', s))
            else:
                outs.append(('exit', s, payload[1]))
        return outs

    def exec_block(self, st, fr, b):
        blk = fr.body['blocks'][b]
        for s in blk['st']:
            if isinstance(s, dict):
                if 'Assign' in s:
                    pl, r = s['Assign']
                    dty = self.place_type(fr, pl)
                    v = self.rvalue(st, fr, r, dty)
                    self.write(st, fr, pl, v)
                elif 'SetDiscriminant' in s:
                    raise Unsupported('SetDiscriminant')
                elif 'Intrinsic' in s:
                    iv = s['Intrinsic']
                    if 'Assume' in iv:
                        st.assume(self.operand(st, fr, iv['Assume']))
                    else:
                        raise Unsupported('intrinsic statement')
        t = blk['t']
        if isinstance(t, str):
            if t == 'Return':
                return [(st, 'ret')]
            if t == 'Unreachable':
                return []
            if t in ('Resume', 'Abort'):
                return []
            raise Unsupported('terminator ' + t)
        k = next(iter(t))
        v = t[k]
        if k == 'Goto':
            return [(st, v['target'])]
        if k == 'Drop':
            return [(st, v['target'])]
        if k == 'SwitchInt':
            return self.switch(st, fr, v)
        if k == 'Assert':
            c = self.num(self.operand(st, fr, v['cond']))
            if not v['expected']:
                c = simp(z3.Not(c))
            msg = v['msg'] if isinstance(v['msg'], str) else next(iter(v['msg']))
            if not is_true(c):
                self.oblige(st, 'no-%s-panic@%s' % (msg, self.where(fr, blk)), c, 'panic', self.panic_props(msg), blk['line'])
                st.assume(c)
                if is_false(c) or not self.feasible(st, z3.BoolVal(True)) :
                    return []
            return [(st, v['target'])]
        if k == 'Call':
            return self.call_term(st, fr, v, blk)
        raise Unsupported('terminator ' + k)

    def panic_props(self, msg):
        return self.curc.panic_props if self.curc else ()

    def where(self, fr, blk):
        return fr.fn['name'].replace('silverfox::', '')

    def branch(self, st, conds):
        """fork over (cond, tag); conds exclusive. -> [(st, tag)]"""
        outs = []
        live = [(c, tg) for c, tg in conds if not is_false(c)]
        for c, tg in live:
            if is_true(c):
                return [(st, tg)]
        for c, tg in live:
            kv = st.known.get(('c', c.get_id()))
            if kv is not None:
                if kv[1]:
                    return [(st, tg)]
                continue
            if self.feasible(st, c):
                outs.append((c, tg))
        if len(outs) == 1:
            c, tg = outs[0]
            st.assume(c)
            st.known[('c', c.get_id())] = (c, True)
            return [(st, tg)]
        res = []
        for c, tg in outs:
            s = st.copy()
            s.assume(c)
            s.known[('c', c.get_id())] = (c, True)
            for c2, _ in outs:
                if c2 is not c:
                    s.known[('c', c2.get_id())] = (c2, False)
            res.append((s, tg))
        return res

    def switch(self, st, fr, v):
        d = self.operand(st, fr, v['discr'])
        br = v['targets']['branches']
        oth = v['targets']['otherwise']
        conds = []
        if isinstance(d, Discr):
            used = []
            for val, tgt in br:
                for i, dv in enumerate(d.discs):
                    if (dv - int(val)) % 256 == 0 and dv == int(val) or dv == to_signed(int(val)):
                        c = self.P.isv(d.expr, i)
                        conds.append((c, tgt))
                        used.append(i)
            rest = [i for i in range(len(d.discs)) if i not in used]
            if rest:
                conds.append((simp(z3.Or(*[self.P.isv(d.expr, i) for i in rest])), oth))
        elif z3.is_bool(d):
            for val, tgt in br:
                conds.append((d if int(val) else simp(z3.Not(d)), tgt))
            if len(br) == 1:
                conds.append((simp(z3.Not(d)) if int(br[0][0]) else d, oth))
        else:
            ty = self.P.t(self.operand_ty(fr, v['discr']))
            for val, tgt in br:
                n = int(val)
                if ty['k'] == 'int' and n > INT_RANGE[ty['n']][1]:
                    n -= INT_RANGE[ty['n']][1] * 2 + 2
                conds.append((simp(d == n), tgt))
            conds.append((simp(z3.And(*[z3.Not(c) for c, _ in conds])), oth))
        return self.branch(st, conds)

    def call_term(self, st, fr, v, blk):
        fty = self.operand_ty(fr, v['func']) if 'Constant' in v['func'] else None
        args = [self.operand(st, fr, a) for a in v['args']]
        argtys = [self.operand_ty(fr, a) for a in v['args']]
        args = [self.num(a) for a in args]
        dty = self.place_type(fr, v['destination'])
        if fty is None:
            fv = self.operand(st, fr, v['func'])
            if isinstance(fv, FnVal):
                fty = fv.ty
            else:
                raise Unsupported('call through a pointer')
        outs = self.call(st, fty, args, argtys, dty, fr, blk)
        res = []
        for (s, r) in outs:
            if v['target'] is None:
                continue
            self.write(s, fr, v['destination'], r)
            res.append((s, v['target']))
        return res

    def call(self, st, fty, args, argtys, dty, fr, blk):
        """-> [(st, result)]"""
        t = self.P.t(fty)
        if t['k'] != 'fndef':
            raise Unsupported('call of ' + t['k'])
        inst = t.get('inst')
        iname = inst['name'] if inst else t['def']
        r = self.M.model(st, t, inst, args, argtys, dty, fr, blk)
        if r is not None:
            return r
        if inst:
            f = self.P.F.get(inst['key'])
            if f is not None:
                c = self.contracts.get(f['name'])
                if c is not None and not c.opts.get('checkonly') and f['name'] not in (self.curc.inline if self.curc else ()):
                    return self.call_contract(st, c, f, args, argtys, dty, fr, blk)
                if f['body'] is not None:
                    if f['local']:
                        self.inlined.add(f['name'])
                    return self.merge(st, self.exec_fn(st, inst['key'], args))
        raise Unsupported('call to ' + iname)

    def merge(self, st0, outs):
        return outs

    # ------------------------------------------------------------ contracts
    def ghost_terms(self, st, sort):
        out = []
        for g in self.ctxg.values():
            if g.sort().eq(sort):
                out.append(g)
        for (F, ps) in st.inst:
            for p in ps:
                if p.sort().eq(sort) and not any(p.eq(x) for x in out):
                    out.append(p)
        return out

    def call_contract(self, st, c, f, args, argtys, dty, fr, blk):
        self.called.add(c.name)
        for i, a in enumerate(args):
            # a crate-local iterator held by a for loop
            v = self.resolve(st, a) if isinstance(a, MutRef) else None
            while isinstance(v, MutRef):
                v = self.resolve(st, v)
            if isinstance(v, It) and v.k == 'local':
                args = list(args)
                args[i] = MutRef(v.f[1], ())
        if c.native:
            r = c.native(self, st, args, argtys, dty)
            if r is not None:
                return r
        ctx = Ctx(self, st, args, f)
        ctx.caller = True
        for g, srt in c.ghosts.items():
            ctx.ghost[g] = None
        for (nm, fm) in c.requires(ctx):
            self.oblige(st, 'pre:%s of %s' % (nm, c.name.replace('silverfox::', '')), fm, 'pre', c.opts.get('pre_props', self.curc.panic_props), blk['line'])
            st.assume(fm)
        for v in ctx.pre:
            self.oblige_tinv(st, v, z3.BoolVal(True), known=True)
        ac = (self.curc.opts.get('at_call') or {}).get(c.name) if self.curc else None
        if ac and self.record:
            # what the function under contract owes its user at this call
            for (nm, fm, pr) in ac(self, st, ctx):
                self.oblige(st, nm, fm, 'call', pr, blk['line'])
        for i in c.opts.get('witness', ()):
            if is_z3(ctx.pre[i]):
                st.known['witnesses'] = st.known.get('witnesses', ()) + (ctx.pre[i],)
        # effects on &mut arguments
        for i, a in enumerate(args):
            if isinstance(a, MutRef):
                if c.modifies is not None and i not in c.modifies:
                    continue
                old = self.resolve(st, a)
                if not is_z3(old):
                    raise Unsupported('contract call with a python-level &mut')
                if c.opts.get('function'):
                    new = self.post_of(c, i, ctx.pre)
                elif c.modifies is not None:
                    new = self.havoc_fields(st, old, c.modifies[i])
                else:
                    new = self.fresh(old.sort(), 'm')
                self.write_ref(st, a, new)
        if c.opts.get('io'):
            w = self.fresh(z3.IntSort(), 'io_writes')
            b = self.fresh(z3.BoolSort(), 'io_bad')
            st.heap[('io',)] = PAgg(None, 0, (w, b))
        rs = self.P.sort(dty)
        if rs is None:
            raise Unsupported('contract call returning a python-level value: ' + c.name)
        if c.pure or c.opts.get('function'):
            ret = self.pure_ret(c, ctx.pre, rs)
        else:
            ret = self.fresh(rs, 'r_' + c.name.split('::')[-1])
        self.int_range(st, ret, dty)
        ctx.finish(st, ret)
        if c.opts.get('last'):
            st.known['last:' + c.name.split('::')[-1]] = ctx.ret
        if c.opts.get('opaque') and not (self.curc and c.name.split('::')[-1] in self.curc.opts.get('reveal', ())):
            # callers know no more of the result than that it is a function of the arguments
            self.value_facts(st, ret)
            return [(st, ret)]
        if c.opts.get('tests'):
            st.heap[('tested',)] = self.P.isv(ctx.ret, 0)
            st.heap[('tested_text',)] = ctx.pre[1] if len(ctx.pre) > 1 and is_z3(ctx.pre[1]) and ctx.pre[1].sort().eq(self.P.Str) else self.fresh(self.P.Str, 'tested')
        names = list(c.ghosts)
        pools = []
        for g in names:
            ts = self.ghost_terms(st, c.ghosts[g])
            ex = c.opts.get('inst', {}).get(g)
            if ex:
                for x in ex(ctx):
                    if not any(x.eq(y) for y in ts):
                        ts.append(x)
            pools.append(ts or [z3.Const('any_' + g, c.ghosts[g])])
        for combo in itertools.product(*pools) if names else [()]:
            ctx.ghost = dict(zip(names, combo))
            for e in c.ensures(ctx):
                if isinstance(e[1], tuple):      # ('exists', sort, body)
                    w = self.fresh(e[1][1], 'wit')
                    st.assume(e[1][2](w))
                    if self.curc:
                        for (F, srt) in self.curc.auto:
                            if srt.eq(e[1][1]):
                                self.add_inst(st, F, (w,))
                else:
                    st.assume(e[1])
        self.value_facts(st, ret)
        for i, a in enumerate(args):
            if isinstance(a, MutRef):
                self.value_facts(st, ctx.post[i])
        return [(st, ret)]

    def post_of(self, c, i, args):
        """what a function whose effect is decided by its arguments leaves in the i-th of them"""
        return self.M.uf('post%d:%s' % (i, c.name), args, args[i].sort())

    def pure_ret(self, c, args, rs):
        return self.M.uf('pure:' + c.name, args, rs)

    def sort_terms(self, st, sort):
        out = self.ghost_terms(st, sort)
        for x in self.heap_terms(st, sort):
            if not any(x.eq(y) for y in out):
                out.append(x)
        return out or [self.fresh(sort, 'any')]

    def value_facts(self, st, v, depth=0):
        """facts true of every value of the type (vector lengths)"""
        if not is_z3(v) or not self.P.is_dt(v.sort()) or depth > 3:
            return
        s = v.sort()
        ti = self.tinv.get(s.name())
        if ti:
            key = ('ti', v.get_id())
            if key not in st.known:
                st.known[key] = v
                for fm in ti.assume(self, st, v):
                    st.assume(fm)
                self.assumptions.add(ti.text)
        if self.P.is_vec(s):
            self.seen_vec(st, v)
            return
        if self.P.is_map(s) or self.P.is_set(s):
            st.assume(self.P.get(v, 0, 2 if self.P.is_map(s) else 1) >= 0)
            return
        if s.num_constructors() == 1:
            for j in range(s.constructor(0).arity()):
                self.value_facts(st, self.P.get(v, 0, j), depth + 1)
        elif s.name().startswith(('std::option::Option<', 'std::result::Result<')) and not (z3.is_app(v) and v.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR):
            # (the payload of the other variant is an unconstrained value of its type)
            for k in range(s.num_constructors()):
                for j in range(s.constructor(k).arity()):
                    self.value_facts(st, self.P.get(v, k, j), depth + 1)

    def havoc_fields(self, st, old, fields):
        """new value of a struct with the named fields changed"""
        s = old.sort()
        if fields is True:
            return self.fresh(s, 'm')
        vs = []
        for j in range(s.constructor(0).arity()):
            fn = self.P.variants[s.name()][0][1][j]
            x = self.P.get(old, 0, j)
            if fn in fields:
                x = self.fresh(x.sort(), fn)
            vs.append(x)
        return self.P.con(s, 0, *vs)

    # ------------------------------------------------------------ loops
    def auto_inst(self, st):
        if self.curc:
            for (fold, srt) in self.curc.auto:
                for tm in self.heap_terms(st, srt):
                    self.add_inst(st, fold, (tm,))

    def run_loop(self, st0, step, label):
        """step(st) -> [('cont', st) | ('exit', st, payload)]; -> [(st, payload)]"""
        rec = self.record
        self.record = False
        try:
            self.auto_inst(st0)
            mods = []
            for _ in range(12):
                sth = self.havoc(st0, mods)
                new = []
                base = {c: sth.heap[c] for c in st0.heap}
                for o in step(sth.copy()):
                    if o[0] != 'cont':
                        continue
                    for c in st0.heap:
                        self.diff(c, (), base[c], o[1].heap.get(c, UNDEF), new)
                new = self.prune([x for x in new], mods)
                if not new:
                    break
                mods = self.prune_all(mods + new)
            else:
                raise Unsupported('modified variables of loop %s' % label)
            sth = self.havoc(st0, mods)
            self.auto_inst(sth)
            cands = self.candidates(st0, sth, mods)
            # the simple candidates hold on entry by construction; check them all anyway
            cands = self.houdini_filter(st0, cands, entry=True)
            for _ in range(40):
                s = sth.copy()
                for c in cands:
                    s.assume(c[2])
                n0 = len(cands)
                for o in step(s):
                    if o[0] != 'cont':
                        continue
                    self.auto_inst(o[1])
                    cands = self.houdini_filter(o[1], cands)
                if len(cands) == n0:
                    break
            else:
                raise Unsupported('invariants of loop %s do not settle' % label)
        finally:
            self.record = rec
        s = sth.copy()
        for c in cands:
            s.assume(c[2])
        outs = []
        for o in step(s):
            if o[0] == 'exit':
                outs.append((o[1], o[2]))
        if os.environ.get('MIRV_LOOPS'):
            print('LOOP', label, 'mods', [m for m in mods], 'inv', len(cands))
            for c in cands:
                print('    ', str(c[2]).replace('\n', ' ')[:300])
        return outs

    def prune(self, new, mods):
        out = []
        for m in new:
            if any(m[0] == o[0] and m[1][:len(o[1])] == o[1] for o in mods):
                continue
            if m not in out:
                out.append(m)
        return out

    def prune_all(self, mods):
        out = []
        for m in mods:
            if any(m is not o and m[0] == o[0] and len(o[1]) < len(m[1]) and m[1][:len(o[1])] == o[1] for o in mods):
                continue
            if m not in out:
                out.append(m)
        return out

    def diff(self, cell, path, old, new, out):
        if veq(old, new):
            return
        if is_z3(old) and is_z3(new) and old.sort().eq(new.sort()):
            s = old.sort()
            if self.P.is_dt(s) and s.num_constructors() == 1 and not s.eq(self.P.Unit) and not (
                    self.P.is_vec(s) or self.P.is_map(s) or self.P.is_set(s)):
                for j in range(s.constructor(0).arity()):
                    self.diff(cell, path + (('f', 0, j),), self.P.get(old, 0, j), self.P.get(new, 0, j), out)
                return
            a, b = simp(old), simp(new)
            if a.eq(b):
                return
        if isinstance(old, PAgg) and isinstance(new, PAgg) and old.variant == new.variant and len(old.fields) == len(new.fields):
            for j in range(len(old.fields)):
                self.diff(cell, path + (('p', j),), old.fields[j], new.fields[j], out)
            return
        if isinstance(old, It) and isinstance(new, It) and old.k == new.k and len(old.f) == len(new.f):
            for j in range(len(old.f)):
                self.diff(cell, path + (('i', j),), old.f[j], new.f[j], out)
            return
        out.append((cell, path))

    def havoc(self, st0, mods):
        s = st0.copy()
        for (cell, path) in mods:
            old = self.walk_raw(s.heap[cell], path)
            if is_z3(old):
                new = self.fresh(old.sort(), 'h')
                self.value_facts(s, new)
            else:
                new = UNDEF
            s.heap[cell] = self.update_raw(s, s.heap[cell], path, new)
        return s

    def walk_raw(self, v, path):
        for p in path:
            if p[0] == 'f':
                v = self.P.get(v, p[1], p[2])
            elif p[0] == 'p':
                v = v.fields[p[1]]
            elif p[0] == 'i':
                v = v.f[p[1]]
        return v

    def update_raw(self, st, v, path, new):
        if not path:
            return new
        p = path[0]
        if p[0] == 'f' and is_z3(v):
            s = v.sort()
            c = s.constructor(p[1])
            fs = [self.P.get(v, p[1], j) for j in range(c.arity())]
            fs[p[2]] = self.update_raw(st, fs[p[2]], path[1:], new)
            return self.P.con(s, p[1], *fs)
        return self.update(st, v, path, new)

    def heap_terms(self, st, sort):
        out = []

        def rec(v, d):
            if d > 4:
                return
            if is_z3(v):
                if v.sort().eq(sort):
                    if not any(v.eq(x) for x in out):
                        out.append(v)
                    return
                s = v.sort()
                if self.P.is_dt(s) and s.num_constructors() == 1 and not self.P.is_vec(s) and not self.P.is_map(s) and not self.P.is_set(s):
                    for j in range(s.constructor(0).arity()):
                        rec(self.P.get(v, 0, j), d + 1)
                elif self.P.is_dt(s) and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
                    for j in range(v.num_args()):
                        rec(v.arg(j), d + 1)
                elif self.P.is_opt(s):
                    rec(self.P.get(v, 1, 0), d + 1)
            elif isinstance(v, PAgg):
                for x in v.fields:
                    rec(x, d + 1)
        for v in st.heap.values():
            rec(v, 0)
        return out[:8]

    def iters(self, v, out, path=()):
        """all sequence positions inside a (python-level) value"""
        if isinstance(v, It):
            out.append((path, v))
            for j, x in enumerate(v.f):
                self.iters(x, out, path + (('i', j),))
        elif isinstance(v, PAgg):
            for j, x in enumerate(v.fields):
                self.iters(x, out, path + (('p', j),))

    def candidates(self, st0, sth, mods):
        """invariant candidates: [(name, thunk(st) -> formula, formula-on-header)]"""
        P = self.P
        obs = []      # (name, sortkind, getter(st) -> expr)  numeric observables that start at st0's value
        cands = []

        def add(name, fn):
            cands.append([name, fn])
        changed_pos = []
        for (cell, path) in mods:
            old = self.walk_raw(st0.heap[cell], path)

            def g(st, cell=cell, path=path):
                return self.walk_raw(st.heap[cell], path)
            if not is_z3(old):
                continue
            nm = '%s%s' % (cell, path)
            add('same', lambda st, g=g, old=old: g(st) == old)
            s = old.sort()
            if z3.is_int(old) or z3.is_real(old):
                obs.append((nm, s, lambda st, g=g: g(st), old))
                add('nonneg', lambda st, g=g: g(st) >= 0)
                if z3.is_int(old):
                    for k in (1, 2):
                        add('small', lambda st, g=g, k=k: g(st) <= k)
                if z3.is_int(old):
                    changed_pos.append((nm, g, old))
            elif z3.is_bool(old):
                pass
            elif P.is_vec(s):
                obs.append((nm + '.len', z3.IntSort(), lambda st, g=g: P.get(g(st), 0, 1), P.get(old, 0, 1)))
                for (F, ps) in st0.inst:
                    if F.elem.eq(P.get(old, 0, 0).sort().range()):
                        obs.append((nm + '.' + F.name, F.vsort, lambda st, g=g, F=F, ps=ps: F(*P.vparts(g(st)), *ps), F(*P.vparts(old), *ps)))
                add('emptysame', lambda st, g=g: z3.Implies(P.get(g(st), 0, 1) == 0, z3.BoolVal(True)))
            elif P.is_set(s) or P.is_map(s):
                j = 1 if P.is_set(s) else 2
                obs.append((nm + '.n', z3.IntSort(), lambda st, g=g, j=j: P.get(g(st), 0, j), P.get(old, 0, j)))
        # iterators
        for cell, v0 in st0.heap.items():
            its = []
            self.iters(v0, its)
            prog_terms = []
            for (path, it) in its:
                if it.k == 'seq':
                    mv = [(c, p) for (c, p) in mods if c == cell and p[:len(path)] == path]
                    if not mv:
                        continue

                    def gi(st, cell=cell, path=path):
                        return self.walk_raw(st.heap[cell], path)
                    lo0, hi0 = it.f[1], it.f[2]
                    add('lo', lambda st, gi=gi, lo0=lo0: gi(st).f[1] >= lo0)
                    add('hi', lambda st, gi=gi, hi0=hi0: gi(st).f[2] <= hi0)
                    add('lohi', lambda st, gi=gi: gi(st).f[1] <= gi(st).f[2])
                    obs.append(('prog', z3.IntSort(), lambda st, gi=gi, lo0=lo0, hi0=hi0: (gi(st).f[1] - lo0) + (hi0 - gi(st).f[2]), z3.IntVal(0)))
                    prog_terms.append((gi, it))
                elif it.k == 'chain':
                    def gc(st, cell=cell, path=path):
                        return self.walk_raw(st.heap[cell], path)
                    a, b = it.f[0], it.f[1]
                    if isinstance(a, It) and isinstance(b, It) and a.k == 'seq' and b.k == 'seq':
                        add('chain', lambda st, gc=gc, a=a, b=b: z3.Or(gc(st).f[0].f[1] == gc(st).f[0].f[2],
                                                                       gc(st).f[1].f[1] == b.f[1]))
                        add('chainr', lambda st, gc=gc, a=a, b=b: z3.Or(gc(st).f[1].f[1] == gc(st).f[1].f[2],
                                                                        gc(st).f[0].f[2] == a.f[2]))
            if prog_terms:
                for (F, ps) in st0.inst:
                    use = [(gi, it) for gi, it in prog_terms if is_z3(it.f[0]) and it.f[0].sort().range().eq(F.elem)]
                    if not use:
                        continue

                    def cons(st, use=use, F=F, ps=ps):
                        e = 0
                        for gi, it in use:
                            x = gi(st)
                            lo0, hi0 = it.f[1], it.f[2]
                            if not x.f[1].eq(lo0):
                                e = e + F(it.f[0], x.f[1], *ps) - F(it.f[0], lo0, *ps)
                            if not x.f[2].eq(hi0):
                                e = e + F(it.f[0], hi0, *ps) - F(it.f[0], x.f[2], *ps)
                        return e if is_z3(e) else (z3.RealVal(0) if F.vsort.kind() == z3.Z3_REAL_SORT else z3.IntVal(0))
                    zero = z3.RealVal(0) if F.vsort.kind() == z3.Z3_REAL_SORT else z3.IntVal(0)
                    obs.append(('cons.' + F.name, F.vsort, cons, zero))
                tot = lambda st, pt=prog_terms: sum([(gi(st).f[1] - it.f[1]) + (it.f[2] - gi(st).f[2]) for gi, it in pt], z3.IntVal(0))
                if len(prog_terms) > 1:
                    obs.append(('prog*', z3.IntSort(), tot, z3.IntVal(0)))
        # index loops: an integer that moves along an unmodified vector
        arrs = []
        for ev in sth.events:
            if ev[0] == 'vec' and not any(ev[1].eq(a) for a in arrs):
                arrs.append(ev[1])
        for (nm, g, old) in changed_pos[:4]:
            for arr in arrs[:6]:
                for (F, ps) in st0.inst:
                    if F.elem.eq(arr.sort().range()):
                        obs.append(('idx.' + F.name, F.vsort, lambda st, g=g, F=F, ps=ps, arr=arr: F(arr, g(st), *ps), F(arr, old, *ps)))
            for ev in sth.events:
                if ev[0] == 'vec':
                    add('idxlen', lambda st, g=g, ln=ev[2]: g(st) <= ln)
        # templates
        for i, (n1, s1, g1, o1) in enumerate(obs):
            add('ge', lambda st, g1=g1, o1=o1: g1(st) >= o1)
            add('le', lambda st, g1=g1, o1=o1: g1(st) <= o1)
            for (n2, s2, g2, o2) in obs[:i]:
                if not s1.eq(s2):
                    continue
                add('eq', lambda st, g1=g1, o1=o1, g2=g2, o2=o2: g1(st) - o1 == g2(st) - o2)
                if s1.kind() == z3.Z3_REAL_SORT:
                    add('neg', lambda st, g1=g1, o1=o1, g2=g2, o2=o2: g1(st) - o1 == o2 - g2(st))
                else:
                    add('bnd', lambda st, g1=g1, o1=o1, g2=g2, o2=o2: g1(st) - o1 <= g2(st) - o2)
                    add('bnd', lambda st, g1=g1, o1=o1, g2=g2, o2=o2: g2(st) - o2 <= g1(st) - o1)
        # flags
        for (cell, path) in mods:
            old = self.walk_raw(st0.heap[cell], path)
            if is_z3(old) and z3.is_bool(old):
                def g(st, cell=cell, path=path):
                    return self.walk_raw(st.heap[cell], path)
                for (n2, s2, g2, o2) in obs:
                    if n2.startswith(('cons', 'idx')):
                        add('flag', lambda st, g=g, g2=g2, o2=o2, old=old: z3.If(old, z3.BoolVal(True), g(st) == (g2(st) - o2 > 0)))
                        add('flag', lambda st, g=g, g2=g2, o2=o2, old=old: z3.If(old, g(st) == (g2(st) - o2 == 0), z3.BoolVal(True)))
            elif is_z3(old) and P.is_opt(old.sort()):
                def g(st, cell=cell, path=path):
                    return self.walk_raw(st.heap[cell], path)
                for (n2, s2, g2, o2) in obs:
                    if n2.startswith(('cons', 'idx')) and s2.kind() == z3.Z3_INT_SORT:
                        add('found', lambda st, g=g, g2=g2, o2=o2, old=old: z3.If(P.isv(old, 1), z3.BoolVal(True), P.isv(g(st), 1) == (g2(st) - o2 > 0)))
        if self.curc and self.curc.inv:
            L = LoopView(self, st0, sth, mods)
            for (nm, fn) in self.curc.inv(L):
                cands.append(['hint:' + nm, fn])
        out = []
        for nm, fn in cands:
            try:
                f = fn(sth)
            except (Unsupported, AttributeError, z3.Z3Exception, KeyError):
                continue
            f = simp(f)
            if is_true(f):
                continue
            out.append((nm, fn, f))
        return out

    def houdini_filter(self, st, cands, entry=False):
        """keep the candidates that hold in st"""
        todo = []
        for c in cands:
            try:
                f = c[1](st)
            except (Unsupported, AttributeError, z3.Z3Exception, KeyError, TypeError, IndexError):
                continue
            todo.append((c, simp(f)))
        todo = [(c, f) for c, f in todo if not is_false(f)]
        sure = [c for c, f in todo if is_true(f)]
        rest = [(c, f) for c, f in todo if not is_true(f)]
        while rest:
            r, s = self.sat(st, [z3.Not(z3.And(*[f for _, f in rest]))], CHECK_MS)
            if r == z3.unsat:
                break
            if r == z3.sat:
                m = s.model()
                keep = []
                for c, f in rest:
                    v = m.eval(f, model_completion=True)
                    if is_true(v):
                        keep.append((c, f))
                if len(keep) == len(rest):
                    # could not evaluate; fall back to one by one
                    keep = []
                    for c, f in rest:
                        r2, _ = self.sat(st, [z3.Not(f)], FEAS_MS)
                        if r2 == z3.unsat:
                            keep.append((c, f))
                    rest = keep
                    break
                rest = keep
            else:
                keep = []
                for c, f in rest:
                    r2, _ = self.sat(st, [z3.Not(f)], FEAS_MS)
                    if r2 == z3.unsat:
                        keep.append((c, f))
                rest = keep
                break
        return sure + [c for c, _ in rest]

    # ------------------------------------------------------------ verifying a function
    def verify(self, key, c):
        """verify fn `key` against contract c.  -> (obligations, info)"""
        P = self.P
        f = P.F[key]
        self.cur = f['name'].replace('silverfox::', '')
        self.curname = f['name']
        self.curc = c
        self.obls = []
        self.record = True
        self.nondet = False
        body = f['body']
        st = St()
        self.M.init_state(st)
        args = []
        for i in range(1, body['argc'] + 1):
            args.append(self.fresh_arg(st, body['locals'][i], 'arg%d' % i))
        ctx = Ctx(self, st, args, f)
        self.ctxg = {}
        for g, srt in c.ghosts.items():
            self.ctxg[g] = z3.Const('ghost_' + g, srt)
        ctx.ghost = self.ctxg
        self.ctx0 = ctx
        for v in ctx.pre:
            self.value_facts(st, v)
        for (F, ps) in c.folds(ctx):
            self.add_inst(st, F, ps)
        for (F, srt) in c.auto:
            for tm in self.heap_terms(st, srt):
                self.add_inst(st, F, (tm,))
        for (nm, fm) in c.requires(ctx):
            st.assume(fm)
        if c.setup:
            c.setup(ctx)
        r, _ = self.sat(st, [], CHECK_MS)
        if r == z3.unsat:
            self.obls.append(Obl(self.cur, 'requires-satisfiable', 'vacuity', c.props, False, 'the precondition is contradictory'))
            return self.obls
        outs = self.exec_fn(st, key, args)
        live = 0
        for (s, ret) in outs:
            r, _ = self.sat(s, [], CHECK_MS)
            if r == z3.unsat:
                continue
            live += 1
            ctx.finish(s, ret)
            for e in c.ensures(ctx):
                nm, fm = e[0], e[1]
                if isinstance(fm, tuple):
                    cands = self.sort_terms(s, fm[1])
                    cands += [w for w in s.known.get('witnesses', ()) if w.sort().eq(fm[1])]
                    fm = z3.Or(*[fm[2](w) for w in cands])
                pr = e[2] if len(e) > 2 else c.props
                self.oblige(s, nm, fm, 'text' if c.opts.get('wording') or nm in WORDING or nm.startswith(('classic: ', 'envelope: ')) else 'post', pr)
            for i, fl in (c.modifies or {}).items():
                if fl is not True:
                    srt = ctx.pre[i].sort()
                    for j in range(srt.constructor(0).arity()):
                        fn = P.variants[srt.name()][0][1][j]
                        if fn not in fl:
                            self.oblige(s, 'frame:' + fn, P.get(ctx.pre[i], 0, j) == P.get(ctx.post[i], 0, j), 'frame', c.props)
            if c.modifies is not None:
                for i, a in enumerate(args):
                    if isinstance(a, MutRef) and i not in c.modifies:
                        self.oblige(s, 'frame:argument %d' % i, ctx.pre[i] == ctx.post[i], 'frame', c.props)
            if not c.opts.get('io'):
                w0, b0 = ctx.io_pre
                w1, b1 = ctx.io_post
                if not (w0.eq(w1) and b0.eq(b1)):
                    self.oblige(s, 'writes-no-file', z3.And(w0 == w1, b0 == b1), 'frame', ('C12',))
            for i, a in enumerate(args):
                if isinstance(a, MutRef):
                    self.oblige_tinv(s, ctx.post[i], z3.BoolVal(True))
            self.oblige_tinv(s, ctx.ret, z3.BoolVal(True))
        if not outs or not live:
            self.obls.append(Obl(self.cur, 'some-path-returns', 'vacuity', c.props, False, 'no path reaches the end of the function'))
        else:
            self.obls.append(Obl(self.cur, 'some-path-returns', 'vacuity', c.props, True))
        if c.pure and self.nondet:
            raise Unsupported('%s is expected to be a function of its arguments but reads outside state' % self.cur)
        return self.obls

    def may_break(self, ti):
        """can code run so far have changed private fields of the type?  (it is in the module, or a function of
        the module that gets it mutably or gives it out was inlined)"""
        inside = lambda n: n.lstrip('<&').startswith(ti.module)
        if inside(self.curname):
            return True
        for n in self.inlined:
            if not inside(n):
                continue
            b = self.P.F[self.P.by_name[n][0]]['body']
            for i in range(0, b['argc'] + 1):
                c = self.P.canon(b['locals'][i])
                if ('silverfox::' in c) and ti.full in c and (i == 0 and not c.startswith('&') or '&mut' in c or i > 0 and not c.startswith('&')):
                    return True
        return False

    def oblige_tinv(self, st, v, cond, depth=0, known=False):
        """the type invariants of values given out (known: those already known to satisfy theirs are left out)"""
        if not is_z3(v) or not self.P.is_dt(v.sort()) or depth > 2:
            return
        s = v.sort()
        ti = self.tinv.get(s.name())
        if ti:
            if known and (('ti', v.get_id()) in st.known or not self.may_break(ti)):
                return
            for (nm, fm) in ti.oblige(self, st, v):
                self.oblige(st, 'type-invariant:' + nm, z3.Implies(cond, fm), 'tinv', ti.props)
            return
        if self.P.is_vec(s) or self.P.is_map(s) or self.P.is_set(s):
            return
        if s.name().startswith(('std::option::Option', 'std::result::Result')):
            for k in range(s.num_constructors()):
                for j in range(s.constructor(k).arity()):
                    self.oblige_tinv(st, self.P.get(v, k, j), z3.And(cond, self.P.isv(v, k)), depth + 1, known)

    def fresh_arg(self, st, ty, nm):
        P = self.P
        t = P.t(ty)
        if t['k'] == 'ref' and t['mut']:
            s = P.sort(t['t'])
            if P.canon(t['t']) == 'std::fmt::Formatter':
                
                # a formatter is the text written to it
                return MutRef(self.new_cell(st, self.fresh(P.Str, 'written')), ())
            if s is None:
                raise Unsupported('argument of type ' + P.canon(ty))
            return MutRef(self.new_cell(st, self.fresh(s, nm)), ())
        s = P.sort(ty)
        if s is None:
            raise Unsupported('argument of type ' + P.canon(ty))
        v = self.fresh(s, nm)
        self.int_range(st, v, ty)
        return v


class LoopView:
    """what invariant hints may look at"""

    def __init__(self, eng, st0, sth, mods):
        self.eng, self.P, self.st0, self.sth, self.mods = eng, eng.P, st0, sth, mods

    def leaves(self, sort):
        """changed values of the sort, and values of the sort with a changed part"""
        out, seen = [], set()
        for (cell, path) in self.mods:
            for k in range(len(path), -1, -1):
                pre = path[:k]
                if (cell, pre) in seen:
                    continue
                seen.add((cell, pre))
                try:
                    old = self.eng.walk_raw(self.st0.heap[cell], pre)
                except Exception:
                    continue
                if is_z3(old) and old.sort().eq(sort):
                    out.append((lambda st, cell=cell, pre=pre: self.eng.walk_raw(st.heap[cell], pre), old))
        return out

    def prefixes(self, elem):
        """how far loops have come in vectors of the sort: (array, position in a state)"""
        out = []
        for (gi, it) in self.seqs(elem):
            if not isinstance(it.f[0], MutRef):
                out.append((it.f[0], lambda st, gi=gi: gi(st).f[1]))
        arrs = []
        for ev in self.sth.events:
            if ev[0] == 'vec' and ev[1].sort().range().eq(elem) and not any(ev[1].eq(a) for a in arrs):
                arrs.append(ev[1])
        for (g, old) in self.leaves(z3.IntSort())[:4]:
            out += [(a, g) for a in arrs[:3]]
        return out

    def seqs(self, elem):
        """moving iterators over elements of the sort: (getter, It at entry)"""
        out = []
        for cell, v0 in self.st0.heap.items():
            its = []
            self.eng.iters(v0, its)
            for (path, it) in its:
                if it.k != 'seq':
                    continue
                if not any(c == cell and p[:len(path)] == path for (c, p) in self.mods):
                    continue
                a = it.f[0]
                if isinstance(a, MutRef):
                    a = self.P.vparts(self.eng.resolve(self.st0, a))[0]
                if a.sort().range().eq(elem):
                    out.append((lambda st, cell=cell, path=path: self.eng.walk_raw(st.heap[cell], path), it))
        return out


def is_num(e):
    return z3.is_rational_value(e) or z3.is_int_value(e)


def is_zero(e):
    return is_num(e) and (e.as_long() == 0 if z3.is_int_value(e) else e.numerator_as_long() == 0)


def to_signed(n):
    for b in (8, 16, 32, 64, 128):
        if n == 2**b - 1:
            return -1
    return n


def simp_select(arr, i):
    """select with store reduction when indices are syntactically decidable"""
    a = arr
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        j = a.arg(1)
        if j.eq(i):
            return a.arg(2)
        d = simp(j == i)
        if is_true(d):
            return a.arg(2)
        if is_false(d):
            a = a.arg(0)
            continue
        break
    return z3.Select(a, i)
