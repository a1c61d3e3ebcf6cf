"""mirv: a contract-based symbolic verifier for rustc's MIR.

The input is the MIR of the real crate (dumped by /verif/driver on every run); nothing here is
written against a copy of the source.  See DESIGN.md for what is modelled and what is assumed.
"""
import json, struct, time, itertools, re, sys
import z3

sys.setrecursionlimit(20000)
INT_RANGE = {'I8': (-2**7, 2**7-1), 'I16': (-2**15, 2**15-1), 'I32': (-2**31, 2**31-1), 'I64': (-2**63, 2**63-1),
             'I128': (-2**127, 2**127-1), 'Isize': (-2**63, 2**63-1),
             'U8': (0, 2**8-1), 'U16': (0, 2**16-1), 'U32': (0, 2**32-1), 'U64': (0, 2**64-1),
             'U128': (0, 2**128-1), 'Usize': (0, 2**64-1)}


class Unsupported(Exception):
    pass


def name_of(s):
    return re.sub(r'\s+', ' ', s)


# ------------------------------------------------------------------ values

class MutRef:
    """&mut: a cell plus a path (fields, vector indices, map keys)."""
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path):
        self.cell = cell
        self.path = tuple(path)

    def __repr__(self):
        return 'MutRef(%r,%r)' % (self.cell, self.path)


class PAgg:
    """An aggregate whose type holds something that is not a first-order value."""
    __slots__ = ('ty', 'variant', 'fields')

    def __init__(self, ty, variant, fields):
        self.ty = ty
        self.variant = variant
        self.fields = tuple(fields)

    def __repr__(self):
        return 'PAgg(%s,%s,%r)' % (self.ty, self.variant, self.fields)


class It:
    """An iterator (immutable; stepping gives a new one)."""
    __slots__ = ('k', 'f')

    def __init__(self, k, *f):
        self.k = k
        self.f = f

    def __repr__(self):
        return 'It(%s,%r)' % (self.k, self.f)


class FnVal:
    __slots__ = ('ty',)

    def __init__(self, ty):
        self.ty = ty


class Opq:
    """an opaque python-level value with optional data"""
    __slots__ = ('what', 'data')

    def __init__(self, what, data=None):
        self.what = what
        self.data = data

    def __repr__(self):
        return 'Opq(%s)' % self.what


class Undef:
    def __repr__(self):
        return 'Undef'


UNDEF = Undef()


class Discr:
    __slots__ = ('expr', 'discs')

    def __init__(self, expr, discs):
        self.expr = expr
        self.discs = discs


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def is_true(e):
    return z3.is_true(e)


def is_false(e):
    return z3.is_false(e)


def simp(e):
    return z3.simplify(e)


def veq(a, b):
    """syntactic identity of two values"""
    if a is b:
        return True
    if is_z3(a) and is_z3(b):
        return a.eq(b)
    if isinstance(a, MutRef) and isinstance(b, MutRef):
        return a.cell == b.cell and len(a.path) == len(b.path) and all(peq(x, y) for x, y in zip(a.path, b.path))
    if isinstance(a, PAgg) and isinstance(b, PAgg):
        return a.variant == b.variant and len(a.fields) == len(b.fields) and all(veq(x, y) for x, y in zip(a.fields, b.fields))
    if isinstance(a, It) and isinstance(b, It):
        return a.k == b.k and len(a.f) == len(b.f) and all(veq(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, Opq) and isinstance(b, Opq):
        return a.what == b.what and (a.data is b.data or veq(a.data, b.data))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(veq(x, y) for x, y in zip(a, b))
    if isinstance(a, FnVal) and isinstance(b, FnVal):
        return True
    if isinstance(a, (int, str, bool)) or a is None:
        return a == b
    return False


def peq(x, y):
    if x[0] != y[0]:
        return False
    return all((p.eq(q) if is_z3(p) and is_z3(q) else p == q) for p, q in zip(x[1:], y[1:]))


# ------------------------------------------------------------------ program

# external enums/structs whose fields we look into
TRANSPARENT = {'std::option::Option', 'std::result::Result', 'std::cmp::Ordering', 'std::ops::ControlFlow',
               'std::ops::Range', 'std::ops::RangeFrom', 'std::ops::RangeTo', 'std::ops::RangeFull',
               'std::ops::RangeInclusive', 'std::ops::RangeToInclusive',
               'chrono::Weekday', 'terminal_size::Width', 'terminal_size::Height', 'std::env::VarError', 'std::convert::Infallible', 'std::cmp::Reverse', 'std::marker::PhantomData'}
VECLIKE = {'std::vec::Vec', 'std::collections::VecDeque', 'std::collections::LinkedList'}
STRLIKE = {'std::string::String', 'std::path::PathBuf', 'std::path::Path', 'std::ffi::OsString', 'std::ffi::OsStr'}
PYADT_PREFIX = ('std::slice::', 'std::iter::', 'std::vec::', 'std::str::', 'std::collections::', 'std::option::',
                'std::fmt::', 'std::env::', 'std::fs::', 'std::io::', 'std::ops::', 'std::mem::', 'std::ptr::',
                'std::alloc::', 'std::rc::', 'std::cell::', 'std::sync::', 'std::any::', 'std::marker::', 'std::array::')


class Prog:
    def __init__(self, path):
        self._getmemo = {}
        d = json.load(open(path))
        self.T = d['types']
        self.F = d['fns']
        self.C = d['consts']
        self.items = d.get('items')
        self._sort = {}
        self._canon = {}
        self._dt = {}
        self._vec = {}
        self._map = {}
        self._set = {}
        self._opq = {}
        self._rec = {}
        self._inprog = []
        self.Str = z3.DeclareSort('Str')
        u = z3.Datatype('Unit')
        u.declare('unit')
        self.Unit = u.create()
        self.by_name = {}
        self.variants = {}   # sort name -> list of (variant name, [field names])
        for k, f in self.F.items():
            self.by_name.setdefault(f['name'], []).append(k)
        self._litc = {}
        # recursive types are cut at the alphabetically first of their cycle, whatever is asked for first
        for i in sorted((int(k) for k, t in self.T.items() if t['k'] == 'adt' and t['local'] and not t['args']), key=lambda i: self.T[str(i)]['name']):
            self.sort(i)

    # a recursive type is opaque inside itself; `unroll` gives the value that is meant
    def unroll(self, v):
        if is_z3(v) and v.sort().name().startswith('rec!'):
            if z3.is_app(v) and v.decl().name().startswith('roll:'):
                return v.arg(0)
            s = self._rec.get(v.sort().name())
            if s is None:
                raise Unsupported('recursive type ' + v.sort().name())
            return z3.Function('unroll:' + s.name(), v.sort(), s)(v)
        return v

    def con(self, s, variant, *fs):
        """constructor application"""
        c = s.constructor(variant)
        fs = list(fs)
        if s.num_constructors() == 1 and fs and all(is_z3(x) and z3.is_app(x) and x.num_args() == 1 and x.decl().eq(s.accessor(0, j)) for j, x in enumerate(fs)) \
                and all(x.arg(0).eq(fs[0].arg(0)) for x in fs):
            return fs[0].arg(0)        # all the fields of one value
        for j in range(c.arity()):
            d = c.domain(j)
            if d.name().startswith('rec!') and is_z3(fs[j]) and not fs[j].sort().eq(d):
                x = fs[j]
                fs[j] = x.arg(0) if z3.is_app(x) and x.decl().name().startswith('unroll:') and x.arg(0).sort().eq(d) else \
                    z3.Function('roll:' + d.name(), x.sort(), d)(x)
        return c(*fs)

    def t(self, i):
        return self.T[str(i)]

    def canon(self, i):
        """type identity modulo lifetimes (references are kept)"""
        if i in self._canon:
            return self._canon[i]
        t = self.t(i)
        k = t['k']
        if k == 'adt':
            s = t['name']
            args = [self.canon(a) for a in t['args'] if isinstance(a, int)]
            if args:
                s += '<' + ','.join(args) + '>'
        elif k == 'ref':
            s = ('&mut ' if t['mut'] else '&') + self.canon(t['t'])
        elif k == 'ptr':
            s = '*' + self.canon(t['t'])
        elif k == 'slice':
            s = '[' + self.canon(t['t']) + ']'
        elif k == 'array':
            s = '[' + self.canon(t['t']) + ';%s]' % t['len']
        elif k == 'tuple':
            s = '(' + ','.join(self.canon(x) for x in t['ts']) + ')'
        elif k in ('int', 'uint', 'float'):
            s = t['n']
        elif k == 'closure':
            s = 'closure#' + t['def'] + '#%d' % i
        elif k == 'fndef':
            s = 'fn#' + (t['inst']['name'] if t.get('inst') else t['def'])
        else:
            s = k + ':' + str(t.get('s', ''))
        self._canon[i] = s
        return s

    def strip(self, i):
        """through references and boxes"""
        while True:
            t = self.t(i)
            if t['k'] in ('ref', 'ptr'):
                i = t['t']
            elif t['k'] == 'adt' and t['name'] == 'std::boxed::Box':
                i = t['args'][0]
            else:
                return i

    # ---- sorts: z3 sort of a type, or None when values are python-level
    def sort(self, i):
        if i in self._sort:
            return self._sort[i]
        s = self._sort0(i)
        self._sort[i] = s
        return s

    def _sort0(self, i):
        t = self.t(i)
        k = t['k']
        if k == 'bool':
            return z3.BoolSort()
        if k in ('int', 'uint', 'char'):
            return z3.IntSort()
        if k == 'float':
            return z3.RealSort()
        if k == 'str':
            return self.Str
        if k == 'never':
            return self.Unit
        if k == 'ref':
            if t['mut']:
                return None
            return self.sort(t['t'])
        if k in ('slice', 'array'):
            e = self.sort(t['t'])
            return self.vec(e) if e is not None else None
        if k == 'tuple':
            if not t['ts']:
                return self.Unit
            ss = [self.sort(x) for x in t['ts']]
            if any(x is None for x in ss):
                return None
            return self.dt('tup(' + ','.join(str(x) for x in ss) + ')', [('tup', [('_%d' % j, x) for j, x in enumerate(ss)])])
        if k == 'adt':
            n = t['name']
            if n in STRLIKE:
                return self.Str
            if n == 'std::boxed::Box':
                return self.sort(t['args'][0])
            if n in VECLIKE:
                e = self.sort(t['args'][0])
                return self.vec(e) if e is not None else None
            if n == 'std::collections::HashMap' or n == 'std::collections::BTreeMap':
                a, b = self.sort(t['args'][0]), self.sort(t['args'][1])
                return self.mapsort(a, b) if a is not None and b is not None else None
            if n == 'std::collections::HashSet' or n == 'std::collections::BTreeSet':
                a = self.sort(t['args'][0])
                return self.setsort(a) if a is not None else None
            if n in ('chrono::NaiveDate', 'chrono::TimeDelta'):
                return z3.IntSort()
            if n == 'chrono::DateTime':
                return self.opaque('chrono::DateTime')
            if t['local'] or n in TRANSPARENT:
                c = self.canon(i)
                if c in self._inprog:
                    return self.opaque('rec!' + c)
                self._inprog.append(c)
                try:
                    vs = []
                    for v in t['variants']:
                        fs = []
                        for fld in v['fields']:
                            s = self.sort(fld['ty'])
                            if s is None:
                                return None
                            fs.append((fld['name'], s))
                        vs.append((v['name'], fs))
                finally:
                    self._inprog.pop()
                if not vs:
                    return self.Unit
                key = n + '<' + ','.join(str(self.sort(a)) for a in t['args'] if isinstance(a, int)) + '>'
                d = self.dt(key, vs)
                if 'rec!' + c in self._opq:
                    self._rec['rec!' + c] = d
                return d
            if n.startswith(PYADT_PREFIX) and n not in ('std::io::Error', 'std::fmt::Error'):
                return None
            return self.opaque(n)
        return None

    def opaque(self, n):
        if n not in self._opq:
            self._opq[n] = z3.DeclareSort(n)
        return self._opq[n]

    def dt(self, key, variants):
        if key in self._dt:
            return self._dt[key]
        d = z3.Datatype(key)
        for vi, (vn, fs) in enumerate(variants):
            d.declare('%s!%s' % (key, vn), *[('%s!%d!%d' % (key, vi, fi), fsrt) for fi, (_, fsrt) in enumerate(fs)])
        s = d.create()
        self._dt[key] = s
        self.variants[s.name()] = [(vn, [f for f, _ in fs]) for vn, fs in variants]
        return s

    def vec(self, e):
        k = str(e)
        if k not in self._vec:
            d = z3.Datatype('Vec<%s>' % k)
            d.declare('mkvec<%s>' % k, ('arr<%s>' % k, z3.ArraySort(z3.IntSort(), e)), ('len<%s>' % k, z3.IntSort()))
            self._vec[k] = d.create()
        return self._vec[k]

    def mapsort(self, a, b):
        k = '%s=>%s' % (a, b)
        if k not in self._map:
            d = z3.Datatype('Map<%s>' % k)
            d.declare('mkmap<%s>' % k, ('dom<%s>' % k, z3.ArraySort(a, z3.BoolSort())), ('val<%s>' % k, z3.ArraySort(a, b)), ('n<%s>' % k, z3.IntSort()))
            self._map[k] = d.create()
        return self._map[k]

    def setsort(self, a):
        k = str(a)
        if k not in self._set:
            d = z3.Datatype('Set<%s>' % k)
            d.declare('mkset<%s>' % k, ('sdom<%s>' % k, z3.ArraySort(a, z3.BoolSort())), ('sn<%s>' % k, z3.IntSort()))
            self._set[k] = d.create()
        return self._set[k]

    def is_vec(self, s):
        return s is not None and s.name().startswith('Vec<')

    def is_opt(self, s):
        return s is not None and s.name().startswith('std::option::Option<')

    def is_map(self, s):
        return s is not None and s.name().startswith('Map<')

    def is_set(self, s):
        return s is not None and s.name().startswith('Set<')

    def result_sort(self, *names):
        """the sort of a Result of the named types, if the program has it"""
        for i, t in self.T.items():
            if t['k'] == 'adt' and t['name'] == 'std::result::Result' and [self.t(a).get('name') for a in t['args'][:2]] == list(names):
                return self.sort(int(i))
        return None

    def result_int(self, n):
        for i, t in self.T.items():
            if t['k'] == 'adt' and t['name'] == 'std::result::Result' and self.t(t['args'][0]).get('n') == n and self.t(t['args'][1]).get('name') == 'std::num::ParseIntError':
                return self.sort(int(i))
        return None

    def result_unit(self, err):
        for i, t in self.T.items():
            if t['k'] == 'adt' and t['name'] == 'std::result::Result' and self.t(t['args'][1]).get('name') == err and self.t(t['args'][0]).get('ts') == []:
                return self.sort(int(i))
        return None

    def pair_opt(self):
        """the sort of an Option of a pair of strings"""
        for i, t in self.T.items():
            if t['k'] == 'adt' and t['name'] == 'std::option::Option':
                x = self.t(t['args'][0])
                if x['k'] == 'tuple' and len(x['ts']) == 2 and all(z is not None and z.eq(self.Str) for z in (self.sort(int(y)) for y in x['ts'])):
                    return self.sort(int(i))
        raise Unsupported('no pairs of strings')

    def result_of(self, srt, err):
        """the sort of a Result of values of the sort and the named error, if the program has it"""
        for i, t in self.T.items():
            if t['k'] == 'adt' and t['name'] == 'std::result::Result' and self.t(t['args'][1]).get('name') == err:
                a = self.sort(int(t['args'][0]))
                if a is not None and a.eq(srt):
                    return self.sort(int(i))
        return None

    def sort_named(self, name):
        for i, t in self.T.items():
            if t['k'] == 'adt' and t['name'] == name:
                return self.sort(int(i))
        raise Unsupported('type %s is gone' % name)

    def is_dt(self, s):
        return s is not None and s.kind() == z3.Z3_DATATYPE_SORT

    # ---- strings literals
    def lit(self, s):
        if s not in self._litc:
            self._litc[s] = z3.Const('lit:' + s, self.Str)
        return self._litc[s]

    def lit_of(self, x):
        n = x.decl().name() if z3.is_const(x) else ''
        return n[4:] if n.startswith('lit:') else None

    def lit_axioms(self):
        ls = list(self._litc.values())
        ax = []
        if len(ls) > 1:
            ax.append(z3.Distinct(*ls))
        ln = z3.Function('str_len:Str', self.Str, z3.IntSort())
        for s, c in self._litc.items():
            ax.append(ln(c) == len(s.encode()))
        return ax

    # ---- field access on z3 datatypes
    def get(self, v, variant, idx):
        if isinstance(v, PAgg):
            return self.unroll(v.fields[idx])
        k = (v.get_id(), variant, idx)
        r = self._getmemo.get(k)
        if r is None:
            if len(self._getmemo) > 300000:
                self._getmemo.clear()
            r = self._getmemo[k] = (self.unroll(self.get0(v, variant, idx)), v)     # (v is kept, so that its id stays its own)
        return r[0]

    def get0(self, v, variant, idx):
        if isinstance(v, PAgg):
            return v.fields[idx]
        s = v.sort()
        if z3.is_app(v) and v.decl().eq(s.constructor(variant)):
            return v.arg(idx)
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
            a, b = v.arg(1), v.arg(2)
            ca = z3.is_app(a) and a.decl().eq(s.constructor(variant))
            cb = z3.is_app(b) and b.decl().eq(s.constructor(variant))
            if ca and cb:
                x, y = a.arg(idx), b.arg(idx)
                return x if x.eq(y) else z3.If(v.arg(0), x, y)
            if ca and s.num_constructors() > 1 and z3.is_app(b) and b.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
                return a.arg(idx)
            if cb and s.num_constructors() > 1 and z3.is_app(a) and a.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
                return b.arg(idx)
        return s.accessor(variant, idx)(v)

    def isv(self, v, variant):
        s = v.sort()
        if s.num_constructors() == 1:
            return z3.BoolVal(True)
        if z3.is_app(v):
            kd = v.decl().kind()
            if kd == z3.Z3_OP_DT_CONSTRUCTOR:
                return z3.BoolVal(v.decl().eq(s.constructor(variant)))
            if kd == z3.Z3_OP_ITE:
                a, b = self.isv(v.arg(1), variant), self.isv(v.arg(2), variant)
                return simp(z3.If(v.arg(0), a, b))
        return s.recognizer(variant)(v)

    def mk(self, s, variant, *fields):
        return self.con(s, variant, *fields)

    def fidx(self, s, fname, variant=0):
        vn, fs = self.variants[s.name()][variant]
        return fs.index(fname)

    def vidx(self, s, vname):
        for i, (vn, _) in enumerate(self.variants[s.name()]):
            if vn == vname:
                return i
        raise Unsupported('no variant %s in %s' % (vname, s))

    def fld(self, v, fname, vname=None):
        s = v.sort()
        vi = self.vidx(s, vname) if vname else 0
        try:
            return self.get(v, vi, self.fidx(s, fname, vi))
        except ValueError:
            raise Unsupported('no field %s in %s' % (fname, s))

    def sort_of_ret(self, fname):
        ks = self.by_name.get(fname)
        if not ks:
            raise Unsupported('function %s is gone' % fname)
        return self.sort(self.F[ks[0]]['body']['locals'][0])

    def opt(self, s):
        """Option<s> sort"""
        return self.dt('std::option::Option<%s>' % s, [('None', []), ('Some', [('0', s)])])

    def none(self, s):
        return self.opt(s).constructor(0)()

    def some(self, v):
        return self.opt(v.sort()).constructor(1)(v)

    def is_some(self, v):
        return self.isv(v, 1)

    def vparts(self, v):
        """(arr, len) of a vector value"""
        return self.get(v, 0, 0), self.get(v, 0, 1)

    def mkvec(self, arr, ln):
        return self.vec(arr.sort().range()).constructor(0)(arr, ln)

    # ---- consts
    def const(self, cid, eng):
        c = self.C[str(cid)]
        return self.decode(c['ty'], c['v'], eng)

    def decode(self, ty, v, eng):
        t = self.t(ty)
        k = t['k']
        if k == 'fndef':
            return FnVal(ty)
        if 'other' in v:
            raise Unsupported('const ' + str(v)[:80])
        if 'usize' in v:
            return z3.IntVal(v['usize'])
        if v.get('zst'):
            if k == 'closure':
                return PAgg(ty, 0, ())
            s = self.sort(ty)
            if s is not None and s.eq(self.Unit):
                return self.Unit.constructor(0)()
            if s is not None and self.is_dt(s) and s.num_constructors() == 1 and s.constructor(0).arity() == 0:
                return s.constructor(0)()
            return Opq('zst:' + self.canon(ty))
        b = v.get('bytes')
        if b is None:
            raise Unsupported('const form ' + str(v)[:80])
        b = [x if x is not None else 0 for x in b]
        if k == 'bool':
            return z3.BoolVal(bool(b[0]))
        if k == 'uint' or k == 'char':
            return z3.IntVal(int.from_bytes(bytes(b), 'little'))
        if k == 'int':
            return z3.IntVal(int.from_bytes(bytes(b), 'little', signed=True))
        if k == 'float':
            f = struct.unpack('<d' if len(b) == 8 else '<f', bytes(b))[0]
            if f != f or f in (float('inf'), float('-inf')):
                return eng.special_float(f)
            from fractions import Fraction
            fr = Fraction(repr(f))
            return z3.RealVal('%d/%d' % (fr.numerator, fr.denominator))
        if k == 'ref':
            to = v['ptrs'][0]['to'] if v.get('ptrs') else None
            tt = self.t(t['t'])
            if to is None:
                s = self.sort(t['t'])
                if tt['k'] == 'str':
                    return self.lit('')
                raise Unsupported('const ref')
            if tt['k'] == 'str':
                n = int.from_bytes(bytes(b[8:16]), 'little')
                return self.lit(bytes(to['bytes'][:n]).decode())
            if tt['k'] == 'array' and self.t(tt['t'])['k'] == 'uint':
                return Opq('bytes', bytes(x or 0 for x in to['bytes']))
            if tt['k'] == 'slice':
                raise Unsupported('const slice')
            return self.decode(t['t'], to, eng)
        if k == 'adt':
            n = t['name']
            if n == 'std::option::Option':
                if all(x == 0 for x in b):
                    return self.none(self.sort(t['args'][0])) if self.sort(ty) is not None else PAgg(ty, 0, ())
                inner = self.t(t['args'][0])
                if inner['k'] == 'adt' and inner['name'] in STRLIKE | VECLIKE and len(b) >= 8 and b[7] == 0x80:
                    return self.none(self.sort(t['args'][0]))
                if inner['k'] == 'char' and int.from_bytes(bytes(b), 'little') == 0x110000:
                    return self.none(z3.IntSort())
                raise Unsupported('const option')
            if t['kind'] == 'Enum' and all(not vv['fields'] for vv in t['variants']):
                d = int.from_bytes(bytes(b), 'little')
                for vi, vv in enumerate(t['variants']):
                    if int(vv['disc']) & ((1 << (8 * len(b))) - 1) == d:
                        return self.sort(ty).constructor(vi)()
            if n == 'std::ops::ControlFlow' and len(b) == 1:
                s = self.sort(ty)
                if s is not None:
                    u = self.Unit.constructor(0)()
                    if all(s.constructor(j).domain(0).eq(self.Unit) for j in (0, 1)):
                        return s.constructor(b[0])(u)
            if t['kind'] == 'Struct' and len(t['variants'][0]['fields']) == 1:
                x = self.decode(t['variants'][0]['fields'][0]['ty'], v, eng)
                s = self.sort(ty)
                return self.mk(s, 0, x) if s is not None else PAgg(ty, 0, (x,))
            raise Unsupported('const adt ' + n)
        if k == 'array':
            s = self.sort(ty)
            et = self.t(t['t'])
            w = 16 if et['k'] == 'ref' and self.t(et['t'])['k'] == 'str' else (8 if et['k'] == 'float' else None)
            if s is None or not self.is_vec(s) or w is None or len(b) % w:
                raise Unsupported('const array')
            arr = z3.K(z3.IntSort(), self.lit('')) if w == 16 else z3.K(z3.IntSort(), z3.RealVal(0))
            for i in range(len(b) // w):
                pt = [{'off': 0, 'to': q['to']} for q in v.get('ptrs') or () if q['off'] == i * w]
                arr = z3.Store(arr, i, self.decode(t['t'], {'bytes': b[i * w:(i + 1) * w], 'ptrs': pt}, eng))
            return self.mkvec(arr, z3.IntVal(len(b) // w))
        if k == 'tuple':
            raise Unsupported('const ' + k)
        raise Unsupported('const kind ' + k)


# ------------------------------------------------------------------ spec folds

class Fold:
    """F(arr, n, params) = sum over 0 <= i < n of term(arr[i], params)."""

    def __init__(self, name, elem, params, vsort, term, nonneg=False):
        self.name = name
        self.elem = elem
        self.params = params
        self.vsort = vsort
        self.term = term
        self.nonneg = nonneg
        self.memo = {}
        self.fn = z3.Function('fold:' + name, z3.ArraySort(z3.IntSort(), elem), z3.IntSort(), *params, vsort)

    def __call__(self, arr, n, *ps):
        k = (arr.get_id(), n.get_id()) + tuple(p.get_id() for p in ps)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = (self.fn(arr, n, *ps), arr, n, ps)
        return r[0]

    def of(self, prog, v, *ps):
        a, n = prog.vparts(v)
        return self.fn(a, n, *ps)


class TextFold:
    """T(arr, n, params): the characters or strings arr[i], i < n, that are kept, one after the other"""

    step = None

    def __init__(self, name, elem, params, srt, keep, lo=None, image=None):
        self.image = image
        self.name, self.keep, self.elem, self.lo = name, keep, elem, lo      # lo: the first position that can be kept
        self.fn = z3.Function('text:' + name, z3.ArraySort(z3.IntSort(), elem), z3.IntSort(), *params, srt)

    def __call__(self, arr, n, *ps):
        return self.fn(arr, n, *ps)


class RecFold:
    """R(arr, n, params): what a loop over arr[i], i < n, has come to: init, and step for one element more"""

    def __init__(self, name, elem, params, srt, init, step):
        self.name, self.elem, self.init, self.step = name, elem, init, step
        self.fn = z3.Function('rec:' + name, z3.ArraySort(z3.IntSort(), elem), z3.IntSort(), *params, srt)

    def __call__(self, arr, n, *ps):
        return self.fn(arr, n, *ps)


class Dom:
    """Termwise lemma between folds over the same elements: rel([F1, ..], [params1, ..]) holds of every
    prefix and of every segment, proved by induction from the terms (see lemmas.py)."""

    def __init__(self, name, Fs, rel):
        self.name, self.Fs, self.rel = name, tuple(Fs), rel


class TInv:
    """invariant of a type whose fields are private to its module: every function of the module is
    obliged to give out values that satisfy it, everything else may rely on it"""

    def __init__(self, name, module, props, text, assume, oblige):
        self.name, self.module, self.props, self.text = name, module, props, text
        self.assume, self.oblige = assume, oblige
        self.full = module + '::' + name


class St:
    __slots__ = ('heap', 'pc', 'events', 'inst', 'known', 'nid', 'tag')

    def __init__(self):
        self.heap = {}
        self.pc = []
        self.events = []
        self.inst = []
        self.known = {}
        self.tag = None

    def copy(self):
        s = St.__new__(St)
        s.heap = dict(self.heap)
        s.pc = list(self.pc)
        s.events = list(self.events)
        s.inst = list(self.inst)
        s.known = dict(self.known)
        s.tag = self.tag
        return s

    def assume(self, f):
        if is_true(f):
            return
        k = ('pc', f.get_id())
        if k in self.known:
            return
        self.known[k] = f
        self.pc.append(f)


class Obl:
    __slots__ = ('fn', 'name', 'kind', 'props', 'ok', 'detail', 'line', 'time', 'model')

    def __init__(self, fn, name, kind, props, ok, detail='', line='', t=0.0, model=''):
        self.fn, self.name, self.kind, self.props, self.ok = fn, name, kind, props, ok
        self.detail, self.line, self.time, self.model = detail, line, t, model
