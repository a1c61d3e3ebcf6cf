"""Bounded cross-checks of the real binary against the reference model, per property."""
import copy, datetime as D, json, os, random, re, shutil, sys, tempfile, time, traceback
import gen, model, sfox
from model import *

class Fail(Exception):
    def __init__(self, what, **kw):
        super().__init__(what)
        self.what, self.kw = what, kw

class Case:
    """a scratch directory with a journal in it"""
    latest = None
    def __init__(self, text, files=None, today=D.date(2020, 1, 1), extra=None):
        self.dir = tempfile.mkdtemp(prefix='sfox-', dir=os.environ.get('SFOX_TMP'))
        Case.latest = self
        self.today = today
        self.main = os.path.join(self.dir, 'j.sfox')
        self.files = dict(files or {})
        self.files['j.sfox'] = text
        self.log = []
        self.files.update(extra or {})
        for n, t in self.files.items():
            p = os.path.join(self.dir, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(t if isinstance(t, bytes) else t.encode('utf8'))

    def snapshot(self):
        s = {}
        for d, _, fs in os.walk(self.dir):
            for f in fs:
                p = os.path.join(d, f)
                with open(p, 'rb') as h:
                    s[os.path.relpath(p, self.dir)] = h.read()
        return s

    def run(self, *args, today=None, relative=False, cwd=None):
        f = 'j.sfox' if relative else self.main
        args = [args[0], '-f', f] + list(args[1:])
        r = sfox.run(args, cwd or self.dir, today or self.today, terminal=args[0].startswith('r'))
        self.log.append((args, str(today or self.today), r.rc, r.out[:4000], r.err[:1500]))
        if r.timeout:
            raise Fail('the program does not terminate within 20 s')
        if r.rc != 0 or 'panicked at' in r.err:
            raise Fail('crash: exit status %s, %s' % (r.rc, r.err.strip()[:300]), crash=True)
        return r

    def read(self):
        with open(self.main, 'rb') as f:
            return f.read().decode('utf8')

    def done(self):
        try:
            self.last = self.read()
        except Exception:
            self.last = None
        shutil.rmtree(self.dir, ignore_errors=True)

def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    return x if isinstance(x, (int, float, str, bool, type(None))) else str(x)

# ------------------------------------------------------------------ comparisons
def accepted(r, what):
    if r.err.strip():
        raise Fail('%s: the journal is fine, but it was refused: %s' % (what, r.err.strip()[:400]), refused=True)

def refused(r, why, what):
    if not r.err.strip() or r.out.strip():
        raise Fail('%s: the journal has to be refused (%s), but it was accepted' % (what, why), why=why, expected='an error message and no output', got=r.out[:1500])

def parsed(f, r):
    try:
        return f(r.out)
    except Exception as x:
        raise Fail('the output cannot be read: %r' % (x,), got=r.out[:3000])

def same_totals(r, want):
    got = parsed(sfox.parse_balance, r)
    if got.keys() != want.keys():
        raise Fail('balance lists other accounts', expected=sorted(want), got=sorted(got))
    for a in want:
        if not sfox.close_pool(got[a], want[a]):
            raise Fail('balance of %s' % a, expected=want[a], got=got[a])

def same_envelopes(r, L, aspects):
    want, got = L.envelopes(), parsed(sfox.parse_envelopes, r)
    if got.keys() != want.keys():
        raise Fail('envelopes lists other accounts', expected=sorted(want), got=sorted(got))
    for a in want:
        if 'available' in aspects and not sfox.close_pool(got[a][0], want[a][0], True):
            raise Fail('available in %s' % a, expected=want[a][0], got=got[a][0])
        w, g = sorted(want[a][1], key=lambda e: (e[0], e[1])), sorted(got[a][1], key=lambda e: (e[0], e[1]))
        if [e[:2] for e in w] != [e[:2] for e in g]:
            raise Fail('envelopes of %s' % a, expected=[e[:2] for e in w], got=[e[:2] for e in g])
        for x, y in zip(w, g):
            for i, n in ((2, 'now'), (3, 'next'), (4, 'amount')):
                if n in aspects or 'saved' in aspects and i < 4:
                    if not sfox.close(x[i][0], y[i][0]) or x[i][1] != y[i][1]:
                        raise Fail('%s of envelope %s in %s' % (n, x[1], a), expected=x[i], got=y[i])
            if 'due' in aspects and (str(x[5]) if x[5] else None) != y[5]:
                raise Fail('due date of envelope %s in %s' % (x[1], a), expected=x[5], got=y[5])

def reg_norm(date, status, desc, frm, to, pool):
    return (date, status, ' '.join(desc.split()), frm, to, pool)

def parse_register(out, formats=None):
    blocks = []
    for line in out.replace('\r', '').split('\n'):
        if not line.strip():
            continue
        m = re.match(r'\s*(\S+) ([?~*]) (.*)\s+(\S+) -> (\S+)\s(.*)$', line)
        tail = m.group(6) if m else line
        parts = re.split(r'\s{2,}', tail.strip())
        if len(parts) != 2:
            raise ValueError('two amounts expected in %r (%r)' % (tail, parts))
        a, b = sfox.parse_amount(parts[0]), sfox.parse_amount(parts[1])
        if a[1] != b[1]:
            raise ValueError('amount and running total differ in currency: %r' % line)
        if m:
            blocks.append(reg_norm(m.group(1), m.group(2), m.group(3), m.group(4), m.group(5), {}))
        if a[1] in blocks[-1][5]:
            raise ValueError('currency twice in %r' % line)
        blocks[-1][5][a[1]] = (a[0], b[0])
    return blocks

def same_register(r, L):
    got = parsed(parse_register, r)
    want = [reg_norm(*x) for x in L.register()]
    tiny = lambda b: all(abs(v[0]) <= 3e-8 for v in b[5].values())
    def differ(w, g):
        if w[:3] != g[:3] or w[3] is not None and w[3:5] != g[3:5]:
            return Fail('register line', expected=w[:5], got=g[:5])
        if w[5].keys() != g[5].keys() or any(not sfox.close(w[5][k][i], g[5][k][i]) for k in w[5] for i in (0, 1)):
            return Fail('register amounts (amount, running total) of %s' % (w[:3],), expected=w[5], got=g[5])
    a, b = 0, 0
    while a < len(want) or b < len(got):
        f = differ(want[a], got[b]) if a < len(want) and b < len(got) else Fail('register lists %d entries, not %d' % (len(got), len(want)), expected=want, got=got)
        if f is None:
            a, b = a + 1, b + 1
        # whether rounding leaves exactly zero decides if such a line is there
        elif a < len(want) and tiny(want[a]):
            a += 1
        elif b < len(got) and tiny(got[b]):
            b += 1
        else:
            raise f

def same_fill(c, before, L, expect_exact=True):
    """what was appended to the journal is what the model fills in; returns the model's entry"""
    after = c.read()
    if not after.startswith(before):
        raise Fail('the journal was changed other than by appending', expected=before[-300:], got=after[:len(before)][-300:])
    try:
        w = sfox.parse_written(after[len(before):])
    except Exception as x:
        raise Fail('the appended text cannot be read: %r' % (x,), got=after[len(before):])
    ps = [p for e in w for p in e['postings']]
    if any(p[0] != 'env' for p in ps):
        raise Fail('filling made a real posting', got=ps)
    if any(p[3] < -1e-6 for p in ps):
        raise Fail('filling takes money out of an envelope', got=ps)
    want = L.filling()
    wp, gp = {}, {}
    for p in want:
        k = (p.account, p.envelope, p.amount[1] or '')
        wp[k] = wp.get(k, 0.0) + p.amount[0]
    for p in ps:
        k = (p[1], p[2], p[4] or '')
        gp[k] = gp.get(k, 0.0) + p[3]
    if any(not sfox.close(wp.get(k, 0.0), gp.get(k, 0.0)) for k in set(wp) | set(gp)):
        raise Fail('what is moved to envelopes on %s' % L.today, expected=sorted(wp.items()), got=sorted(gp.items()))
    for e in w:
        if e['date'] != day(L.today, L.date_format):
            raise Fail('the entry that fills envelopes has another date', expected=day(L.today, L.date_format), got=e['date'])
    if len(w) > 1:
        raise Fail('more than one entry appended', got=w)
    # what stands in the journal from now on is what was written, rounded to eight decimals
    ps = [Env(p[1], p[2], (p[3], p[4])) for p in ps]
    e = Entry(L.today, '~', 'move to envelopes', None, ps) if ps else None
    if e is not None:
        L.add(e)
    return e

# ------------------------------------------------------------------ generic journal case
WHY = {'undefined account': ('C04',), 'two blanks': ('C04',), 'unbalanced': ('C04',), 'blank with mixed currencies': ('C04', 'C01'),
       'nothing to infer a blank posting from': ('C03', 'C04'), 'no native value': ('C03', 'C04', 'C01'), 'currency of envelope posting': ('C01', 'C07'),
       'cannot convert to the envelope currency': ('C01', 'C08'), 'cannot convert to the native currency': ('C01', 'C08'),
       'duplicate envelope': ('C19',), 'starting date needed': ('C11',), 'missing file': ('C18',), 'malformed': ('C04', 'C13', 'C14')}

def journal_case(prop, seed, prof, cmds, aspects, nums, words, mess=None):
    rng = random.Random(seed)
    g = gen.Gen(rng, prof, nums, words)
    today, items = g.journal()
    text, files = gen.render(items, rng, g.p['messy'], g.p['comments'])
    c = Case(text, files, today)
    try:
        try:
            L = Ledger(today).load(items)
            why = None
        except Rejected as x:
            L, why = None, str(x)
        except Ambiguous:
            return None
        snap = c.snapshot()
        if why is not None:
            for cmd in cmds[:2]:
                r = c.run(cmd[0])
                if prop in WHY.get(why, ()) or 'accept' in aspects:
                    refused(r, why, cmd)
                if c.snapshot() != snap:
                    raise Fail('a refused journal was written to', files=sorted(k for k in snap if c.snapshot().get(k) != snap[k]))
            return 'refused:' + why
        for cmd in cmds:
            if cmd.endswith('-fill'):
                continue
            r = c.run(cmd, '-n')
            accepted(r, cmd)
            look(cmd, r, L, aspects)
        if c.snapshot() != snap:
            raise Fail('a report with --no-move wrote to a file', files=sorted(k for k in set(snap) | set(c.snapshot()) if c.snapshot().get(k) != snap.get(k)))
        for cmd in cmds:
            if not cmd.endswith('-fill'):
                continue
            before = c.read()
            r = c.run(cmd[0])
            accepted(r, cmd)
            e = same_fill(c, before, L)
            s2 = c.snapshot()
            if any(s2.get(k) != snap[k] for k in snap if k != 'j.sfox') or set(s2) != set(snap):
                raise Fail('another file than the journal was written to')
            look(cmd[:-5], r, L, aspects)
        return 'ok'
    except Fail as f:
        f.kw.update(c=c, seed=seed)
        raise
    finally:
        c.done()

def look(cmd, r, L, aspects):
    if cmd[0] == 'b' and 'balance' in aspects:
        same_totals(r, L.totals())
    elif cmd[0] == 'e':
        same_envelopes(r, L, aspects)
    elif cmd[0] == 'r' and 'register' in aspects:
        same_register(r, L)

# ------------------------------------------------------------------ histories (several days, several runs)
def history_case(prop, seed, prof, nums, words):
    """run the program over and over: on one day an envelope is filled at most once, and the journal stays readable"""
    rng = random.Random(seed)
    g = gen.Gen(rng, dict(funded=0.9, envelopes=1.0, bad=0.0, future=0.4, include=0.0, dup=0.0, entries=(0, 5), **(prof or {})), nums, words)
    today, items = g.journal()
    text, files = gen.render(items, rng, 0.1, 0.1)
    c = Case(text, files, today)
    try:
        try:
            Ledger(today).load(items)
        except (Rejected, Ambiguous):
            return None
        accs = [a for a in items if isinstance(a, Account)]
        ents = list(items)
        fmt = '%Y/%m/%d'
        for it in items:
            if isinstance(it, Directive) and it.kind == 'date_format':
                fmt = it.value
        day = today
        filled = {}
        for step in range(rng.randint(2, 5)):
            k = rng.random()
            if k < 0.45:
                day += D.timedelta(rng.choice([1, 1, 2, 7, 30]))
            elif k < 0.75:
                for _ in range(5):
                    e = g.entry(accs, day, [None])
                    try:
                        Ledger(day).load(ents + [e])
                        break
                    except (Rejected, Ambiguous):
                        e = None
                if e is not None:
                    ents.append(e)
                    R = gen.Renderer(rng, 0, 0)
                    R.fmt = fmt
                    with open(c.main, 'a') as f:
                        f.write('\n' + R.items([e]) + '\n')
            try:
                L = Ledger(day).load(ents)
            except (Rejected, Ambiguous):
                return None
            before = c.read()
            cmd = rng.choice(['b', 'e', 'r'])
            r = c.run(cmd, today=day)
            accepted(r, cmd)
            if prop == 'C10':
                new = c.read()[len(before):]
                for e in sfox.parse_written(new):
                    for p in e['postings']:
                        if abs(p[3]) > 1e-6:
                            kk = (p[1], p[2])
                            if kk in filled.get(day, ()):
                                raise Fail('the envelope %s in %s was filled twice on %s' % (kk[1], kk[0], day), got=new)
                            filled.setdefault(day, set()).add(kk)
            e = same_fill(c, before, L)
            if e is not None:
                ents.append(e)
        return 'ok'
    except Fail as f:
        f.kw.update(c=c, seed=seed)
        raise
    finally:
        c.done()

# ------------------------------------------------------------------ due dates: many envelopes at once
def due_case(prop, seed, prof, nums, words):
    rng = random.Random(seed)
    g = gen.Gen(rng, {}, nums, words)
    today = g.today()
    accs, es = [], []
    a = Account('assets:a')
    for i in range(40):
        f, st = g.freq(today)
        a.envelopes.append(Envelope(rng.choice(['expense', 'goal']), 'e%d' % i, f, st, (1000.0, None), 'manual'))
    accs = [a]
    for i, e in enumerate(a.envelopes):
        l = freq_last(e.freq, e.start, today)
        n = freq_next(e.freq, e.start, today)
        ds = [d + D.timedelta(k) for d in (l, n) if d for k in (-1, 0, 1)] or [today]
        ds = [rng.choice(ds), rng.choice(ds), g.near(today)]
        for j, d in enumerate(ds):
            es.append(Entry(d, '~', 'x', None, [Env('assets:a', e.name, (float(2 ** (j + rng.randint(0, 8))) * (1 if rng.random() < 0.85 else -1), None))]))
    items = accs + es
    text, files = gen.render(items, rng, 0.2, 0.0)
    c = Case(text, files, today)
    try:
        L = Ledger(today).load(items)
        r = c.run('e', '-n')
        accepted(r, 'e')
        same_envelopes(r, L, ('due', 'now', 'next', 'saved'))
        return 'ok'
    except Fail as f:
        f.kw.update(c=c, seed=seed)
        raise
    finally:
        c.done()

# ------------------------------------------------------------------ amounts as text
def amount_case(prop, seed, prof, nums, words):
    rng = random.Random(seed)
    g = gen.Gen(rng, dict(big=0.2, magic=0.3), nums, words)
    lines, want = [], {}
    lines.append('account x')
    body = []
    for i in range(25):
        sym = rng.choice([None] + gen.SYMS + ['A$', 'ct', '¥', 'Fr', 'gold_oz', 'Ω', 'm²', 'x½', '٣d'])
        m = g.mag()
        if rng.random() < 0.2:
            m = m / 1000 if rng.random() < 0.5 else round(m * 7.77, 4)
        m = round(m, 6)
        if m == 0:
            m = 1.0
        a = 'a%d' % i
        lines.append('account ' + a)
        t = gen.amount((m, sym), rng, True)
        body.append('2020/01/01 * t\n    %s   %s\n    x' % (a, t))
        want[a] = {sym: m}
        p = want.setdefault('x', {})
        p[sym] = p.get(sym, 0.0) - m
    bad = None
    if rng.random() < 0.15:
        # text without a number
        bad = rng.choice(['$', 'abc', '-', '.', '$$', '½', '€ -', 'Fr ,', '²', '$ .', 'no number', '٣'])
        k = rng.randrange(len(body))
        body[k] = '2020/01/01 * t\n    a%d   %s\n    x' % (k, bad) if rng.random() < 0.7 else '2020/01/01 * t\n    a%d   5 A %s %s\n    x' % (k, rng.choice('@='), bad)
    c = Case('\n'.join(lines + body) + '\n', {}, D.date(2020, 6, 1))
    try:
        r = c.run('b', '-n')
        if bad is not None:
            refused(r, 'the amount %s' % bad, 'b')
            return 'refused'
        accepted(r, 'b')
        same_totals(r, want)
        return 'ok'
    except Fail as f:
        f.kw.update(c=c, seed=seed)
        raise
    finally:
        c.done()

# ------------------------------------------------------------------ comments: with and without, the same reports
def comment_case(prop, seed, prof, nums, words):
    rng = random.Random(seed)
    g = gen.Gen(rng, dict(bad=0.05, include=0.0), nums, words)
    today, items = g.journal()
    plain, _ = gen.render(items, random.Random(seed), 0.0, 0.0)
    lines = []
    for ln in plain.replace('\r', '').split('\n'):
        if rng.random() < 0.3:
            lines.append(rng.choice(['', '    ', '']) + rng.choice(gen.COMMENTS))
        if ln.strip() and rng.random() < 0.5:
            k = rng.choice([' ', '  ', '\t', ''])
            ln += k + rng.choice(gen.COMMENTS)
        lines.append(ln)
    text = '\n'.join(lines)
    c, c2 = Case(plain, {}, today), Case(text, {}, today)
    try:
        for cmd in ('b', 'e', 'r'):
            a, b = c.run(cmd, '-n'), c2.run(cmd, '-n')
            if bool(a.err.strip()) != bool(b.err.strip()):
                raise Fail('comments decide whether a journal is accepted (%s)' % cmd, expected=a.err[:500], got=b.err[:500])
            if a.out != b.out:
                raise Fail('comments change the report %s' % cmd, expected=a.out[:2000], got=b.out[:2000])
        # and the model agrees
        try:
            L = Ledger(today).load(items)
            look('e', c2.run('e', '-n'), L, ('available', 'saved', 'due'))
        except (Rejected, Ambiguous):
            pass
        return 'ok'
    except Fail as f:
        f.kw.update(c=c2, seed=seed)
        raise
    finally:
        c.done()
        c2.done()

# ------------------------------------------------------------------ import
RULE_DEFAULT = dict(date_format='%Y/%m/%d', date='%date%', decimal='.', skip='1', payee='', comment='', description='%description%', status='~')
RULE_ALIAS = {'note': 'comment', 'decimal_symbol': 'decimal'}

def rule_apply(Q, k, v):
    """what one line of a rules file means"""
    k = RULE_ALIAS.get(k, k)
    off = v.strip() == '-'
    for grp, pre in (('amounts', 'amount'), ('accounts', 'account')):
        if k.startswith(pre):
            if off:
                Q[grp].pop(k[len(pre):], None)
            else:
                Q[grp][k[len(pre):]] = v
            return
    Q[k] = RULE_DEFAULT[k] if off else v

def import_setup(rng, g):
    accs = ['assets:checking', 'expenses:food', 'income:salary', 'expenses:unknown', 'income:unknown', 'unknown', 'assets:crypto']
    n = rng.randint(0, 6)
    cols = ['date', 'description', 'amount']
    extra = rng.sample(['payee', 'currency', 'other', 'account', 'total'], rng.randint(0, 3))
    cols += extra
    blank = rng.random() < 0.06
    if blank:
        # a column that nobody needs
        cols.append('')
    if rng.random() < 0.4 or blank:
        rng.shuffle(cols)
    fmt = rng.choice(gen.FORMATS) if rng.random() < 0.6 else '%Y/%m/%d'
    skip = rng.choice([0, 1, 1, 1, 2])
    dec = ',' if rng.random() < 0.15 else '.'
    rules = []
    cut = rng.randint(1, len(cols) - 1)
    if rng.random() < 0.2:
        rules += ['fields ' + ', '.join(cols[:cut]), 'fields ' + ','.join(cols[cut:])]
    else:
        rules.append('fields ' + ', '.join(cols))
    if rng.random() < 0.05:
        rules[-1] += ', unused'
    lines = []
    if fmt != '%Y/%m/%d':
        lines.append(('date_format', fmt))
    if skip != 1 or rng.random() < 0.5:
        lines.append(('skip', str(skip)))
    if dec == ',':
        lines.append((rng.choice(['decimal_symbol', 'decimal']), ','))
    if 'payee' in cols and rng.random() < 0.7:
        lines.append(('payee', '%payee%'))
    if rng.random() < 0.4:
        lines.append((rng.choice(['comment', 'note']), rng.choice(['imported', 'from the bank: %description%', '100%% sure' if not blank else 'sure'])))
    if rng.random() < 0.3:
        lines.append(('description', rng.choice(['bank %description%', 'fixed text', '%description% (%amount%)'])))
    if rng.random() < 0.3:
        lines.append(('status', rng.choice('?*~')))
    cur = ' %currency%' if 'currency' in cols and rng.random() < 0.8 else ''
    if 'account' not in cols or rng.random() < 0.85:
        lines.append(('account', '%account%' if 'account' in cols and rng.random() < 0.3 else 'assets:checking'))
    if cur or 'total' in cols or rng.random() < 0.6:
        lines.append(('amount', '%amount%' + cur))
    if rng.random() < 0.4:
        lines.append(('account2', 'expenses:food'))
        if rng.random() < 0.4:
            lines.append(('amount2', ('%total%' if 'total' in cols and rng.random() < 0.6 else '-%amount%') + cur))
        if rng.random() < 0.2:
            lines.append(('account3', 'assets:crypto'))
            if rng.random() < 0.7:
                lines.append(('amount3', rng.choice(['0', '%amount%', '5 USD'])))
    if rng.random() < 0.5:
        rng.shuffle(lines)
    # settings that are overridden or discarded again
    other = dict(date_format='%d.%m.%y', date='%date%', decimal=',', skip='3', payee='Nobody', comment='old', note='older', description='wrong', status='*', account2='assets:crypto', amount2='7', amount='9', account='assets:crypto')
    for k in list(other):
        if rng.random() < 0.06:
            at = [i for i, (a, _) in enumerate(lines) if RULE_ALIAS.get(a, a) == RULE_ALIAS.get(k, k)]
            if at:
                lines.insert(rng.randint(0, at[0]), (k, other[k]))
            else:
                i = rng.randint(0, len(lines))
                lines[i:i] = [(k, other[k]), (k, '-')]
    R = dict(RULE_DEFAULT, accounts={}, amounts={})
    inc, sub_at, subs = [], [], []
    nsub = rng.choice([0, 0, 1, 2])
    late = rng.random() < 0.15 and nsub
    split = rng.randint(0, len(lines)) if late else len(lines)
    use = rng.random() < 0.1 and split > 0

    def put(ls, out):
        for a, b in ls:
            rule_apply(R, a, b)
            out.append('%s%s%s' % (a, rng.choice([' ', '  ', '\t'] if rng.random() < 0.2 else [' ', '  ']), b))
            if rng.random() < 0.15:
                out.append(rng.choice(['', '// note', '; note']))
    if use:
        put(lines[:split], inc)
        rules.append(rng.choice(['use', 'include']) + ' inc.rules')
    else:
        put(lines[:split], rules)
    for _ in range(nsub):
        pats = rng.sample(['coffee', 'PAY', 'bank x', 'zzz', 'salary', 'ünÏ'], rng.randint(1, 2))
        S = copy.deepcopy(R)
        sl = []
        if rng.random() < 0.5:
            sl.append(('payee', rng.choice(['Somebody', '%description%'])))
        if rng.random() < 0.5:
            sl.append(('account2', 'income:salary'))
        if rng.random() < 0.15:
            sl.append(('status', rng.choice('?*-')))
        if rng.random() < 0.15:
            sl.append(('description', rng.choice(['by rule', '-', '%description%!'])))
        if rng.random() < 0.1:
            sl.append((rng.choice(['account2', 'amount2', 'account3', 'comment', 'payee']), '-'))
        if rng.random() < 0.1:
            sl.append(('amount', rng.choice(['-%amount%' + cur, '%amount%' + cur])))
        if rng.random() < 0.3 or not sl:
            sl.append(('comment', 'by a subrule'))
        for a, b in sl:
            rule_apply(S, a, b)
        if rng.random() < 0.2:
            rules.append('if')
            rules += pats
        else:
            rules.append('if ' + pats[0])
            rules += pats[1:]
        rules += [rng.choice(['    ', '\t', ' ']) + a + ' ' + b for a, b in sl]
        subs.append((pats, S))
    put(lines[split:], rules)
    skip = int(R['skip'])
    for Q in [R] + [S for _, S in subs]:
        # a posting with the one amount, and no amounts at all
        if not Q['accounts']:
            Q['accounts'][''] = '%account%'
        if not Q['amounts']:
            Q['amounts'][''] = '%amount%'
    rows, recs = [], []
    for i in range(skip):
        rows.append(','.join(cols) if i == skip - 1 else ','.join(['head'] * len(cols)))
    for i in range(n):
        d = g.near(D.date(2020, 6, 15), 300, 100)
        m = g.mag() if rng.random() < 0.92 else rng.choice([0.0, 0.0, 0.01, -0.02, 0.09, -0.1])
        v = {}
        for cname in cols:
            if cname == 'date':
                v[cname] = d.strftime(fmt) if rng.random() < 0.99 else rng.choice(['soon', '', '2020/13/01', d.strftime(fmt) + 'x'])
            elif cname == 'description':
                v[cname] = rng.choice(['Coffee shop', 'salary May', 'Bank X transfer', 'a, quoted one', 'plain', 'plain 2', 'plain 3', 'web http://x.y', 'one; two', 'half [open', 'whole [one] here', 'odd ]', 'two\nlines' if rng.random() < 0.3 else 'one line', 'pay 100', 'Ünï'])
            elif cname == 'amount':
                v[cname] = ('%.2f' % m).replace('.', dec)
            elif cname == 'payee':
                v[cname] = rng.choice(['Somebody', 'The Shop', 'x', ''])
            elif cname == 'currency':
                v[cname] = rng.choice(['$', 'USD', 'BTC', '€'])
            elif cname == 'account':
                v[cname] = rng.choice(['assets:checking', 'assets:crypto'])
            elif cname == 'total':
                v[cname] = ('%.2f' % -m).replace('.', dec)
            else:
                v[cname] = rng.choice(['', 'n/a', 'zzz'])
        vals = [v[cname] for cname in cols]
        rows.append(','.join('"%s"' % x if ',' in x or '\n' in x else x for x in vals))
        if len(rows) > 1 and rng.random() < 0.01:
            rows[-1] += ',more'
            recs.append('unreadable')
            continue
        recs.append((d, m, v, ''.join(vals)))
    return accs, '\n'.join(rules) + '\n', '\n'.join(rows) + ('\n' if rows else ''), R, subs, recs, ('\n'.join(inc) + '\n') if use else None

def day(d, fmt):
    return d.strftime(fmt).strip()

def inject(s, v):
    return re.sub('%([a-z]+)%', lambda m: v[m.group(1)] if m.group(1) in v else m.group(), s).replace('%%', '%')

def pkey(p):
    return (p[1], p[2] is None, (p[2][1] or '', p[2][0]) if p[2] else ('', 0))

def import_amount(t, dec):
    """a number with a minus or two before it, and maybe a currency after it"""
    t = t.replace('--', '')
    m = re.fullmatch(r'(-?[0-9]+(?:%s[0-9]+)?)(?: (\S+))?' % re.escape(dec), t.strip())
    if not m:
        # the other sign is a separator of thousands
        m = re.fullmatch(r'(-?[0-9]+(?:[.,][0-9]+)?)(?: (\S+))?', t.strip())
        if not m:
            raise ValueError(t)
        return float(m.group(1).replace('.', '').replace(',', '')), m.group(2)
    return float(m.group(1).replace(dec, '.')), m.group(2)

def import_case(prop, seed, prof, nums, words):
    rng = random.Random(seed)
    g = gen.Gen(rng, dict(magic=0.2), nums, words)
    accs, rules, csv, R, subs, recs, inc = import_setup(rng, g)
    defined = [a for a in accs if rng.random() < 0.97 or a == 'assets:checking']
    fmt = rng.choice(gen.FORMATS) if rng.random() < 0.3 else None
    text = ('date_format %s\n' % fmt if fmt else '') + ''.join('account %s\n' % a for a in defined)
    ofmt = fmt or '%Y/%m/%d'
    named = rng.random() < 0.3
    extra = {'bank.csv': csv, ('r.txt' if named else 'bank.csv.rules'): rules}
    if inc is not None:
        extra['inc.rules'] = inc
    c = Case(text, {}, D.date(2020, 7, 1), extra)
    try:
        want, stop = [], None
        if 'unreadable' in recs:
            # a record with another number of fields: nothing can be imported
            recs, stop = [], 'another number of fields'
        for d, m, v, whole in recs:
            Q = R
            for pats, S in subs:
                if any(p.lower() in whole.lower() for p in pats):
                    Q = S
                    break
            ps = []
            if v['date'].strip() != d.strftime(Q['date_format']).strip():
                try:
                    D.datetime.strptime(v['date'].strip(), Q['date_format'].replace('%e', '%d'))
                    return None
                except ValueError:
                    pass
                stop = 'date'
                break
            for k, a in Q['accounts'].items():
                acc = inject(a, v)
                if acc not in defined:
                    stop = 'undefined account'
                    break
                am = None
                if k in Q['amounts']:
                    try:
                        am = import_amount(inject(Q['amounts'][k], v), Q['decimal'])
                    except ValueError:
                        stop = 'amount'
                        break
                ps.append(('classic', acc, am, None))
            if stop:
                break
            if len(ps) == 1:
                if ps[0][2] is None:
                    stop = 'nothing but a blank'
                    break
                a = ps[0][2][0]
                un = 'expenses:unknown' if a < 0 else 'income:unknown' if a > 0 else 'unknown'
                if un not in defined:
                    stop = 'undefined account'
                    break
                ps.append(('classic', un, None, None))
            nb = sum(1 for p in ps if p[2] is None)
            syms = {p[2][1] for p in ps if p[2] is not None}
            if nb > 1:
                stop = 'two blanks'
                break
            if nb == 1 and len(syms) != 1:
                stop = 'a blank with other currencies'
                break
            if nb == 0 and len(syms) == 1 and abs(sum(p[2][0] for p in ps)) > 1e-6:
                stop = 'does not add up'
                break
            head = inject(Q['description'], v) + (' [%s]' % inject(Q['payee'], v) if Q['payee'] else '')
            cut = re.split('//|;', head)[0]
            if '[' in cut and cut.rfind(']') < cut.find('[') or '\n' in head + inject(Q['comment'], v):
                stop = 'a header that cannot be read back'
                break
            want.append(dict(odd=re.search(r'//|[;\[\]]', inject(Q['description'] + Q['payee'], v)) is not None, date=day(d, ofmt), status=Q['status'], desc=inject(Q['description'], v), payee=inject(Q['payee'], v) if Q['payee'] else None,
                             comment=inject(Q['comment'], v) if Q['comment'] else None, postings=sorted(ps, key=pkey)))
        snap = c.snapshot()
        args = ['i', rng.choice(['--csv', '--csv-file']), os.path.join(c.dir, 'bank.csv')] + ([rng.choice(['--rules', '--rules-file']), os.path.join(c.dir, 'r.txt')] if named else [])
        if rng.random() < 0.3:
            args.append('-n')
        r = c.run(*args)
        after = c.snapshot()
        if set(after) != set(snap) or any(after[k] != snap[k] for k in snap if k != 'j.sfox'):
            raise Fail('importing changed another file than the journal')
        if not after['j.sfox'].startswith(snap['j.sfox']):
            raise Fail('importing changed the journal other than by appending')
        new = after['j.sfox'][len(snap['j.sfox']):].decode('utf8')
        try:
            got = sfox.parse_written(new)
        except Exception as x:
            raise Fail('the imported entries cannot be read: %r' % (x,), got=new)
        if stop is None:
            accepted(r, 'import')
        elif not r.err.strip():
            raise Fail('a record that cannot be imported (%s) was accepted' % stop)
        for e in got:
            e['postings'] = sorted(e['postings'], key=pkey)
        if len(got) != len(want):
            raise Fail('%d entries were imported, not %d' % (len(got), len(want)), expected=want, got=got)
        for a, b in zip(want, got):
            for k in ('date', 'status', 'desc', 'payee', 'comment') if not a['odd'] else ('date', 'status'):
                x, y = a[k], b[k]
                if isinstance(x, str):
                    x = ' '.join(x.split())
                    y = ' '.join((y or '').split())
                if x != y:
                    raise Fail('imported %s' % k, expected=a, got=b)
            if [(p[0], p[1], p[2] is None, p[2] and p[2][1], p[3]) for p in a['postings']] != [(p[0], p[1], p[2] is None, p[2] and p[2][1], p[3]) for p in b['postings']] or \
                    any(p[2] and q[2] and not sfox.close(p[2][0], q[2][0]) for p, q in zip(a['postings'], b['postings'])):
                raise Fail('imported postings', expected=a, got=b)
        if stop is None and all(x in defined for x in accs) and want:
            # what was written can be read again, and the balances are those of the records
            tot = {}
            for e in want:
                given = [p for p in e['postings'] if p[2] is not None]
                s = {}
                for p in given:
                    pool_add(tot.setdefault(p[1], {}), p[2])
                    pool_add(s, p[2])
                for p in e['postings']:
                    if p[2] is None:
                        for k, x in s.items():
                            pool_add(tot.setdefault(p[1], {}), (-x, k))
            r = c.run('b', '-n')
            accepted(r, 'balance after the import')
            same_totals(r, tot)
        return 'ok' if want else 'empty'
    except Fail as f:
        f.kw.update(c=c, seed=seed)
        raise
    finally:
        c.done()

# ------------------------------------------------------------------ crashes
TOK = ['//', ';', '-', '--', '$', '!', '!!', '=', '@', '[', ']', '][', 'envelope', 'account', 'include', 'date_format', 'currency', 'expense', 'goal', 'amount', 'for',
       'funding', 'starting', 'every', 'other', 'year', 'due', 'by', 'no date', '0', '31', '99999999999999999999', '1e400', 'NaN', 'inf', '.', ',', '%', '%Y', 'é', '═', '\u00a0', '\t', '~', '*', '?',
       '2020/02/30', '0000/00/00', '9999/12/31', '262142/12/31', '-262143/01/01', 'every 31st', 'every 0th', 'every other 31st', 'every 4294967296th', 'j.sfox', '%Q', '%H', '%d.%m', 'date_format %Q', 'include j.sfox', 'date_format %I:%M', '1.2.3', '-$-5', '..', '-.']

def mutate(rng, t, words):
    lines = t.split('\n')
    for _ in range(rng.randint(1, 4)):
        if not lines:
            break
        i = rng.randrange(len(lines))
        k = rng.random()
        toks = lines[i].split(' ')
        if k < 0.2:
            del lines[i]
        elif k < 0.3:
            lines.insert(i, lines[rng.randrange(len(lines))])
        elif k < 0.5 and toks:
            j = rng.randrange(len(toks))
            toks[j] = rng.choice(TOK + list(words))
            lines[i] = ' '.join(toks)
        elif k < 0.65:
            j = rng.randint(0, len(lines[i]))
            lines[i] = lines[i][:j] + rng.choice(TOK) + lines[i][j:]
        elif k < 0.8 and toks:
            del toks[rng.randrange(len(toks))]
            lines[i] = ' '.join(toks)
        elif k < 0.9 and lines[i]:
            j = rng.randrange(len(lines[i]))
            lines[i] = lines[i][:j] + lines[i][j + 1:]
        else:
            lines[i] = lines[i].strip() if rng.random() < 0.5 else '  ' + lines[i]
    return '\n'.join(lines)

def crash_case(prop, seed, prof, nums, words):
    rng = random.Random(seed)
    g = gen.Gen(rng, dict(bad=0.1, multi=0.5), nums, words)
    if rng.random() < 0.25:
        accs, rules, csv, R, subs, recs, inc = import_setup(rng, g)
        if rng.random() < 0.8:
            rules = mutate(rng, rules, list(words) + ['%date%', '%amount%', 'if', 'fields', 'skip', 'skip 0', 'use r.txt', 'use bank.csv.rules', '\nuse bank.csv.rules\n', '\n  use bank.csv.rules', 'skip -1'])
        if rng.random() < 0.4:
            csv = mutate(rng, csv, words)
        text = ''.join('account %s\n' % a for a in accs)
        c = Case(text, {}, D.date(2020, 7, 1), {'bank.csv': csv, 'bank.csv.rules': rules, 'inc.rules': inc or ''})
        cmds = [('i', '--csv', os.path.join(c.dir, 'bank.csv'))]
    else:
        today, items = g.journal()
        text, files = gen.render(items, rng, 0.5, 0.5)
        text = mutate(rng, text, words)
        c = Case(text, files, today)
        cmds = [('b', '-n'), ('e', '-n'), ('r', '-n'), ('e',)]
    try:
        for cmd in cmds:
            r = c.run(*cmd)
        return 'ok' if not r.err.strip() else 'refused'
    except Fail as f:
        f.kw.update(c=c, seed=seed)
        raise
    finally:
        c.done()

# ------------------------------------------------------------------ the writes of the program
def write_case(prop, seed, prof, nums, words):
    """only filling and importing write, only by appending to the journal, and never into a journal that is refused"""
    rng = random.Random(seed)
    g = gen.Gen(rng, dict(bad=0.2, include=0.4, funded=0.9, envelopes=0.9), nums, words)
    today, items = g.journal()
    text, files = gen.render(items, rng, 0.2, 0.2)
    if rng.random() < 0.2:
        text = mutate(rng, text, words)
        ok = None
    else:
        ok = True
    c = Case(text, files, today)
    try:
        snap = c.snapshot()
        for cmd in ('b', 'e', 'r'):
            rel = rng.random() < 0.3
            c.run(cmd, rng.choice(['-n', '--no-move']), relative=False)
            if c.snapshot() != snap:
                raise Fail('%s --no-move wrote to a file' % cmd)
        cmd = rng.choice(['b', 'e', 'r'])
        r0 = c.run(cmd, '-n')
        r = c.run(cmd)
        s2 = c.snapshot()
        if set(s2) != set(snap) or any(s2[k] != snap[k] for k in snap if k != 'j.sfox'):
            raise Fail('another file than the journal was written to')
        if not s2['j.sfox'].startswith(snap['j.sfox']):
            raise Fail('the journal was changed other than by appending')
        if r0.err.strip() and not r0.out and cmd != 'r' and s2 != snap and r.err.strip():
            raise Fail('a refused journal was written to', got=s2['j.sfox'][len(snap['j.sfox']):].decode())
        new = s2['j.sfox'][len(snap['j.sfox']):].decode('utf8')
        if new.strip():
            r3 = c.run('b', '-n')
            if r3.err.strip():
                raise Fail('the journal cannot be read any more after the program wrote to it: %s' % r3.err.strip()[:300], got=new)
        return 'ok'
    except Fail as f:
        f.kw.update(c=c, seed=seed)
        raise
    finally:
        c.done()

ALL = ('accept', 'balance', 'available', 'saved', 'now', 'next', 'amount', 'due', 'register')
def J(prof, cmds, aspects):
    return lambda prop, seed, p, nums, words: journal_case(prop, seed, dict(prof), cmds, aspects, nums, words)

# property -> [(weight, name, function)]
SUITES = {
    'C01': [(3, 'journals in several currencies', J(dict(multi=0.95, blank=0.3, cost=0.6, foreign_env=0.6, env_posting=0.3), ['b', 'e', 'r', 'e-fill'], ('balance', 'available', 'saved', 'amount', 'register')))],
    'C02': [(3, 'journals in several currencies', J(dict(multi=0.9, blank=0.5, cost=0.4, entries=(3, 14)), ['b', 'e', 'r'], ('balance', 'available', 'register')))],
    'C03': [(3, 'entries with a blank posting', J(dict(blank=0.95, multi=0.5, cost=0.7, env_posting=0.3, entries=(1, 5)), ['b', 'e', 'r'], ('balance', 'available', 'register')))],
    'C04': [(3, 'wrong entries', J(dict(bad=0.6, blank=0.5, multi=0.4, entries=(1, 3), envelopes=0.3), ['b', 'e'], ('accept', 'balance')))],
    'C05': [(3, 'balances', J(dict(entries=(2, 14), env_posting=0.35), ['b', 'b-fill'], ('balance',)))],
    'C06': [(3, 'available money', J(dict(envelopes=1.0, env_posting=0.4, entries=(2, 12)), ['e', 'e-fill'], ('available',)))],
    'C07': [(3, 'envelope postings', J(dict(envelopes=1.0, env_posting=0.8, entries=(1, 8), boundary=0.6), ['e'], ('saved', 'now', 'next'))), (1, 'due dates', due_case)],
    'C08': [(3, 'automatic movements', J(dict(envelopes=1.0, env_posting=0.08, auto=1.0, entries=(1, 8), boundary=0.5), ['e'], ('saved', 'now', 'next')))],
    'C09': [(3, 'filling', J(dict(envelopes=1.0, funded=1.0, entries=(1, 7), bad=0.02), ['e-fill', 'b-fill'], ('available', 'saved'))), (1, 'days', history_case)],
    'C10': [(3, 'days', history_case)],
    'C11': [(2, 'due dates', due_case), (1, 'envelopes', J(dict(envelopes=1.0), ['e'], ('due', 'saved')))],
    'C12': [(2, 'writes', write_case), (1, 'filling', J(dict(envelopes=1.0, funded=0.9), ['b-fill', 'e-fill'], ())), (1, 'import', import_case)],
    'C13': [(2, 'comments', comment_case), (1, 'journals', J(dict(comments=0.95, bad=0.05), ['b', 'e', 'r'], ALL))],
    'C14': [(2, 'amounts', amount_case), (1, 'journals', J(dict(messy=0.95, multi=0.7, bad=0.02, cost=0.6), ['b', 'e'], ('balance', 'available', 'amount', 'saved')))],
    'C15': [(2, 'days', history_case), (1, 'import', import_case), (1, 'filling', J(dict(envelopes=1.0, funded=0.95, multi=0.5, foreign_env=0.5), ['b-fill', 'e-fill', 'e'], ALL))],
    'C16': [(3, 'register', J(dict(entries=(2, 12), env_posting=0.25, multi=0.5), ['r'], ('register',)))],
    'C17': [(3, 'import', import_case)],
    'C18': [(3, 'mangled texts', crash_case), (1, 'journals', J(dict(bad=0.3, multi=0.6), ['b', 'e', 'r', 'e-fill'], ()))],
    'C19': [(3, 'envelope names', J(dict(dup=0.5, envelopes=1.0, entries=(0, 4), env_posting=0.5), ['e', 'b'], ('accept', 'saved')))],
}
