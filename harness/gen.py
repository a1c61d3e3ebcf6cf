"""Random journals (AST) and their rendering as text."""
import datetime as D, random, re, glob, os
from model import *

SYMS = ['$', '€', 'BTC', 'USD', '£', 'R$', 'kr', 'points', 'usd', 'US', 'pts', 'A$']
WD = ['monday', 'tuesday', 'wednesday', 'thursday', 'friday', 'saturday', 'sunday']
FORMATS = ['%Y/%m/%d', '%Y-%m-%d', '%d.%m.%Y', '%m/%d/%Y', '%Y.%m.%d', '%e.%m.%Y']
DESCS = ['Groceries', 'pay day', 'rent for the month', 'Bought a thing', 'refund', 'café au lait', 'transfer', 'a', 'move to envelopes', 'ATM #4', 'note:', 'a/b', '5 - 3', 'x = y @ z!', 'due every 5th']
PAYEES = ['Fancy\'s', 'Grocery store', 'Ferris the Crab', 'x', 'Ünïcode & Co']

def magics(repo):
    """numbers and short words that occur in the sources: inputs worth trying"""
    nums, words = set(), set()
    for f in glob.glob(os.path.join(repo, 'src', '**', '*.rs'), recursive=True):
        try:
            t = open(f, encoding='utf8').read()
        except OSError:
            continue
        t = re.split(r'#\[cfg\(test\)\]', t)[0]
        t = re.sub(r'//[^\n]*', '', t)
        for m in re.findall(r'(?<![\w.%])\d[\d_]*(?:\.\d[\d_]*)?(?:e-?\d+)?', t):
            try:
                v = float(m.replace('_', ''))
            except ValueError:
                continue
            if 0 < v < 1e7 and v >= 0.01:
                nums.add(v)
        for m in re.findall(r'"((?:[^"\\]|\\.)*)"', t):
            if re.fullmatch(r'[A-Za-z_:]{1,24}', m):
                words.add(m)
    return sorted(nums), sorted(words)

class Gen:
    def __init__(self, rng, prof=None, nums=(), words=()):
        self.r = rng
        self.nums, self.words = list(nums), list(words)
        p = dict(multi=0.3, blank=0.5, env_posting=0.2, envelopes=0.7, cost=0.3, bad=0.08, fmt=0.25, comments=0.35, include=0.1, future=0.15,
                 entries=(0, 9), accounts=(2, 6), funded=0.5, auto=0.6, foreign_env=0.2, dup=0.03, near=0.6, messy=0.3, magic=0.15, big=0.05, boundary=0.3)
        p.update(prof or {})
        self.p = p

    def chance(self, k):
        return self.r.random() < (self.p[k] if isinstance(k, str) else k)

    # ------------------------------------------------------------ values
    def mag(self, positive=False):
        r = self.r
        if self.nums and self.chance('magic'):
            v = r.choice(self.nums)
            v = r.choice([v, v, v + 1, v - 1, v + 0.25, v - 0.25, 2 * v, v / 2])
            v = abs(v) or 1.0
            v = round(v * 4) / 4 or 0.25
        else:
            k = r.random()
            if k < 0.5:
                v = float(r.randint(1, 200))
            elif k < 0.75:
                v = r.randint(1, 4000) / 4
            elif k < 0.85:
                v = r.randint(1, 100000) / 100 if r.random() < 0.6 else round(r.choice([1e-6, 2e-5, 0.12345678, 1.0 + 1e-7, 3.1415927, r.random(), r.random() * 50]), 8)
            elif k < 0.85 + self.p['big']:
                v = float(r.randint(1, 10 ** 7))
            else:
                v = float(r.choice([1, 2, 5, 10, 20, 50, 100, 500, 1000, 1500, 2000, 5000]))
        return v if positive or r.random() < 0.5 else -v

    def today(self):
        r = self.r
        k = r.random()
        if k < 0.35:      # ends of months, leap days, ends of years
            y = r.randint(2016, 2032)
            m = r.choice([1, 2, 2, 3, 4, 11, 12, 12, 1, r.randint(1, 12)])
            last = last_of_month(y, m).day
            d = r.choice([1, last, last - 1, last - 2, min(28, last), 1, 2, 15])
            return D.date(y, m, d)
        return D.date(2016, 1, 1) + D.timedelta(r.randint(0, 6000))

    def near(self, today, back=90, fwd=60):
        r = self.r
        k = r.random()
        if k < 0.25:
            return today
        if k < 0.5:
            return today + D.timedelta(r.randint(-7, 7))
        if k < 0.9:
            return today + D.timedelta(r.randint(-back, fwd))
        if k < 0.95:
            return today + D.timedelta(r.randint(-1500, 400))
        y, m = add_months(today.year, today.month, r.randint(-14, 14))
        return clamp(y, m, r.choice([today.day, 31, 30, 29, 28, 1]))

    def entry_date(self, today, envs=()):
        r = self.r
        cands = []
        if envs and self.chance('boundary'):
            for e in envs:
                l, n = freq_last(e.freq, e.start, today), freq_next(e.freq, e.start, today)
                for d in (l, n):
                    if d:
                        cands += [d, d - D.timedelta(1), d + D.timedelta(1)]
        if cands:
            d = r.choice(cands)
        else:
            d = self.near(today, 70, 20)
        if d > today and not self.chance('future'):
            d = today - D.timedelta(r.randint(0, 40))
        return d

    def freq(self, today):
        """(freq, start)"""
        r = self.r
        k = r.choice(['never', 'once', 'once', 'weekly', 'biweekly', 'monthly', 'monthly', 'monthly', 'bimonthly', 'bimonthly', 'annually', 'annually'])
        st = None
        if k == 'once':
            f = ('once', self.near(today, 60, 200))
        elif k in ('weekly', 'biweekly'):
            f = (k, r.randint(0, 6))
        elif k in ('monthly', 'bimonthly'):
            f = (k, r.choice([1, 2, 5, 10, 15, 20, 25, 28, 29, 30, 31, today.day, r.randint(1, 31)]))
        else:
            f = (k,)
        if k in ('biweekly', 'bimonthly', 'annually'):
            if k == 'annually' and r.random() < 0.2:
                st = D.date(r.choice([2012, 2016, 2020]), 2, 29)
            else:
                st = self.near(today, 800, 60)
            if k == 'biweekly':
                st += D.timedelta((f[1] - st.weekday()) % 7)
            if k == 'bimonthly' and r.random() < 0.5:
                st = clamp(st.year, st.month, f[1])
        elif k in ('weekly', 'monthly', 'once') and r.random() < 0.2:
            st = self.near(today, 60, 60)
        return f, st

    def syms(self):
        r = self.r
        if self.chance('multi'):
            return [None] + r.sample(SYMS, r.choice([1, 1, 2, 2, 3, 3, 6]))
        return [None] if r.random() < 0.7 else [r.choice(SYMS)]

    # ------------------------------------------------------------ journals
    def accounts(self, today, syms):
        r = self.r
        names = ['assets:checking', 'assets:savings', 'expenses:food', 'expenses:rent', 'income:salary', 'liabilities:card', 'assets:crypto', 'equity', 'expenses:home:power', 'asset']
        n = r.randint(*self.p['accounts'])
        names = ['assets:checking'] + r.sample(names[1:], min(n, len(names) - 1))
        if self.words and r.random() < 0.1:
            w = 'x' + r.choice(self.words)
            if w not in names:
                names.append(w)
        out = []
        for nm in names:
            a = Account(nm)
            if nm.startswith('asset') and self.chance('envelopes'):
                ens = r.sample(['rent', 'food', 'camera', 'boat', 'power', 'gifts', 'Food', 'foo', 'foods'], r.randint(1, 3))
                for en in ens:
                    f, st = self.freq(today)
                    others = [x for x in names if x != nm or r.random() < 0.1]
                    autos = tuple(r.sample(others, min(len(others), r.choice([1, 1, 2])))) if self.chance('auto') else ()
                    sym = r.choice(syms) if self.chance('foreign_env') else syms[0]
                    fund = r.choice(['aggressive', 'conservative']) if self.chance('funded') else 'manual'
                    a.envelopes.append(Envelope(r.choice(['expense', 'expense', 'goal']), en, f, st, (self.mag(True) if r.random() < 0.95 else -self.mag(True) if r.random() < 0.7 else 0.0, sym), fund, autos))
                if a.envelopes and self.chance('dup'):
                    e = r.choice(a.envelopes)
                    a.envelopes.insert(r.randint(0, len(a.envelopes)), Envelope(r.choice(['expense', 'goal']), e.name, ('never',), None, (5.0, None)))
            out.append(a)
        return out

    def entry(self, accs, today, syms):
        r = self.r
        envs = [(a, e) for a in accs for e in a.envelopes]
        e = Entry(self.entry_date(today, [x[1] for x in envs]), r.choice('?~*'), r.choice(DESCS), r.choice(PAYEES) if r.random() < 0.3 else None)
        names = [a.name for a in accs]
        if envs and r.random() < 0.5:
            # an entry some envelope cares about
            a, en = r.choice(envs)
            if en.autos:
                pick = [a.name, r.choice(en.autos)] + ([r.choice(names)] if r.random() < 0.3 else [])
            else:
                pick = [a.name, r.choice(names)]
            sy = en.amount[1] if r.random() < 0.8 else r.choice(syms)
        else:
            pick = [r.choice(names) for _ in range(r.choice([2, 2, 2, 3, 3, 4]))]
            sy = r.choice(syms)
        ps = []
        m = self.mag()
        if len(pick) == 2:
            ps = [Classic(pick[0], (m, sy)), Classic(pick[1], (-m, sy))]
        else:
            ms = [self.mag() for _ in pick[:-1]]
            ps = [Classic(n, (x, sy)) for n, x in zip(pick, ms)] + [Classic(pick[-1], (-sum(ms), sy))]
        if len(syms) > 1 and r.random() < 0.5:
            # another currency, perhaps with its price
            q = r.choice(ps[:-1])
            other = r.choice([x for x in syms if x != sy])
            am = self.mag()
            q.amount = (am, other)
            if self.chance('cost'):
                if sy is None or r.random() < 0.5:
                    price = self.mag(True) if r.random() < 0.9 else 0.0
                    csym = None if r.random() < 0.9 else r.choice(syms)
                    q.cost = r.choice([('@', (price, csym)), ('=', ((q.amount[0] / abs(q.amount[0]) if r.random() < 0.9 else 1) * self.mag(True), csym))])
                else:
                    q.cost = ('@', (self.mag(True), sy))
        elif r.random() < 0.08:
            q = r.choice(ps)
            q.cost = r.choice([('@', (self.mag(True), None)), ('=', (self.mag(), None))])
        if self.chance('blank'):
            r.choice(ps).amount = None
            for q in ps:
                if q.amount is None:
                    q.cost = None
        if r.random() < 0.3:
            r.shuffle(ps)
        if self.chance('bad'):
            k = r.randint(0, 4)
            if k == 0 and ps:
                q = r.choice(ps)
                if q.amount:
                    q.amount = (q.amount[0] + r.choice([1.0, -0.25, 0.01, 0.001, 1000.0]), q.amount[1])
            elif k == 1:
                q = r.choice(ps)
                q.amount, q.cost = None, None
            elif k == 2:
                nm = r.choice(names)
                ps.append(Classic(r.choice(['undefined:account', nm + ':x', nm.upper(), nm.capitalize(), nm[:-1], nm + ':', nm.split(':')[0] + ':', nm + 's']), r.choice([None, (0.0, sy)])))
            elif k == 3:
                ps = [Classic(q.account, None) for q in ps[:r.randint(0, 2)]]
            else:
                ps.append(Classic(r.choice(names), None))
        if envs and self.chance('env_posting'):
            for _ in range(r.choice([1, 1, 2, 3])):
                a, en = r.choice(envs)
                m = self.mag()
                sy2 = en.amount[1] if r.random() < 0.95 else r.choice(syms)
                acc, nm = a.name, en.name
                if r.random() < 0.06:
                    acc = r.choice(names)
                if r.random() < 0.06:
                    nm = r.choice(['rent', 'food', 'nothing'])
                ps.insert(r.randint(0, len(ps)), Env(acc, nm, (m, sy2)))
            if r.random() < 0.3:
                ps = [q for q in ps if isinstance(q, Env)]
        e.postings = ps
        return e

    def journal(self, today=None):
        r = self.r
        today = today or self.today()
        syms = self.syms()
        items = []
        if self.chance('fmt'):
            items.append(Directive('date_format', r.choice(FORMATS)))
        if r.random() < 0.1:
            items.append(Directive('currency', r.choice(SYMS)))
        accs = self.accounts(today, syms)
        # money to begin with
        items += accs
        n = r.randint(*self.p['entries'])
        es = []
        if r.random() < 0.7:
            start = Entry(today - D.timedelta(r.randint(20, 400)), '*', 'opening balance')
            start.postings = [Classic('assets:checking', (float(r.choice([100, 500, 1000, 3000])), syms[0])), Classic(r.choice(accs[1:]).name if len(accs) > 1 else 'assets:checking', None)]
            es.append(start)
        es += [self.entry(accs, today, syms) for _ in range(n)]
        if r.random() < 0.5:
            es.sort(key=lambda e: e.date)
        items += es
        if self.chance('include') and len(es) > 1:
            k = r.randint(0, len(es) - 1)
            head, tail = items[:len(items) - len(es) + k], items[len(items) - len(es) + k:]
            j = r.randint(1, len(tail))
            items = head + [Directive('include', (r.choice(['more.sfox', 'sub/more.sfox', './other.sfox']), tail[:j]))] + tail[j:]
        return today, items

# ---------------------------------------------------------------- rendering
def num(m, r, messy):
    a = abs(m)
    s = repr(round(a, 8))
    if 'e' in s or 'inf' in s:
        s = '%.8f' % a
    if s.endswith('.0') and r.random() < 0.7:
        s = s[:-2]
    if messy:
        k = r.random()
        if k < 0.2 and a >= 1000:
            i, _, f = s.partition('.')
            i = '{:,}'.format(int(i))
            s = i + ('.' + f if f else '')
        elif k < 0.3 and '.' in s and s.startswith('0.'):
            s = s[1:]
        elif k < 0.4:
            s = s + ('0' if '.' in s else '.00')
    return s

def amount(a, r, messy=False, spaced=True):
    m, sym = a
    s = num(m, r, messy)
    neg = m < 0
    if sym is None:
        return ('-' if neg else '--' if messy and r.random() < 0.1 else '') + s
    k = r.random() if messy else (0 if len(sym) <= 2 else 0.5)
    sp = ' ' if spaced and r.random() < 0.5 else ''
    if k < 0.3:
        return sym + sp + ('-' if neg else '') + s
    if k < 0.4:
        return ('-' if neg else '') + sym + sp + s
    return ('-' if neg else '') + s + (' ' if spaced else '') + sym

COMMENTS = ['// a comment', '; note', '//', '//x // y', '; 2020/01/01 * not an entry', '// account nothing', '; amount 5', '// envelope a b 3', '// @ 3', '; ! 5 // = 9', '// é', ';// x', '//; x', '; x;y', '///']

class Renderer:
    def __init__(self, rng, messy=0.3, comments=0.35):
        self.r, self.messy, self.cm = rng, messy, comments
        self.fmt = '%Y/%m/%d'
        self.files = {}

    def c(self):
        return ('  ' + self.r.choice(COMMENTS)) if self.r.random() < self.cm * 0.4 else ''

    def m(self):
        return self.r.random() < self.messy

    def date(self, d):
        s = d.strftime(self.fmt).strip()
        if self.m() and self.fmt in ('%Y/%m/%d', '%Y-%m-%d'):
            sep = self.fmt[2]
            s = '%d%s%d%s%d' % (d.year, sep, d.month, sep, d.day)
        return s

    def freq(self, f, start):
        r = self.r
        due = r.choice([' due ', ' by ', ' due by ']) if self.m() else ' due '
        k = f[0]
        if k == 'never':
            t = ' no date'
            return t if start is None else t + ' starting ' + self.date(start)
        if k == 'once':
            t = (due if self.m() else ' by ') + self.date(f[1])
        elif k in ('weekly', 'biweekly'):
            w = WD[f[1]]
            w = r.choice([w, w.capitalize(), w[:3].capitalize(), w[:3]])
            t = due + ('every ' if k == 'weekly' else 'every other ') + w
        elif k in ('monthly', 'bimonthly'):
            n = f[1]
            suf = 'th' if 10 <= n % 100 <= 20 else {1: 'st', 2: 'nd', 3: 'rd'}.get(n % 10, 'th')
            t = due + ('every ' if k == 'monthly' else 'every other ') + str(n) + (suf if r.random() < 0.9 else '')
        else:
            t = due + 'every year'
        if start is not None:
            t += ' starting ' + self.date(start)
        return t

    def noise(self, out, inside):
        r = self.r
        if r.random() < self.cm * 0.3:
            k = r.random()
            if k < 0.4:
                out.append('')
            elif k < 0.7:
                out.append(r.choice(COMMENTS))
            elif inside:
                out.append('      ' + r.choice(COMMENTS))
            else:
                out.append('   ')

    def posting(self, p):
        r = self.r
        ms = self.m()
        if isinstance(p, Env):
            return 'envelope %s %s  %s' % (p.account, p.envelope, amount(p.amount, r, ms))
        t = p.account
        if p.amount is not None:
            t += ' ' * r.randint(1, 6) + amount(p.amount, r, ms)
        cost = ' %s %s' % (p.cost[0], amount(p.cost[1], r, ms)) if p.cost else ''
        # what the balance is said to be (nothing is made of it)
        says = r.choice([' ! ', ' !! ']) + amount((float(r.randint(-50, 50)), r.choice([None, 'USD', '$'])), r, ms) if r.random() < 0.03 else ''
        return t + (cost + says if r.random() < 0.7 else says + cost)

    def items(self, items):
        r = self.r
        out = []
        for it in items:
            self.noise(out, False)
            if isinstance(it, Directive):
                if it.kind == 'include':
                    if it.value is None:
                        out.append('include nowhere.sfox')
                    else:
                        name = it.value[0]
                        fmt0 = self.fmt
                        self.files[name] = self.items(it.value[1])
                        out.append('include ' + name + self.c())
                else:
                    out.append('%s %s%s' % (it.kind, it.value, self.c()))
                    if it.kind == 'date_format':
                        self.fmt = it.value
            elif isinstance(it, Account):
                out.append('account ' + it.name + self.c())
                for e in it.envelopes:
                    self.noise(out, True)
                    out.append('    %s %s%s%s' % (e.kind, e.name, self.freq(e.freq, e.start), self.c()))
                    props = ['amount ' + amount(e.amount, r, self.m())]
                    if e.funding != 'manual' or r.random() < 0.3:
                        props.append('funding ' + e.funding)
                    props += ['for ' + a for a in e.autos]
                    if self.m():
                        r.shuffle(props)
                    for q in props:
                        self.noise(out, True)
                        out.append('        ' + q + self.c())
            elif isinstance(it, Entry):
                h = '%s %s %s' % (self.date(it.date), it.status, it.desc)
                if it.payee is not None:
                    h += ' [%s]' % it.payee
                out.append(h + self.c())
                for p in it.postings:
                    self.noise(out, True)
                    out.append(r.choice(['    ', '  ', '\t', ' ']) + self.posting(p) + self.c())
                if r.random() < 0.5:
                    out.append('')
            elif isinstance(it, Bad):
                out.append(it.text)
        nl = '\r\n' if r.random() < 0.05 else '\n'
        return nl.join(out) + (nl if r.random() < 0.9 else '')

def render(items, rng, messy=0.3, comments=0.35):
    R = Renderer(rng, messy, comments)
    main = R.items(items)
    return main, R.files
