"""Reference semantics of a silverfox journal, written from the documentation and the property statements
(no code shared with, or derived from, the Rust sources).  Works on an AST; text is only produced by render().

Amount   : (mag: float, sym: str|None)
Posting  : Classic(account, amount|None, cost|None)   cost = ('@'|'=', amount)
           Env(account, envelope, amount)
Entry    : date, status, desc, payee, postings
Envelope : kind expense|goal, name, freq, start, amount, funding, autos
"""
import calendar, datetime as D
from dataclasses import dataclass, field

class Rejected(Exception):
    pass

class Ambiguous(Exception):
    """the answer hangs on rounding"""

@dataclass
class Classic:
    account: str
    amount: tuple = None
    cost: tuple = None
    assertion: tuple = None

@dataclass
class Env:
    account: str
    envelope: str
    amount: tuple

@dataclass
class Entry:
    date: D.date
    status: str
    desc: str
    payee: str = None
    postings: list = field(default_factory=list)
    comment: str = None

@dataclass
class Envelope:
    kind: str
    name: str
    freq: tuple              # ('never',) ('once', d) ('weekly', 0..6) ('biweekly', wd) ('monthly', n) ('bimonthly', n) ('annually',)
    start: D.date = None
    amount: tuple = (0.0, None)
    funding: str = 'manual'
    autos: tuple = ()

@dataclass
class Account:
    name: str
    envelopes: list = field(default_factory=list)

@dataclass
class Directive:
    kind: str                # date_format | currency | include
    value: object

# ---------------------------------------------------------------- dates
def last_of_month(y, m):
    return D.date(y, m, calendar.monthrange(y, m)[1])

def clamp(y, m, day):
    last = last_of_month(y, m)
    return D.date(y, m, day) if 1 <= day <= last.day else last

def add_months(y, m, k):
    t = y * 12 + (m - 1) + k
    return t // 12, t % 12 + 1

def freq_next(f, start, today):
    """the first due date after today"""
    k = f[0]
    if k == 'never':
        return None
    if k == 'once':
        return f[1] if f[1] > today else None
    if k == 'weekly':
        d = today + D.timedelta(1)
        while d.weekday() != f[1]:
            d += D.timedelta(1)
        return d
    if k == 'biweekly':
        d = start
        if d <= today:
            n = (today - d).days // 14 + 1
            d = d + D.timedelta(14 * n)
        return d
    if k == 'monthly':
        d = clamp(today.year, today.month, f[1])
        if d <= today:
            d = clamp(*add_months(today.year, today.month, 1), f[1])
        return d
    if k == 'bimonthly':
        d, n = start, 0
        while d <= today:
            n += 2
            d = clamp(*add_months(start.year, start.month, n), start.day)
        return d
    if k == 'annually':
        d, y = start, start.year
        while d <= today:
            y += 1
            d = clamp(y, start.month, start.day)
        return d
    raise AssertionError(f)

def freq_last(f, start, today):
    """the due date before the next one; None when there is none"""
    k = f[0]
    n = freq_next(f, start, today)
    if k == 'never':
        return None
    if k == 'once':
        return f[1] if n is None else None
    if k == 'weekly':
        return n - D.timedelta(7)
    if k == 'biweekly':
        return n - D.timedelta(14)
    if k == 'monthly':
        return clamp(*add_months(n.year, n.month, -1), f[1])
    if k == 'bimonthly':
        return clamp(*add_months(n.year, n.month, -2), start.day)
    if k == 'annually':
        return clamp(n.year - 1, start.month, start.day)

# ---------------------------------------------------------------- entries
def classics(e):
    return [p for p in e.postings if isinstance(p, Classic)]

def native_value(p):
    if p.amount is None:
        return None
    if p.amount[1] is None:
        return p.amount[0]
    if p.cost and p.cost[1][1] is None:
        return p.cost[1][0] if p.cost[0] == '=' else p.amount[0] * p.cost[1][0]
    return None

def mixed(e):
    return len({p.amount[1] for p in classics(e) if p.amount is not None}) > 1

def check_entry(e, defined):
    cs = classics(e)
    for p in cs:
        if p.account not in defined:
            raise Rejected('undefined account')
    blanks = [p for p in cs if p.amount is None]
    if len(blanks) > 1:
        raise Rejected('two blanks')
    if blanks and len({p.amount[1] for p in cs if p.amount is not None and p.amount[1] is not None}) > 1:
        raise Rejected('blank with mixed currencies')
    if not blanks and not mixed(e):
        s = sum(p.amount[0] for p in cs)
        t = 1.0 + sum(abs(p.amount[0]) for p in cs)
        if t * 1e-10 < abs(s) < t * 1e-6:
            raise Ambiguous
        if abs(s) > t * 1e-8:
            raise Rejected('unbalanced')

def blank_amount(e):
    cs = classics(e)
    if all(p.amount is not None for p in cs):
        return None
    given = [p for p in cs if p.amount is not None]
    if not given:
        raise Rejected('nothing to infer a blank posting from')
    if mixed(e):
        t = 0.0
        for p in given:
            v = native_value(p)
            if v is None:
                raise Rejected('no native value')
            t -= v
        return (t, None)
    t = 0.0
    for p in given:
        t -= p.amount[0]
    return (t, given[0].amount[1])

def effective(e):
    """classic postings with their amounts, the blank one inferred"""
    b = blank_amount(e)
    return [(p.account, p.amount if p.amount is not None else b) for p in classics(e)]

# ---------------------------------------------------------------- envelopes and accounts
class EnvState:
    def __init__(self, env, account, today):
        self.e, self.account, self.today = env, account, today
        self.now = self.nxt = 0.0
        self.last_tx = None

    @property
    def sym(self):
        return self.e.amount[1]

    def due(self):
        n = freq_next(self.e.freq, self.e.start, self.today)
        if self.e.start is None:
            return n
        return self.e.start if n is None else max(n, self.e.start)

    def apply(self, mag, date):
        if mag < 0:
            self.now += mag
        elif mag > 0:
            last = freq_last(self.e.freq, self.e.start, self.today)
            if last is not None and date < last:
                self.now += mag
            else:
                self.nxt += mag
        if date <= self.today and (self.last_tx is None or date > self.last_tx):
            self.last_tx = date

    def process(self, entry):
        envs = [p for p in entry.postings if isinstance(p, Env)]
        if envs:
            for p in envs:
                if p.account == self.account and p.envelope == self.e.name:
                    if p.amount[1] != self.sym:
                        raise Rejected('currency of envelope posting')
                    self.apply(p.amount[0], entry.date)
            return
        own = any(p.account == self.account for p in classics(entry))
        auto = any(p.account != self.account and p.account in self.e.autos for p in classics(entry))
        if not (own and auto):
            return
        b = blank_amount(entry)
        so = sa = 0.0
        for p in classics(entry):
            a = p.amount if p.amount is not None else b
            mag = a[0]
            if a[1] != self.sym:
                if self.sym is not None:
                    raise Rejected('cannot convert to the envelope currency')
                mag = native_value(p)
                if mag is None:
                    raise Rejected('cannot convert to the native currency')
            if p.account == self.account:
                so += mag
            elif p.account in self.e.autos:
                sa += mag
        m = min(abs(so), abs(sa))
        if 0 < m < 1e-7:
            raise Ambiguous
        if m != 0:
            self.apply(-m if so < 0 else m, entry.date)

    def fill(self, avail):
        due = self.due()
        if due is None or self.last_tx == self.today or self.e.funding == 'manual':
            return 0.0
        remaining = self.e.amount[0] - self.nxt
        if self.e.funding == 'aggressive':
            want = self.e.amount[0]
        else:
            days = (due - self.today).days
            want = remaining / days if days else float('inf') if remaining > 0 else float('-inf') if remaining < 0 else float('nan')
        m = remaining if want != want else min(want, remaining)
        return max(min(m, avail), -(self.now + self.nxt), 0.0)

def pool_add(pool, amount, sign=1):
    pool[amount[1]] = pool.get(amount[1], 0.0) + sign * amount[0]

class AccState:
    def __init__(self, acc, today):
        self.name = acc.name
        self.real = {}
        seen = set()
        for e in acc.envelopes:
            if e.name in seen:
                raise Rejected('duplicate envelope')
            seen.add(e.name)
            if e.freq[0] in ('biweekly', 'bimonthly', 'annually') and e.start is None:
                raise Rejected('starting date needed')
        self.expenses = [EnvState(e, acc.name, today) for e in acc.envelopes if e.kind == 'expense']
        self.goals = [EnvState(e, acc.name, today) for e in acc.envelopes if e.kind == 'goal']

    def process(self, entry):
        for s in self.expenses + self.goals:
            s.process(entry)
        own = [p for p in classics(entry) if p.account == self.name]
        for p in own:
            pool_add(self.real, p.amount if p.amount is not None else blank_amount(entry))

    def available(self):
        a = dict(self.real)
        for s in self.expenses + self.goals:
            pool_add(a, (s.nxt, s.sym), -1)
            pool_add(a, (s.now, s.sym), -1)
        return a

class Ledger:
    def __init__(self, today):
        self.today = today
        self.accounts = {}
        self.entries = []
        self.date_format = '%Y/%m/%d'
        self.file_items = None

    def load(self, items):
        for it in items:
            if isinstance(it, Account):
                self.accounts[it.name] = AccState(it, self.today)
            elif isinstance(it, Directive):
                if it.kind == 'date_format':
                    self.date_format = it.value
                elif it.kind == 'include':
                    if it.value is None:
                        raise Rejected('missing file')
                    self.load(it.value[1])
            elif isinstance(it, Entry):
                check_entry(it, self.accounts)
                self.add(it)
            elif isinstance(it, Bad):
                raise Rejected('malformed')
        return self

    def add(self, e):
        for a in self.accounts.values():
            a.process(e)
        self.entries.append(e)

    def sorted_entries(self):
        return sorted(self.entries, key=lambda e: e.date)

    def totals(self):
        t = {}
        for e in self.entries:
            for acc, amt in effective(e):
                pool_add(t.setdefault(acc, {}), amt)
        return t

    def envelopes(self):
        """account -> (available without zeros, [(kind, name, now, next, target, due)])"""
        out = {}
        for n, a in self.accounts.items():
            if a.expenses or a.goals:
                av = {k: v for k, v in a.available().items() if v != 0}
                es = []
                for s in a.expenses + a.goals:
                    es.append((s.e.kind, s.e.name, (max(s.now, 0.0), s.sym), (s.nxt + min(s.now, 0.0), s.sym), s.e.amount, s.due()))
                out[n] = (av, es)
        return out

    def filling(self):
        ps = []
        for a in self.accounts.values():
            av = a.available()
            for s in reversed(a.expenses + a.goals):
                m = s.fill(av.get(s.sym, 0.0))
                av[s.sym] = av.get(s.sym, 0.0) - m
                if m != 0:
                    ps.append(Env(a.name, s.e.name, (m, s.sym)))
        return ps

    def fill(self):
        """the entry that is appended today, or None"""
        ps = self.filling()
        if not ps:
            return None
        e = Entry(self.today, '~', 'move to envelopes', None, ps)
        self.add(e)
        return e

    def register(self):
        out = []
        run = {}
        for e in self.sorted_entries():
            foc, pos, neg, unclear = {}, set(), set(), False
            for acc, amt in effective(e):
                if abs(amt[0]) < 1e-6:
                    unclear = True   # a rounding remainder
                if amt[0] > 0:
                    pos.add(acc)
                elif amt[0] < 0:
                    neg.add(acc)
                if acc.startswith('asset'):
                    pool_add(foc, amt)
            if all(v == 0 for v in foc.values()):
                continue
            for k, v in foc.items():
                pool_add(run, (v, k))
            nm = lambda s: '(none)' if not s else next(iter(s)) if len(s) == 1 else '(multiple)'
            out.append((e.date.strftime(self.date_format).strip(), e.status, e.desc, None if unclear else nm(neg), None if unclear else nm(pos),
                        {k: (v, run[k]) for k, v in foc.items()}))
        return out

@dataclass
class Bad:
    """text that is not a valid part of a journal"""
    text: str
