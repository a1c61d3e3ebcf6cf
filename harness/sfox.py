"""Builds and runs the real silverfox binary in scratch directories, with a chosen date."""
import datetime as D, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, 'build')
REPO = os.environ.get('SFOX_REPO', '/repo')
BIN = os.path.join(BUILD, 'bin', 'silverfox')
SHIM = os.path.join(BUILD, 'shim.so')

def cargo_env(target):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith('CARGO_') and k not in ('CARGO_HOME',) or k.startswith('RUSTC') or k == 'RUSTFLAGS':
            del env[k]
    env.update(CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', HOME='/root',
               PATH='/root/.cargo/bin:' + env.get('PATH', '/usr/bin:/bin'))
    return env

def build():
    os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)
    t = os.path.join(BUILD, 'bin-target')
    # cargo looks at modification times: drop the package's own fingerprint so that it is always compiled again
    import glob
    for f in glob.glob(os.path.join(t, 'debug', '.fingerprint', 'silverfox-*')) + glob.glob(os.path.join(t, 'debug', 'build', 'silverfox')):
        shutil.rmtree(f, ignore_errors=True)
    env = cargo_env(t)
    env['RUSTUP_TOOLCHAIN'] = 'stable-x86_64-unknown-linux-gnu'
    env['CARGO_PROFILE_DEV_DEBUG'] = '0'
    env['CARGO_INCREMENTAL'] = '0'
    r = subprocess.run(['cargo', 'build', '--offline', '--bin', 'silverfox'], cwd=REPO, env=env, capture_output=True, text=True)
    if r.returncode:
        return r.stderr[-3000:]
    shutil.copy(os.path.join(t, 'debug', 'silverfox'), BIN + '.new')
    os.rename(BIN + '.new', BIN)
    subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', SHIM + '.new', os.path.join(VERIF, 'harness', 'shim.c')], check=True)
    os.rename(SHIM + '.new', SHIM)
    return None

class Res:
    __slots__ = ('rc', 'out', 'err', 'timeout')

def run(args, cwd, today, terminal=False, timeout=20, env_extra=None):
    secs = int(D.datetime(today.year, today.month, today.day, 12, tzinfo=D.timezone.utc).timestamp())
    env = {'PATH': '/usr/bin:/bin', 'TZ': 'UTC', 'SFOX_NOW': str(secs), 'LD_PRELOAD': SHIM, 'HOME': cwd, 'RUST_BACKTRACE': '0', 'LANG': 'C.UTF-8'}
    if terminal:
        env['SFOX_TTY'] = '1'
    if env_extra:
        env.update(env_extra)
    r = Res()
    r.timeout = False
    try:
        p = subprocess.run([BIN] + args, cwd=cwd, env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        r.rc, r.out, r.err = p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        r.rc, r.out, r.err, r.timeout = -99, '', 'timeout', True
    return r

# ------------------------------------------------------------ reading the output
NUM = r'-?(?:\d+(?:\.\d+)?|inf|NaN)'
def parse_amount(s):
    """text printed for an amount -> (mag, symbol)"""
    s = s.strip()
    m = re.search(NUM, s)
    if not m:
        raise ValueError('no number in ' + repr(s))
    sym = (s[:m.start()] + s[m.end():]).strip()
    return float(m.group().replace('NaN', 'nan')), sym or None

def parse_balance(out):
    t, cur = {}, None
    for line in out.split('\n'):
        if not line.strip():
            continue
        if line.startswith('\t'):
            m, s = parse_amount(line)
            if s in t[cur]:
                raise ValueError('currency listed twice for ' + cur)
            t[cur][s] = m
        else:
            parts = line.split(None, 1)
            cur = parts[0]
            if cur in t:
                raise ValueError('account listed twice: ' + cur)
            t[cur] = {}
            if len(parts) > 1 and parts[1].strip():
                m, s = parse_amount(parts[1])
                t[cur][s] = m
    return t

def parse_envelopes(out):
    """account -> (available, [(kind, name, now, next, target, due date text|None)])"""
    res, acc, mode, env, kind = {}, None, None, None, None
    for line in out.split('\n'):
        if not line.strip():
            continue
        ind = len(line) - len(line.lstrip(' '))
        t = line.strip()
        if ind == 0:
            acc = t
            if acc in res:
                raise ValueError('account listed twice: ' + acc)
            res[acc] = ({}, [])
            mode = None
        elif ind == 2:
            mode = t
            if t not in ('available', 'expenses', 'goals'):
                raise ValueError('unexpected line ' + repr(line))
        elif mode == 'available':
            m, s = parse_amount(line)
            if s in res[acc][0]:
                raise ValueError('currency listed twice')
            res[acc][0][s] = m
        elif ind == 4:
            env = [('expense' if mode == 'expenses' else 'goal'), t, None, None, None, None]
            res[acc][1].append(env)
        else:
            body = line[:line.index('|')]
            m = re.match(r'\s*(now|next \(on ([^)]*)\)|next)\s(.*)$', body)
            a, b = m.group(3).split(' / ')
            if m.group(1) == 'now':
                env[2] = parse_amount(a)
                env[4] = parse_amount(b)
            else:
                env[3] = parse_amount(a)
                env[5] = m.group(2)
                if parse_amount(b) != env[4]:
                    raise ValueError('two targets')
    return {k: (v[0], [tuple(e) for e in v[1]]) for k, v in res.items()}

def close(a, b):
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    # numbers are written with eight decimals; sums may be rounded in another order
    return abs(a - b) <= 2e-8 + 1e-11 * max(abs(a), abs(b))

def close_pool(a, b, drop_zero=False):
    if drop_zero:
        z = lambda p: {k: v for k, v in p.items() if abs(v) > 2e-8}
        a, b = z(a), z(b)
    return a.keys() == b.keys() and all(close(a[k], b[k]) for k in a)

def parse_written(text):
    """entries that were appended by the program, as text -> list of dicts"""
    es = []
    for line in text.split('\n'):
        if not line.strip():
            continue
        if line[0] not in ' \t':
            head, _, comment = line.partition(' // ')
            m = re.match(r'(\S+) (\S) (.*)$', head)
            if not m:
                raise ValueError('header ' + repr(line))
            desc, payee = m.group(3), None
            k = re.match(r'(.*) \[(.*)\]$', desc)
            if k:
                desc, payee = k.group(1), k.group(2)
            es.append(dict(date=m.group(1), status=m.group(2), desc=desc.strip(), payee=payee, comment=comment or None, postings=[]))
        else:
            t = line.split()
            if t[0] == 'envelope':
                es[-1]['postings'].append(('env', t[1], t[2]) + parse_amount(' '.join(t[3:])))
            else:
                rest = ' '.join(t[1:])
                m = re.match(r'(.*?)(?:\s*([@=]) (.*?))?(?:\s*! (.*))?$', rest)
                amt = parse_amount(m.group(1)) if m.group(1).strip() else None
                cost = (m.group(2),) + parse_amount(m.group(3)) if m.group(2) else None
                es[-1]['postings'].append(('classic', t[0], amt, cost))
    return es
