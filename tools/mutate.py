#!/usr/bin/env python3-vt
"""Mutation testing of the machinery (development only; no check uses it).
Usage: mutate.py OUT.jsonl COUNT [SEED] [WORKERS]
Makes small changes to copies of /repo, and says which contracts refute them and, where none does, which cross-checks see them."""
import glob, json, multiprocessing as mp, os, random, re, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(VERIF, 'mirv'), os.path.join(VERIF, 'harness'), VERIF]
sys.dont_write_bytecode = True
ROOT = '/tmp/mutants'

SWAPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' > ', ' < '), (r' < ', ' > '), (r' == ', ' != '), (r' != ', ' == '),
         (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ ', ' - '), (r' - ', ' + '), (r'\+= ', '-= '), (r'-= ', '+= '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
         (r'\.min\(', '.max('), (r'\.max\(', '.min('), (r'is_some\(', 'is_none('), (r'is_none\(', 'is_some('), (r'is_envelope\(', 'is_classic('), (r'is_classic\(', 'is_envelope('),
         (r'!self\.', 'self.'), (r'!([a-z]+)\.', r'\1.'), (r'\.rev\(\)', ''), (r'\bfind\(', 'rfind('), (r'rfind\(', 'find('), (r'\.trim\(\)', ''), (r'\.trim_start\(\)', ''), (r'\.abs\(\)', ''),
         (r'now_amount', 'next_amount'), (r'next_amount', 'now_amount'), (r'expense_envelopes', 'goal_envelopes'), (r'goal_envelopes', 'expense_envelopes'), (r'\bany\(', 'all('), (r'\ball\(', 'any('),
         (r'\bcontinue\b', 'break'), (r'starts_with', 'contains'), (r'\bcontains\(', 'starts_with('), (r'return Err\((.*)\);', ''), (r'-([a-z_]+\b)', r'\1'), (r'\.is_empty\(\)', '.is_empty() == false'),
         (r'\b0\.0\b', '0.01'), (r'\b0\b', '1'), (r'\b1\b', '2'), (r'\b1\b', '0'), (r'\b2\b', '1'), (r'\b12\b', '11'), (r'\b7\b', '6'), (r'\b14\b', '13'), (r'starting_date > &today', 'starting_date >= &today'),
         (r'\bdescription\b', 'comment'), (r'\.0\b', '.1'), (r'\.1\b', '.0'), (r'\.iter\(\)', '.iter().skip(1)'), (r'symbol: symbol\.clone\(\)', 'symbol: None'), (r'symbol\.clone\(\)', 'symbol.clone().filter(|_| false)'),
         (r'if (?!let)([^{]+) \{', r'if !(\1) {'), (r'\.cmp\(', '.cmp(&Default::default()).then('), (r'(\w+)\.cmp\((\w+)\)', r'\2.cmp(\1)'), (r'a\.get_date\(\)\.cmp\(b\.get_date\(\)\)', 'b.get_date().cmp(a.get_date())'), (r'\?;', ';')]

def sites():
    out = []
    for f in sorted(glob.glob('/repo/src/**/*.rs', recursive=True)):
        rel = f[len('/repo/'):]
        if rel.endswith(('errors.rs', 'main.rs')):
            continue
        L = open(f).read().split('\n')
        for i, l in enumerate(L):
            if '#[cfg(test)]' in l:
                break
            t = l.strip()
            if not t or t.startswith(('//', 'use ', '#', 'message:', 'context:', 'println', 'fn ', 'pub fn', 'struct', 'enum', 'mod ')) or 'format!' in t or 'println' in t:
                continue
            code = re.sub(r'//.*', '', l)
            for (a, b) in SWAPS:
                for m in re.finditer(a, code):
                    new = l[:m.start()] + m.expand(b) + l[m.end():]
                    if new != l:
                        out.append((rel, i, l, new))
            if re.match(r'\s*(self\.[\w.]+ = .*|[\w.*]+ [+-]= .*|[\w.]+\.(push|insert|retain|reverse|sort\w*|append|remove)\(.*\));?$', l):
                out.append((rel, i, l, re.match(r'\s*', l).group(0) + '{}'))
    return out

def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)

def setup(w):
    import sfox, check
    d = '%s/w%d' % (ROOT, w)
    os.makedirs(d, exist_ok=True)
    sh('rsync -a --delete --exclude target --exclude .git /repo/ %s/repo/' % d)
    sh('mkdir -p %s/build && rsync -a %s/build/driver-target %s/build/mir-target %s/build/bin-target %s/build/shim.so %s/build/' % (d, check.BUILD, check.BUILD, check.BUILD, check.BUILD, d))
    os.environ['SFOX_REPO'] = d + '/repo'
    os.environ['SFOX_TMP'] = d
    check.BUILD = sfox.BUILD = d + '/build'
    sfox.REPO = d + '/repo'
    sfox.BIN, sfox.SHIM = d + '/build/bin/silverfox', d + '/build/shim.so'
    return d

def worker(w, todo, q):
    d = setup(w)
    import check, sfox, harness, suites, prove, contracts, engine, lemmas
    from core import Prog
    base = json.load(open(ROOT + '/base_prove.json'))
    src = {}
    for (rel, i, old, new) in todo:
        p = d + '/repo/' + rel
        s = src.setdefault(rel, open('/repo/' + rel).read())
        L = s.split('\n')
        assert L[i] == old
        L[i] = new
        open(p, 'w').write('\n'.join(L))
        r = dict(file=rel, line=i + 1, old=old.strip(), new=new.strip(), res='', by=[], und=[])
        t = time.time()
        try:
            mir = d + '/mir.json'
            err = check.dump(mir)
            if err:
                r['res'] = 'does not compile'
            else:
                pid = os.fork()
                if pid == 0:
                    try:
                        proof(d, mir, rel, i + 1, base)
                    finally:
                        os._exit(0)
                os.waitpid(pid, 0)
                o = json.load(open(d + '/proof.json')) if os.path.exists(d + '/proof.json') else dict(by=[], und=['crashed'])
                r.update(o)
                if r['by']:
                    r['res'] = 'proof'
                else:
                    e = sfox.build()
                    nums, words = [], []
                    found = []
                    for prop in suites.SUITES:
                        qq = mp.Queue()
                        harness.worker(prop, 1, 0, 1, 5, nums, words, qq)
                        c, k, f, sm = qq.get()
                        if f and 'internal' not in f:
                            found.append((prop, f['what'][:100]))
                            if len(found) > 1:
                                break
                    r['res'] = 'cross-check' if found else 'SURVIVED'
                    r['found'] = found
        except Exception as x:
            r['res'] = 'tool: ' + repr(x)[:200]
        r['t'] = round(time.time() - t, 1)
        open(p, 'w').write(s)
        if os.path.exists(d + '/proof.json'):
            os.remove(d + '/proof.json')
        q.put(r)
    q.put(None)

def proof(d, mir, rel, line, base):
    import prove, contracts
    from core import Prog
    P = Prog(mir)
    prove.P = P
    prove.SP = contracts.Spec(P)
    prove.LIMIT = 100
    # the functions whose text holds the line
    hit = set()
    for k, f in P.F.items():
        if not f.get('local') or not f.get('body'):
            continue
        ls = [int(m) for b in f['body']['blocks'] for m in re.findall(re.escape(rel) + r':(\d+)', json.dumps(b))]
        if ls and min(ls) - 3 <= line <= max(ls) + 3:
            hit.add(f['name'])
    hit = {re.sub(r'::\{closure.*', '', h) for h in hit}
    by, und = [], []
    n = 0
    for b in base['fns']:
        names = {re.sub(r'::\{closure.*', '', x) for x in [b['fn']] + b['inlined']}
        if names & hit:
            n += 1
            r = prove.one(b['fn'])
            by += sorted({(b['fn'].replace('silverfox::', ''), o['name']) for o in r['obls'] if o['st'] == 'refuted'})
            if r['status'] != 'ok':
                und.append('%s: %s' % (b['fn'].replace('silverfox::', ''), r['why'][:100]))
            if len(by) > 2:
                break
    json.dump(dict(by=by[:4], und=und[:3], tried=n), open(d + '/proof.json', 'w'))

def main():
    out, count = sys.argv[1], int(sys.argv[2])
    rnd = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    nw = int(sys.argv[4]) if len(sys.argv) > 4 else 6
    os.makedirs(ROOT, exist_ok=True)
    import check
    check.dump(ROOT + '/base.json')
    sh('python3-vt -O %s/mirv/prove.py %s/base.json %s/base_prove.json' % (VERIF, ROOT, ROOT))
    S = sites()
    done = set()
    if os.path.exists(out):
        done = {(x['file'], x['line'], x['new']) for x in map(json.loads, open(out))}
    S = [s for s in S if (s[0], s[1] + 1, s[3].strip()) not in done]
    rnd.shuffle(S)
    S = S[:count]
    q = mp.Queue()
    ws = [mp.Process(target=worker, args=(w, S[w::nw], q)) for w in range(nw)]
    for w in ws:
        w.start()
    left = nw
    with open(out, 'a') as f:
        while left:
            r = q.get()
            if r is None:
                left -= 1
                continue
            f.write(json.dumps(r) + '\n')
            f.flush()
    shutil.rmtree(ROOT, ignore_errors=True)

if __name__ == '__main__':
    main()
