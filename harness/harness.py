"""Runs a property's suites for a while on all cores.  Usage: harness.py <property> <seconds> [seed]"""
import json, multiprocessing as mp, os, random, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen, sfox, suites

def worker(prop, seed, w, n, secs, nums, words, q):
    os.environ['SFOX_TMP'] = os.environ.get('SFOX_TMP', '/tmp')
    t0 = time.time()
    st = suites.SUITES[prop]
    pick = [s for s in st for _ in range(s[0])]
    cnt, kinds, i = 0, {}, 0
    fail = None
    samples = []
    while time.time() - t0 < secs:
        s = pick[i % len(pick)]
        sd = '%s/%d/%d/%d' % (prop, seed, w, i)
        i += 1
        try:
            r = s[2](prop, sd, None, nums, words)
        except suites.Fail as f:
            c = f.kw.pop('c', None)
            fail = dict(suite=s[1], seed=sd, what=f.what, detail=suites.jsonable(f.kw), today=str(c.today) if c else None,
                        files=suites.jsonable(c.files) if c else None, after=c.last if c else None, runs=suites.jsonable(c.log) if c else None)
            break
        except Exception:
            fail = dict(internal=traceback.format_exc(), seed=sd, suite=s[1])
            break
        if r is not None:
            cnt += 1
            if len(samples) < 1 and r == 'ok' and suites.Case.latest is not None:
                samples.append(dict(suite=s[1], seed=sd, files=suites.jsonable(suites.Case.latest.files), runs=[x[0] for x in suites.Case.latest.log]))
            kinds[s[1] + ': ' + r] = kinds.get(s[1] + ': ' + r, 0) + 1
    q.put((cnt, kinds, fail, samples))

def run(prop, secs, seed=1, procs=8):
    nums, words = gen.magics(sfox.REPO)
    q = mp.Queue()
    ps = [mp.Process(target=worker, args=(prop, seed, w, procs, secs, nums, words, q)) for w in range(procs)]
    for p in ps:
        p.start()
    cnt, kinds, fails, internal, samples = 0, {}, [], [], []
    for _ in ps:
        c, k, f, sm = q.get()
        samples += sm
        cnt += c
        for x, n in k.items():
            kinds[x] = kinds.get(x, 0) + n
        if f:
            (internal if 'internal' in f else fails).append(f)
    for p in ps:
        p.join()
    return dict(cases=cnt, kinds=kinds, fails=sorted(fails, key=lambda f: len(json.dumps(f))), internal=internal, samples=samples[:2])

def add(a, b):
    k = dict(a['kinds'])
    for x, n in b['kinds'].items():
        k[x] = k.get(x, 0) + n
    return dict(cases=a['cases'] + b['cases'], kinds=k, fails=a['fails'] + b['fails'], internal=a['internal'] + b['internal'], samples=a['samples'] or b['samples'])

if __name__ == '__main__':
    if not os.environ.get('NOBUILD'):
        e = sfox.build()
        if e:
            print(e)
    for p in (sys.argv[1].split(',') if sys.argv[1] != 'all' else suites.SUITES):
        t = time.time()
        r = run(p, float(sys.argv[2]), int(sys.argv[3]) if len(sys.argv) > 3 else 1)
        print(p, r['cases'], 'cases %.1fs' % (time.time() - t), r['kinds'], len(r['fails']), 'fails', len(r['internal']), 'internal', flush=True)
        for f in r['internal'][:1]:
            print(f['internal'])
        for f in r['fails'][:1]:
            print(json.dumps(f, indent=1, ensure_ascii=False)[:3500].replace('\\n', '\n'))
