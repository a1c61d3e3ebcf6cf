#!/usr/bin/env python3
"""replay.py FILE: shows a failing input again, against the binary of /repo as it is now"""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'harness'))
import gen, sfox, suites
r = json.load(open(sys.argv[1]))
if r['kind'] != 'failing input':
    for o in r['failed_obligations']:
        print(o['fn'], o['name'], o['line'], o['st'], '\n   ', o['model'][:1500])
    sys.exit(1)
f = r['failing']
sfox.build()
nums, words = gen.magics(sfox.REPO)
for w, name, fn in suites.SUITES[r['property']]:
    if name == f['suite']:
        try:
            fn(r['property'], f['seed'], None, nums, words)
            print('does not fail any more')
        except suites.Fail as x:
            print(x.what, json.dumps(suites.jsonable({k: v for k, v in x.kw.items() if k != 'c'}), indent=1, ensure_ascii=False))
            sys.exit(1)
