#!/usr/bin/env python3
"""check.py <property> <quick|thorough>

1. compiles /repo twice: the binary as it is, and its MIR (the driver in driver/ prints what rustc hands over);
2. generates and discharges the obligations of every contract in mirv/contracts.py from that MIR;
3. runs the bounded cross-checks of harness/ for the property against the binary;
4. decides, and writes evidence/<property>.json.

exit 0: held on everything explored; exit 1: VIOLATION line; exit 2: /repo cannot be built."""
import glob, json, os, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(VERIF, 'build')
sys.path.insert(0, os.path.join(VERIF, 'harness'))
sys.dont_write_bytecode = True
import sfox
import props as PR

def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)

def build_driver():
    t = os.path.join(BUILD, 'driver-target')
    env = sfox.cargo_env(t)
    env['RUSTUP_TOOLCHAIN'] = 'nightly-x86_64-unknown-linux-gnu'
    r = sh(['cargo', 'build', '--offline', '--release'], cwd=os.path.join(VERIF, 'driver'), env=env)
    if r.returncode:
        return None, r.stderr[-2000:]
    return os.path.join(t, 'release', 'mirdump'), None

def dump(out):
    drv, err = build_driver()
    if err:
        return 'driver: ' + err
    t = os.path.join(BUILD, 'mir-target')
    # cargo has to call the driver again, whatever it did before (both layouts of a target directory)
    for pat in ('.fingerprint/silverfox-*', 'build/silverfox', 'incremental/silverfox-*'):
        for f in glob.glob(os.path.join(t, '*', pat)):
            shutil.rmtree(f, ignore_errors=True)
    env = sfox.cargo_env(t)
    env['RUSTUP_TOOLCHAIN'] = 'nightly-x86_64-unknown-linux-gnu'
    root = sh(['rustc', '--print', 'sysroot'], env=env).stdout.strip()
    if os.path.exists(out):
        os.remove(out)
    env.update(LD_LIBRARY_PATH=root + '/lib', MIRDUMP_OUT=out, RUSTC_WORKSPACE_WRAPPER=drv,
               RUSTFLAGS='-Zmir-opt-level=0 -Cdebug-assertions=off -Coverflow-checks=on')
    r = sh(['cargo', 'check', '--offline', '--bin', 'silverfox'], cwd=sfox.REPO, env=env)
    if r.returncode == 0 and not os.path.exists(out):
        shutil.rmtree(t, ignore_errors=True)
        r = sh(['cargo', 'check', '--offline', '--bin', 'silverfox'], cwd=sfox.REPO, env=env)
    if r.returncode or not os.path.exists(out):
        return 'mir: ' + (r.stderr or r.stdout)[-2000:]
    return None

def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(os.path.join(BUILD, 'replay'), exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    mir, pout = os.path.join(BUILD, 'mir.json'), os.path.join(BUILD, 'prove.json')
    errs = {}
    th = threading.Thread(target=lambda: errs.__setitem__('mir', dump(mir)))
    th.start()
    errs['bin'] = sfox.build()
    th.join()
    if errs['bin']:
        print('cannot build /repo:\n' + errs['bin'])
        return 2
    notes = []
    # ---------------------------------------------------------------- proofs
    pr = dict(fns=[], spec_errors=[], lemmas=[])
    limit = 240 if tier == 'quick' else 1200
    if errs['mir']:
        notes.append('no MIR: ' + errs['mir'][-300:])
    else:
        if os.path.exists(pout):
            os.remove(pout)
        vt = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python3'
        try:
            r = sh([vt, '-O', '-B', os.path.join(VERIF, 'mirv', 'prove.py'), mir, pout, str(limit)] + ([prop] if tier == 'quick' else []), timeout=420 if tier == 'quick' else 3000)
            if os.path.exists(pout):
                pr = json.load(open(pout))
            else:
                notes.append('the verifier stopped: ' + r.stderr[-400:])
        except subprocess.TimeoutExpired:
            notes.append('the verifier ran out of time')
    D = PR.decide(pr, prop)
    # ---------------------------------------------------------------- bounded cross-checks and search for a failing input
    import harness
    spent = time.time() - t0
    secs = PR.SECS.get(prop, 20) if tier == 'quick' else 600
    H = harness.run(prop, secs, seed)
    if not H['fails'] and D['failed'] and tier == 'quick':
        # an obligation failed: look longer for an input that shows it
        more = max(0, min(150, 760 - (time.time() - t0)))
        H2 = harness.run(prop, more, seed + 1000)
        H = harness.add(H, H2)
    if H['internal']:
        notes.append('cross-check stopped itself: ' + H['internal'][0]['internal'][-500:])
    # ---------------------------------------------------------------- decide
    rc, line = 0, None
    known = PR.known(VERIF, prop)
    fails = [f for f in H['fails'] if not PR.is_known(known, f)]
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if fails:
        rp = os.path.join(BUILD, 'replay', prop + '.json')
        json.dump(dict(property=prop, kind='failing input', how='python3 /verif/replay.py ' + rp, failing=fails[0], failed_obligations=D['failed'][:20]), open(rp, 'w'), indent=1, ensure_ascii=False)
        line = 'VIOLATION property=%s replay=%s' % (prop, rp)
        rc = 1
        print('failing input: %s: %s' % (fails[0]['suite'], fails[0]['what']))
    elif D['failed']:
        rp = os.path.join(BUILD, 'replay', prop + '.json')
        json.dump(dict(property=prop, kind='failed obligation', failed_obligations=D['failed']), open(rp, 'w'), indent=1)
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp)
        rc = 1
    for o in D['failed'][:8]:
        print('obligation failed: %s: %s (%s) %s' % (o['fn'].replace('silverfox::', ''), o['name'], o['kind'], o['line']))
    ev = PR.evidence(prop, tier, seed, D, H, notes, pr, time.time() - t0, rc)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    print('%s %s: %d of %d obligations discharged in %d functions; %d runs compared; %d undecided; %.0f s' % (
        prop, tier, D['discharged'], D['obligations'], len(D['functions']), H['cases'], len(D['undecided']), time.time() - t0))
    for u in D['undecided'][:6]:
        print('undecided: %s' % u)
    for n in notes:
        print('note: ' + n[:400])
    if line:
        print(line)
    return rc

if __name__ == '__main__':
    sys.exit(main())
