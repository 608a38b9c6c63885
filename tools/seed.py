#!/usr/bin/env python3
"""seed.py [--check] [--no-tests] ID...   confirms planted bugs in a scratch copy of /repo:
   applies, builds, passes the stable tests, demo passes without and fails with it; --check runs the check of its property"""
import sys, os, json, subprocess, shutil, argparse, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    return p.returncode, p.stdout.decode(errors='replace')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--check', action='store_true')
    ap.add_argument('--all-checks', action='store_true')
    ap.add_argument('--no-tests', action='store_true')
    ap.add_argument('--ws', default='/tmp/seedws')
    ap.add_argument('ids', nargs='*')
    a = ap.parse_args()
    ws = a.ws
    if not os.path.exists(ws):
        subprocess.check_call(['cp', '-a', '/repo', ws])
    else:
        sh('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -qfd', ws)
    env = dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1',
               CARGO_PROFILE_DEV_DEBUG='line-tables-only', IDLC='../target/debug/idlc', CC='clang', CXX='clang++',
               CXXFLAGS='-Wall -Wextra -Wno-unused-parameter -Wno-missing-field-initializers -include cstdint -include atomic')
    ids = a.ids or sorted(os.listdir(V + '/seeded'))
    stable = set(json.load(open('/opt/vp/BASELINE.json')).get('passing', [])) if False else None
    for i in ids:
        d = V + '/seeded/' + i
        meta = json.load(open(d + '/meta.json'))
        demo = '/tmp/seeddemo-%s' % i
        shutil.rmtree(demo, ignore_errors=True)
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
        res = []
        sh('git checkout -q -f . && git clean -qfd', ws)
        r, o = sh('cargo build --workspace --offline', ws, env)
        r0, o0 = sh(['bash', demo + '/demo.sh'], ws, timeout=300)
        res.append('demo-clean=%s' % ('ok' if r0 == 0 else 'BAD %d' % r0))
        r, o = sh(['git', 'apply', d + '/patch.diff'], ws)
        if r:
            print(i, 'DOES NOT APPLY', o)
            continue
        r, o = sh('cargo build --workspace --offline', ws, env)
        if r:
            print(i, 'DOES NOT BUILD', o[-1500:])
            sh('git checkout -q -f .', ws)
            continue
        r1, o1 = sh(['bash', demo + '/demo.sh'], ws, timeout=300)
        res.append('demo-bug=%s' % ('fails(ok)' if r1 else 'BAD passes'))
        if not a.no_tests:
            r, o = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8', ws, env)
            r2, o2 = sh('cargo test --no-fail-fast --offline -- --test-threads 8', ws + '/tests', env)
            res.append('tests=%s' % ('ok' if r == 0 and r2 == 0 else 'FAIL'))
            if r or r2:
                print((o + o2)[-1500:])
        if r0:
            print(o0[-1500:])
        if a.check:
            env2 = dict(os.environ, VERIF_REPO=ws, VERIF_TARGET='/tmp/seedtarget', VERIF_TIER='quick', VERIF_SEED='1', VERIF_EVIDENCE='/tmp/seedevidence')
            for p in ([meta['property']] if not a.all_checks else [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]):
                t = time.time()
                r, o = sh(['python3-vt', V + '/check.py', p], V, env2)
                vl = [l for l in o.splitlines() if l.startswith('VIOLATION')]
                res.append('%s=%d%s(%.0fs)' % (p, r, ' CAUGHT' if r == 1 and vl and not all('no-failing' in l for l in vl) else ' caught-nfi' if r == 1 and vl else ' missed', time.time() - t))
                open('/tmp/seedout-%s-%s.txt' % (i, p), 'w').write(o)
        sh('git checkout -q -f .', ws)
        print(i, meta['property'], ' '.join(res), flush=True)
        shutil.rmtree(demo, ignore_errors=True)


main()
