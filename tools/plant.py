#!/usr/bin/env python3
"""tools/plant.py ID...: confirms planted changes in a scratch copy of /repo: the
patch applies to HEAD, builds, passes the tests, and demo.sh tells it apart.
tools/plant.py --run ID [quick|thorough]: additionally runs the property's check
on the changed copy."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLAGS = ['-DBUILD_TESTING=ON', '-DCMAKE_CXX_FLAGS=-isystem /opt/vp/compat -include cstdint',
         '-DCMAKE_CXX_STANDARD_LIBRARIES=-lCatch2Main -lCatch2']


def sh(cmd, cwd, t=600, env=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, shell=isinstance(cmd, str), env=e)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as x:
        return 'timeout', (x.stdout or b'').decode('utf-8', 'replace')


def main():
    args = sys.argv[1:]
    run = '--run' in args
    only = '--only' in args          # only the check, no confirmation
    args = [a for a in args if not a.startswith('--')]
    tier = 'quick'
    if args and args[-1] in ('quick', 'thorough'):
        tier = args.pop()
    bad = []
    for pid in args:
        d = os.path.join(V, 'seeded', pid)
        w = '/tmp/plant-%s-%d' % (pid, os.getpid())
        shutil.rmtree(w, ignore_errors=True)
        try:
            subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
            msg = []
            rc, o = 0, ''
            if not only:
                rc, o = sh(['bash', os.path.join(d, 'demo.sh')], w, 300)
                msg.append('demo clean %s' % rc)
            if rc != 0:
                print(o[-2000:])
            ap, out = sh(['git', 'apply', os.path.join(d, 'patch.diff')], w)
            msg.append('apply %s' % ap)
            ok = rc == 0 and ap == 0
            if ok and not only:
                b = w + '/_build'
                r1, o1 = sh(['cmake', '-S', w, '-B', b, '-G', 'Ninja'] + FLAGS, w, env={'CC': '/usr/bin/gcc', 'CXX': '/usr/bin/g++'})
                r2, o2 = sh(['ninja', '-C', b], w)
                r3, o3 = sh(['ctest', '--test-dir', b, '-j4', '--timeout', '60'], w)
                r4, o4 = sh(['bash', os.path.join(d, 'demo.sh')], w, 300)
                msg.append('build %s tests %s demo patched %s' % (r2, r3, r4))
                if r2 or r3:
                    print((o1 + o2 + o3)[-2500:])
                ok = r2 == 0 and r3 == 0 and r4 not in (0, 'timeout')
            if ok and run:
                prop = json.load(open(os.path.join(d, 'meta.json')))['property']
                r5, o5 = sh(['python3', V + '/run/check.py', prop, tier], V, 3600, {'VERIF_REPO': w, 'VERIF_SEED': os.environ.get('VERIF_SEED', '1')})
                caught = r5 == 1 and ('VIOLATION property=%s ' % prop) in o5
                msg.append('%s %s: %s' % (prop, tier, 'CAUGHT' if caught else 'NOT CAUGHT rc=%s' % r5))
                if not caught:
                    print(o5[-1500:])
                ok = ok and caught
            print(('ok   ' if ok else 'FAIL ') + pid + ': ' + ', '.join(msg), flush=True)
            if not ok:
                bad.append(pid)
        finally:
            shutil.rmtree(w, ignore_errors=True)
    sys.exit(1 if bad else 0)


main()
