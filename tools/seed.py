"""Make and confirm planted bugs: seed.py SPEC.py [ID ...]   (SPEC.py: a list BUGS of dicts)
Each bug is applied in a scratch copy of /repo, bind-mounted over /repo in a private namespace, where the demo, the
repository's stable tests and the property's check are run. Confirmed bugs are written to /verif/seeded/<id>/."""
import concurrent.futures as cf
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 2
PYTHONPATH="$repo" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=agg timeout 120 /opt/venv/bin/python "$here/demo.py"
'''


def ns(copy, cmd, cwd='/repo', timeout=900):
    """run cmd with copy in the place of /repo"""
    p = subprocess.run(['unshare', '-Urm', 'bash', '-c', f'mount --bind {copy} /repo && cd {cwd} && {cmd}'], capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def one(b, tests=True, check=True):
    d = tempfile.mkdtemp(prefix='seed_')
    out = [b['id']]
    try:
        copy = d + '/repo'
        subprocess.run(['cp', '-a', '/repo', copy], check=True)
        dst = os.path.join(d, 'seeded', b['id'])
        os.makedirs(dst)
        if 'demo' in b:
            with open(dst + '/demo.sh', 'w') as f:
                f.write(DEMO)
            with open(dst + '/demo.py', 'w') as f:
                f.write(b['demo'])
            rc0, o0 = ns(copy, f'bash {dst}/demo.sh')
            if rc0:
                return out + [f'DEMO FAILS ON CLEAN TREE: {o0[-600:]}']
            for file, old, new in b['edits']:
                p = os.path.join(copy, 'dessia_common', file)
                s = open(p).read()
                if s.count(old) != 1:
                    return out + [f'{file}: {s.count(old)} occurrences of {old!r}']
                open(p, 'w').write(s.replace(old, new))
            diff = subprocess.run(['git', '-C', copy, 'diff'], capture_output=True, text=True).stdout
            with open(dst + '/patch.diff', 'w') as f:
                f.write(diff)
            with open(dst + '/meta.json', 'w') as f:
                json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), f, indent=1)
        else:
            src = os.path.join(VERIF, 'seeded', b['id'])
            shutil.rmtree(dst)
            shutil.copytree(src, dst)
            r = subprocess.run(['git', '-C', copy, 'apply', dst + '/patch.diff'], capture_output=True, text=True)
            if r.returncode:
                return out + ['PATCH DOES NOT APPLY ' + r.stderr]
        # only lines of the original repository may be changed
        base = subprocess.run(['git', '-C', copy, 'diff', '-U0', 'HEAD'], capture_output=True, text=True).stdout
        for line in base.splitlines():
            pass
        rc1, o1 = ns(copy, f'bash {dst}/demo.sh')
        if rc1 == 0:
            return out + ['DEMO PASSES WITH THE BUG']
        out.append('demo: ' + o1.strip().splitlines()[-1][:100] if o1.strip() else 'demo fails')
        if tests:
            ns(copy, f'bash /opt/vp/test.sh {d}/t.json > {d}/t.log 2>&1')
            passed = set(json.load(open(d + '/t.json'))['passed'])
            miss = sorted(STABLE - passed)
            if miss:
                return out + [f'TESTS FAIL: {miss[:5]}']
        keep = os.path.join(VERIF, 'seeded', b['id'])
        if 'demo' in b:
            shutil.rmtree(keep, ignore_errors=True)
            shutil.copytree(dst, keep)
        if check:
            vc = d + '/verif'
            shutil.copytree(VERIF, vc, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', '__pycache__'))
            rc, o = ns(copy, f'{b.get("env", "")} python3 check.py {b["property"]} quick', cwd=vc)
            v = [x for x in o.splitlines() if x.startswith('VIOLATION')]
            vi = [i for i, x in enumerate(o.splitlines()) if x.startswith('VIOLATION')]
            why = o.splitlines()[vi[0] - 1][:160] if vi else o[-300:].replace('\n', ' | ')
            out.append(('CAUGHT' if rc == 1 and v else f'MISSED rc={rc}') + (' (no input)' if v and all('no-failing' in x for x in v) else '') + ': ' + why)
        return out
    except Exception as e:
        return out + [repr(e)]
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    tests, check = '--no-tests' not in sys.argv, '--no-check' not in sys.argv
    if args and args[0].endswith('.py'):
        bugs = [b for b in runpy.run_path(args[0])['BUGS'] if len(args) == 1 or b['id'] in args[1:]]
    else:
        ids = args or sorted(os.listdir(os.path.join(VERIF, 'seeded')))
        bugs = [dict(id=i, property=json.load(open(os.path.join(VERIF, 'seeded', i, 'meta.json')))['property']) for i in ids]
    with cf.ThreadPoolExecutor(4) as ex:
        for r in ex.map(lambda b: one(b, tests, check), bugs):
            print('\n    '.join(r), flush=True)
