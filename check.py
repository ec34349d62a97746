#!/usr/bin/env python3
"""Decide one property: discharge its contracts on /repo's current source, run its executable contracts, report.

usage: check.py <property id> [quick|thorough]
exit 0: held on everything explored; exit 1: a line "VIOLATION property=<id> replay=<path>"
"""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
VT = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python'


def start(cmd, cwd, log):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               MPLBACKEND='agg', VERIF_REPO=REPO)
    return subprocess.Popen(cmd, cwd=cwd, env=env, stdout=log, stderr=log, start_new_session=True)


def finish(p, limit):
    try:
        p.wait(timeout=limit)
    except subprocess.TimeoutExpired:
        pass
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()
    return p.returncode


def load(path, default):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return default


def known_findings(pid):
    out = []
    try:
        with open(os.path.join(HERE, 'known_findings.txt')) as f:
            for line in f:
                line = line.strip()
                if line.startswith('{'):
                    d = json.loads(line)
                    if d.get('property') == pid and d.get('status') == 'known':
                        out.append(d)
    except OSError:
        pass
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=f'verif_{pid}_')
    replay_dir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(replay_dir, exist_ok=True)
    mod = pid.lower()
    hfile = os.path.join(HERE, 'harness', mod + '.py')
    cfile = os.path.join(HERE, 'contracts', mod + '.py')
    hb = 100 if tier == 'quick' else 900
    log = open(os.path.join(scratch, 'log'), 'w+')
    ph = pc = None
    if os.path.exists(hfile):
        os.makedirs(os.path.join(scratch, 'h'))
        ph = start([PY, hfile, '--tier', tier, '--seed', str(seed), '--budget', str(hb), '--out', scratch + '/h.json'], scratch + '/h', log)
    if os.path.exists(cfile):
        pc = start([VT, os.path.join(HERE, 'prove.py'), mod, '--tier', tier, '--out', scratch + '/c.json', '--repo', REPO], scratch, log)
    hrc = finish(ph, hb + 150) if ph else None
    crc = finish(pc, 450 if tier == 'quick' else 2100) if pc else None
    h = load(scratch + '/h.json', None)
    c = load(scratch + '/c.json', [])

    # counter-models of the verifier are replayed on the real code
    models = []
    for r in c:
        for o in r['obligations'] + [dict(o, bound=b['bound']) for b in r['bounded'] for o in b['obligations']]:
            if o['status'] == 'refuted' and o.get('inputs') is not None:
                models.append(dict(func=r['replay_func'], inputs=o['inputs'], id=o['id'], target=r['name']))
    replays = []
    if models and os.path.exists(hfile):
        with open(scratch + '/m.json', 'w') as f:
            json.dump(models, f)
        p = start([PY, hfile, '--models', scratch + '/m.json', '--out', scratch + '/mo.json'], scratch + '/h', log)
        finish(p, 120)
        replays = load(scratch + '/mo.json', [None] * len(models))

    violations = []     # (text, replay dict, found input?)
    for v in (h or {}).get('violations', []):
        violations.append((f"{v['clause']}: {v['message']}", dict(kind='executable contract', property=pid, clause=v['clause'], seed=seed, tier=tier,
                          message=v['message'], input=v['input'], trace=v.get('trace'),
                          how=f"{PY} {hfile} --replay <this file>"), True))
    for m, msg in zip(models, replays):
        if msg:
            violations.append((f"{m['id']}: {msg}", dict(kind='counter-model of the verifier, replayed on the real code', property=pid, obligation=m['id'],
                              func=m['func'], inputs=m['inputs'], message=msg, how=f"{PY} {hfile} --replay <this file>"), True))
    failed = []         # obligations refuted by the verifier
    undecided = []
    for r in c:
        if r['status'] != 'ok':
            undecided.append(f"{r['name']}: {r['status']} ({(r.get('reason') or '').strip().splitlines()[-1:] or ''})")
        for o in r['obligations']:
            if o['status'] == 'proved':
                continue
            bounded = [x for b in r['bounded'] for x in b['obligations']]
            regressed = r.get('changed') and r.get('was_proved') and not r.get('new_opaque') and r['status'] == 'ok'
            if r['expect'] == 'proved' and (not r['opaque'] and (o['status'] == 'refuted' or bounded) or regressed):
                failed.append((r, o, bounded))
            else:
                undecided.append(f"{o['id']}: {o['status']}")
    if failed and not any(f for _, _, f in violations):
        for r, o, bounded in failed[:3]:
            violations.append((f"obligation {o['id']} fails", dict(kind='failed obligation', property=pid, obligation=o['id'], function=r['func'],
                              verifier=o, bounded=bounded[:3], note='an obligation that is discharged on the committed baseline source and not on this one; no counter-model reproduced as a failing run'), False))

    known = known_findings(pid)
    new, listed = [], []
    for text, rp, found in violations:
        k = [d for d in known if d['match'] in text + ' ' + str(rp.get('input'))]
        (listed if k else new).append((text, rp, found))
    for d in known:
        print(f"KNOWN-FINDING: property={pid} {d['what']}")

    obligations = sum(len(r['obligations']) + (1 if r['status'] != 'ok' and not r['obligations'] else 0) for r in c)
    discharged = sum(o['status'] == 'proved' for r in c for o in r['obligations'])
    level = 'proof' if c else 'exploration'
    backends = {}
    for r in c:
        for o in r['obligations']:
            if o['status'] == 'proved':
                backends[o['backend']] = backends.get(o['backend'], 0) + 1
    trusted = ['pyvc: translation of the Python subset to verification conditions (/verif/pyvc), cross-checked against CPython by selftest.py',
               'z3 and cvc5', 'Python and typing semantics as modelled in pyvc/builtins_model.py']
    trusted += sorted({'assumed contract: ' + x for r in c for x in r['contracts']})
    cov = dict(functions_under_contract=sorted({(r['func'] if isinstance(r['func'], str) else r['func'][0]) for r in c if r['func'] != '(lemma)'}),
               functions_verified_inline=sorted({x for r in c for x in r['inlined']}),
               backends=backends, solver_s=round(sum(r.get('solver_s', 0) for r in c), 2), solver_queries=sum(r.get('queries', 0) for r in c),
               undischarged=undecided + [f"{o['id']}: {o['status']}" for _, o, _ in failed],
               per_target=[dict(name=r['name'], status=r['status'], obligations=len(r['obligations']), proved=sum(o['status'] == 'proved' for o in r['obligations']),
                                paths=r.get('paths'), wall_s=round(r.get('wall_s', 0), 2), note=r['note']) for r in c],
               bounded_stand_in=dict(clauses=(h or {}).get('clauses', []), skipped=(h or {}).get('skipped', []), per_clause=(h or {}).get('per_clause', {}),
                                     label='bounded: executable contracts on generated inputs, never counted as proved'))
    if c:
        cov.update(obligations=obligations, discharged=discharged, checker_cmd=f'python3-vt prove.py {mod} --tier {tier}', trusted_base=trusted)
    if h:
        cov.update(evaluations=h['evaluations'], distinct_nontrivial=h['distinct'], samples=h['samples'][:6],
                   rule='inputs generated from the seed by the clauses of harness/%s.py; a case is non-trivial when its description was not seen before' % mod)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2),
              assumptions=sorted({x for r in c for x in r['assumptions']}), violations=len(new))
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    log.seek(0)
    tail = log.read()[-4000:]
    log.close()
    shutil.rmtree(scratch, ignore_errors=True)
    if h is None and ph is not None or (c == [] and pc is not None):
        print(f'note: no result from {"the executable contracts" if h is None else "the verifier"} (rc {hrc}, {crc})\n' + tail)
    print(f"{pid} {tier}: {discharged}/{obligations} obligations discharged, {h['evaluations'] if h else 0} contract evaluations, "
          f"{len(undecided)} undecided, {time.time() - t0:.1f} s")
    for u in undecided[:10]:
        print('  undecided:', u)
    for text, rp, found in listed:
        print('  listed finding:', text[:200])
    if not new:
        return 0
    new.sort(key=lambda x: not x[2])
    for i, (text, rp, found) in enumerate(new[:3]):
        path = os.path.join(replay_dir, f'{pid}_{i}.json')
        with open(path, 'w') as f:
            json.dump(rp, f, indent=1, default=str)
        print('  ' + text[:600].replace('\n', ' '))
        print(f'VIOLATION property={pid} replay={path}' + ('' if found else ' no-failing-input-found'))
    return 1


if __name__ == '__main__':
    sys.exit(main())
