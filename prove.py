#!/usr/bin/env python3-vt
"""Discharge every obligation of one contracts module against /repo's current source.

usage: prove.py <module in contracts/> --tier T --out FILE [--only NAME] [--repo DIR]
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
if os.environ.get('PYTHONHASHSEED') != '0':   # the same order of the facts on every run
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))


def work(mod, idx, bound, repo_dir, limit, conn, factor=1):
    resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
    os.setpgrp()
    try:
        from pyvc.verify import Repo, Target, run_target, run_lemma
        m = importlib.import_module('contracts.' + mod)
        t = m.TARGETS[idx]
        t.timeout = int(t.timeout * factor)
        r = run_target(Repo(repo_dir), t, bound) if isinstance(t, Target) else run_lemma(t)
    except BaseException as e:
        r = dict(name=str(idx), func='', obligations=[], status='error', reason=repr(e), inlined=[], contracts=[],
                 assumptions=[], opaque=[], queries=0, solver_s=0, wall_s=0)
    conn.send(r)
    conn.close()


def run_jobs(jobs, mod, repo_dir, limit, ncpu, deadline, factor=1):
    """jobs: [(idx, bound)] -> {job: result}"""
    todo, live, out = list(jobs), [], {}
    while todo or live:
        while todo and len(live) < ncpu and time.time() < deadline:
            j = todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=work, args=(mod, j[0], j[1], repo_dir, limit, b, factor))
            p.start()
            b.close()
            live.append((j, p, a, time.time()))
        if time.time() >= deadline:
            for j in todo:
                out[j] = dict(status='timeout', reason='time budget of the check used up')
            todo = []
        nxt = []
        for j, p, a, t0 in live:
            if a.poll(0):
                try:
                    out[j] = a.recv()
                except EOFError:
                    out[j] = dict(status='error', reason='verifier process ended')
                p.join()
            elif not p.is_alive():
                out[j] = dict(status='error', reason=f'verifier process ended with {p.exitcode}')
            elif time.time() - t0 > limit or time.time() > deadline + 5:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    p.kill()
                p.join()
                out[j] = dict(status='timeout', reason=f'no answer within {limit} s')
            else:
                nxt.append((j, p, a, t0))
        live = nxt
        time.sleep(0.02)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('module')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--out')
    ap.add_argument('--only')
    ap.add_argument('--repo', default=os.environ.get('VERIF_REPO', '/repo'))
    ap.add_argument('--budget', type=float)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '7')))
    a = ap.parse_args()
    m = importlib.import_module('contracts.' + a.module)
    limit = 140 if a.tier == 'quick' else 400
    deadline = time.time() + (a.budget or (200 if a.tier == 'quick' else 1500))
    targets = [(i, t) for i, t in enumerate(m.TARGETS) if not a.only or a.only == t.name]
    res = run_jobs([(i, None) for i, t in targets], a.module, a.repo, limit, a.jobs, deadline)
    # a source that differs from the one the committed baseline was proved for gets a second, longer attempt
    base = {}
    try:
        with open(os.path.join(HERE, 'contracts', 'baseline.json')) as f:
            base = json.load(f).get(a.module, {})
    except (OSError, ValueError):
        pass
    for (i, _), r in res.items():
        b = base.get(m.TARGETS[i].name)
        r['changed'] = bool(b and r.get('fingerprint') and b['fingerprint'] != r['fingerprint'])
        r['was_proved'] = bool(b and b['proved'] and not b.get('slow'))   # a proof near the solver's limits says nothing when it is lost
        r['new_opaque'] = sorted(set(r.get('opaque', [])) - set((b or {}).get('opaque', [])))
    slow = [(i, None) for (i, _), r in res.items() if r['changed'] and r['was_proved'] and
            any(o['status'] == 'unknown' for o in r.get('obligations', []))]
    if slow:
        for j, r in run_jobs(slow, a.module, a.repo, 200, a.jobs, deadline + 150, 3).items():
            if r['status'] == 'ok':
                res[j] = dict(r, changed=True, was_proved=True, new_opaque=res[j]['new_opaque'])
    # obligations that were not discharged: look for counter-models with bounded sizes
    again = []
    for (i, _), r in res.items():
        t = m.TARGETS[i]
        bad = [o for o in r.get('obligations', []) if o['status'] != 'proved']
        if bad or r['status'] in ('timeout',):
            bs = getattr(t, 'bound', None)
            for b in (bs if isinstance(bs, (list, tuple)) else ([bs] if bs else [])):
                again.append((i, b))
    extra = run_jobs(again, a.module, a.repo, 60, a.jobs, deadline + 40) if again else {}
    out = []
    for i, t in targets:
        r = res[i, None]
        r.setdefault('obligations', [])
        for k in ('inlined', 'contracts', 'assumptions', 'opaque'):
            r.setdefault(k, [])
        r['name'], r['func'] = t.name, getattr(t, 'func', '(lemma)')
        r['note'] = getattr(t, 'note', '')
        r['expect'] = getattr(t, 'expect', 'proved')
        r['replay_func'] = getattr(t, 'replay', None) or t.name
        r['bounded'] = [dict(bound=b, status=x['status'], obligations=[o for o in x.get('obligations', []) if o['status'] == 'refuted'])
                        for (k, b), x in extra.items() if k == i]
        out.append(r)
    if a.out:
        with open(a.out, 'w') as f:
            json.dump(out, f, indent=1, default=str)
    else:
        for r in out:
            n = len(r['obligations'])
            ok = sum(o['status'] == 'proved' for o in r['obligations'])
            print(f"{r['name']}: {r['status']} {ok}/{n} paths={r.get('paths')} {r.get('wall_s', 0):.1f}s {r.get('reason', '') or ''}")
            for o in r['obligations']:
                if o['status'] != 'proved':
                    print('    ', o['id'], o['status'], o.get('inputs'), o.get('reason', ''), o.get('decode_error', ''))
            for x in r['bounded']:
                for o in x['obligations']:
                    print('     bounded', x['bound'], o['id'], o.get('inputs'), o.get('decode_error', ''))
            if r['opaque']:
                print('     over-approximated:', r['opaque'])
            if os.environ.get('VERBOSE'):
                print('     inlined', r['inlined'], 'contracts', r['contracts'], 'assumes', r['assumptions'])


if __name__ == '__main__':
    main()
