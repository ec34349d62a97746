"""Executable contracts: run the real code from /repo on generated inputs and check the property's postconditions.

Runs under the repository's interpreter.  Only public names that the property statements mention are used.
An exception whose innermost frame lies in the repository (or that a clause declares unexpected) is a violation; a
harness that cannot find the public name it needs (moved module, renamed function) gives no verdict for that clause.
"""
import argparse
import hashlib
import json
import os
import random
import sys
import time
import traceback
import warnings

warnings.simplefilter('ignore')
REPO = os.environ.get('VERIF_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
HERE = os.path.dirname(os.path.abspath(__file__))
if HERE not in sys.path:
    sys.path.insert(0, HERE)


class Violation(Exception):
    pass


class Skip(Exception):
    """the clause cannot be evaluated on this tree"""


def short(x, n=400):
    try:
        s = repr(x)
    except Exception as e:
        s = f'<unrepresentable {type(x).__name__}: {e!r}>'
    return s if len(s) <= n else s[:n] + '...'


class Run:
    def __init__(self, pid, tier, seed, budget):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.evaluations, self.distinct = 0, set()
        self.samples, self.violations, self.skipped, self.clauses = [], [], [], []
        self.deadline = time.time() + budget
        self.case_desc, self.clause = None, None
        self.per_clause = {}
        self.thorough = tier == 'thorough'

    def n(self, quick, thorough=None):
        """number of iterations for this tier"""
        return (thorough if thorough is not None else quick * 20) if self.thorough else quick * 3

    def over(self):
        return time.time() > self.deadline

    def case(self, desc, nontrivial=True):
        self.evaluations += 1
        self.case_desc = desc
        self.per_clause[self.clause] = self.per_clause.get(self.clause, 0) + 1
        if nontrivial:
            key = hashlib.md5((self.clause + short(desc, 2000)).encode('utf8', 'replace')).digest()
            if key not in self.distinct:
                self.distinct.add(key)
                if self.per_clause[self.clause] in (2, 7) and len(self.samples) < 12:
                    self.samples.append({'clause': self.clause, 'case': short(desc, 300)})

    def check(self, cond, msg, **data):
        if not cond:
            raise Violation(msg + (' ' + ', '.join(f'{k}={short(v, 200)}' for k, v in data.items()) if data else ''))

    def eq(self, got, want, msg, **data):
        if not (got == want):
            self.check(False, msg, got=got, want=want, **data)

    def raises(self, fn, excs, msg, **data):
        try:
            r = fn()
        except excs:
            return
        self.check(False, msg + ' (no exception)', result=r, **data)


def in_repo(tb):
    """does the exception come out of repository code (innermost repository or third-party frame below the harness)"""
    frames = traceback.extract_tb(tb)
    return any(f.filename.startswith(REPO + '/') for f in frames)


def run_clause(run, name, fn):
    run.clause = name
    run.case_desc = None
    rng = random.Random(f'{run.seed}/{name}')
    try:
        fn(run, rng)
        run.clauses.append(name)
    except Violation as e:
        run.clauses.append(name)
        run.violations.append(dict(clause=name, message=str(e), input=short(run.case_desc, 3000),
                                   case=run.per_clause.get(name, 0), where='postcondition'))
    except Skip as e:
        run.skipped.append(dict(clause=name, reason=str(e)))
    except (ImportError, SyntaxError) as e:
        run.skipped.append(dict(clause=name, reason=repr(e)))
    except Exception as e:
        tb = e.__traceback__
        last = traceback.extract_tb(tb)[-1].filename
        obj = getattr(e, 'obj', None)
        api_missing = last.startswith(HERE) and (isinstance(e, NameError) or isinstance(e, AttributeError) and (
            isinstance(obj, type) or type(obj).__name__ == 'module'))
        if api_missing:
            run.skipped.append(dict(clause=name, reason=f'{e!r} at {traceback.extract_tb(tb)[-1]}'))
        else:
            run.clauses.append(name)
            run.violations.append(dict(clause=name, message=f'unexpected exception {e!r}', input=short(run.case_desc, 3000),
                                       case=run.per_clause.get(name, 0), where='exception',
                                       trace=''.join(traceback.format_exception(type(e), e, tb))[-3000:]))


def main(pid, clauses, executable=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--out')
    ap.add_argument('--clause')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--replay')
    ap.add_argument('--models', help='JSON list of {func, inputs}: counter-models of the verifier to replay')
    a = ap.parse_args()
    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        if rp.get('inputs') is not None:
            msg = executable[rp['func']](rp['inputs']) if executable and rp['func'] in executable else 'not replayable'
            print('replay:', msg)
            return 1 if msg else 0
        a.clause, a.seed, a.tier = rp['clause'], rp.get('seed', a.seed), rp.get('tier', a.tier)
    if a.models:
        with open(a.models) as f:
            models = json.load(f)
        out = []
        for m in models:
            fn = (executable or {}).get(m['func'])
            try:
                msg = fn(m['inputs']) if fn else None
            except Skip:
                msg = None
            except Exception as e:
                msg = f'unexpected exception {e!r}' if in_repo(e.__traceback__) else None
            out.append(msg)
        with open(a.out, 'w') as f:
            json.dump(out, f)
        return 0
    budget = a.budget or (100 if a.tier == 'quick' else 600)
    run = Run(pid, a.tier, a.seed, budget)
    t0 = time.time()
    todo = [(n, f) for n, f in clauses if not a.clause or n == a.clause]
    for i, (name, fn) in enumerate(todo):
        t1 = time.time()
        run.deadline = t1 + max(1.0, (t0 + budget - t1) / (len(todo) - i) * 2)
        run_clause(run, name, fn)
        if os.environ.get('VERIF_TIMES'):
            print(f'{name}: {time.time() - t1:.2f}s {run.per_clause.get(name, 0)} cases', file=sys.stderr)
    res = dict(property=pid, tier=a.tier, seed=a.seed, evaluations=run.evaluations, distinct=len(run.distinct),
               samples=run.samples, violations=run.violations, skipped=run.skipped, clauses=run.clauses,
               per_clause=run.per_clause, wall_s=time.time() - t0)
    if a.out:
        with open(a.out, 'w') as f:
            json.dump(res, f, indent=1)
    else:
        print(json.dumps(res, indent=1))
    return 1 if run.violations else 0
