"""obligations, findings, known-findings, evidence"""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')


class Report:
    def __init__(self, pid, tier='quick', seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.obl = []          # dict(rule, construct, ctx, status, detail)
        self.functions = set()
        self.calls = set()
        self.notes = []
        self.errors = []
        self.assumptions = []
        self.rules = {}

    # ---- recording
    def add(self, rule, construct, ctx, status, detail=''):
        self.obl.append(dict(rule=rule, construct=construct, ctx=ctx, status=status, detail=str(detail)[:1500]))

    def ok(self, rule, construct, ctx='', detail=''):
        self.add(rule, construct, ctx, 'holds', detail)

    def bad(self, rule, construct, ctx='', detail=''):
        self.add(rule, construct, ctx, 'violated', detail)

    def und(self, rule, construct, ctx='', detail=''):
        self.add(rule, construct, ctx, 'undecided', detail)

    def cond(self, good, rule, construct, ctx='', detail=''):
        self.add(rule, construct, ctx, 'holds' if good else 'violated', '' if good else detail)
        return good

    def equal(self, rule, construct, ctx, a, b, facts=(), what=''):
        from .equal import compare
        s, w = compare(a, b, facts)
        if s == 'eq':
            self.ok(rule, construct, ctx)
        elif s == 'diff':
            self.bad(rule, construct, ctx, f'{what}: {w}\n   derived:  {a!r}\n   required: {b!r}'[:1500])
        else:
            self.und(rule, construct, ctx, f'{what}: {w}: {a!r} vs {b!r}')
        return s == 'eq'

    def saw(self, it):
        for v in it.visited:
            self.functions.add(v if isinstance(v, str) else getattr(v, 'qual', str(v)))
        for c in it.calls:
            self.calls.add(tuple(map(str, c)) if isinstance(c, tuple) else str(c))

    def paths(self, rule, construct, ctx, results, allow=()):
        """keep decided paths; report definite exceptions, undecided paths"""
        from .values import Unknown
        good = []
        for r in results:
            self.saw(r.it)
            c = ctx + (' when ' + ' & '.join(r.conds()) if r.conds() else '')
            if r.exc is not None:
                if r.exc.etype in allow:
                    continue
                if r.it.tainted or r.it.unknown:
                    self.und(rule, construct, c, f'exception after unknown value: {r.exc}; {r.it.unknown[:2]}')
                else:
                    self.bad(rule, construct, ctx, f'this accepted configuration raises {r.exc.etype}: {r.exc.msg} in {r.exc.where} [{c}]')
            elif isinstance(r.value, Unknown) or r.it.tainted:
                self.und(rule, construct, c, '; '.join(r.it.unknown[:3]))
            else:
                good.append(r)
        return good

    def parallel(self, fn, jobs, procs=None):
        """fn(sub_report, *job) for every job, in forked workers"""
        import multiprocessing as mp
        procs = procs or int(os.environ.get('VERIF_PROCS', '0')) or min(8, os.cpu_count() or 1)
        jobs = list(jobs)
        if procs == 1 or len(jobs) == 1:
            for j in jobs:
                fn(self, *j)
            return
        _JOBS[:] = [(fn, j) for j in jobs]
        ctx = mp.get_context('fork')
        todo = dict(enumerate(jobs))
        end = self.t0 + float(os.environ.get('VERIF_LIMIT', '820' if self.tier == 'quick' else '36000'))
        with ctx.Pool(procs, maxtasksperchild=1) as pool:
            done = pool.imap_unordered(_job, [(self.pid, self.tier, self.seed, i) for i in todo], chunksize=1)
            while todo:
                try:
                    i, o, f, c, e = done.next(timeout=max(1, end - time.time()))
                except StopIteration:
                    break
                except mp.TimeoutError:
                    for j in todo.values():
                        self.und('time limit', fn.__name__, ','.join(str(x) for x in j), 'not reached within the time of a run')
                    pool.terminate()
                    break
                todo.pop(i)
                self.obl += o
                self.functions |= f
                self.calls |= c
                self.errors += e
                if os.environ.get('VERIF_FAST') and any(q['status'] == 'violated' for q in o):
                    pool.terminate()
                    break
        self.obl.sort(key=lambda o: (o['rule'], o['construct'], o['ctx']))

    # ---- output
    def finish(self, explain, min_obl=1):
        known = load_known()
        groups = {}
        for o in self.obl:
            if o['status'] == 'violated':
                groups.setdefault((o['rule'], o['construct'], o['ctx']), []).append(o)
        viol, kf = [], []
        for (r, c, x), os_ in sorted(groups.items()):
            k = match_known(known, self.pid, r, c, x)
            (kf if k else viol).append((r, c, x, os_, k))
        n = {s: sum(o['status'] == s for o in self.obl) for s in ('holds', 'violated', 'undecided')}
        seen = set()
        for r, c, x, os_, k in kf:
            if k['what'] in seen:
                continue
            seen.add(k['what'])
            print(f'KNOWN-FINDING: property={self.pid} {k["what"]}')
        print(f'{self.pid} [{self.tier}] obligations: {len(self.obl)}  holds: {n["holds"]}  violated: {n["violated"]} '
              f'(known: {len(kf)})  undecided: {n["undecided"]}  functions analysed: {len(self.functions)}')
        for o in [o for o in self.obl if o['status'] == 'undecided'][:int(os.environ.get('VERIF_SHOW', '6'))]:
            print(f'  undecided: {o["rule"]} {o["construct"]} [{o["ctx"]}] {o["detail"][:int(os.environ.get("VERIF_W", "300"))]}')
        rules = {}
        for o in self.obl:
            d = rules.setdefault(o['rule'], dict(holds=0, violated=0, undecided=0))
            d[o['status']] += 1
        os.makedirs(EVID, exist_ok=True)
        code = 0
        if len(self.obl) - n['undecided'] < min_obl and not viol:
            self.errors.append(f'only {len(self.obl) - n["undecided"]} decided obligations (expected at least {min_obl})')
        rep = os.path.join(EVID, f'{self.pid}.replay.json')
        if viol:
            with open(rep, 'w') as f:
                json.dump(dict(property=self.pid, violations=[
                    dict(rule=r, construct=c, context=x, details=[o['detail'] for o in os_]) for r, c, x, os_, k in viol],
                    replay=f'cd {VERIF} && ./check.sh {self.pid} {self.tier}'), f, indent=1)
            for r, c, x, os_, k in viol[:int(os.environ.get('VERIF_SHOW', '12'))]:
                print(f'  violated: rule={r} construct={c} [{x}]\n     {os_[0]["detail"]}')
            code = 1
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level='other',
                  coverage=dict(explanation=explain, obligations=len(self.obl), holds=n['holds'], violated=n['violated'],
                                undecided=n['undecided'], functions_analysed=len(self.functions),
                                call_edges=len(self.calls), rules=rules,
                                functions=sorted(self.functions)[:200],
                                undecided_list=[f'{o["rule"]} {o["construct"]} [{o["ctx"]}]: {o["detail"][:300]}' for o in self.obl if o['status'] == 'undecided'][:60],
                                instances=sorted({f'{o["rule"]} :: {o["construct"]} :: {o["ctx"]}' for o in self.obl})[:400]),
                  wall_s=round(time.time() - self.t0, 3), violations=len(viol),
                  known_findings=[k['what'] for r, c, x, o, k in kf],
                  assumptions=self.assumptions + [
                      'torch/numpy/python primitives behave as written in the transfer functions of sa/torchmodel.py',
                      'real arithmetic (no floating-point rounding)'],
                  errors=self.errors)
        with open(os.path.join(EVID, f'{self.pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if viol:
            print(f'VIOLATION property={self.pid} replay={rep}')
        if self.errors and not viol:
            for e in self.errors:
                print('ERROR', e)
            code = 2
        return code


_JOBS = []


class TimeLimit(BaseException):
    pass


def _job(a):
    import sys as _s
    import traceback
    pid, tier, seed, i = a
    fn, j = _JOBS[i]
    _s.setrecursionlimit(20000)
    r = Report(pid, tier, seed)
    t0 = time.time()
    from .interp import MissingAnchor
    import resource
    import signal

    def late(*_):
        raise TimeLimit()
    lim = int(os.environ.get('VERIF_JOB', '240' if tier == 'quick' else '1500'))
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    signal.signal(signal.SIGALRM, late)
    signal.alarm(lim)
    what = ','.join(str(x) for x in j)
    try:
        fn(r, *j)
    except MissingAnchor as e:
        r.errors.append(f'anchor missing: {e}')
    except TimeLimit:
        r.und('time limit', fn.__name__, what, f'not decided within {lim} s')
    except Exception:
        if os.environ.get('VERIF_STRICT'):
            r.errors.append('internal error: ' + traceback.format_exc()[-800:])
        else:
            r.und('not analysed', fn.__name__, what, 'internal error: ' + traceback.format_exc()[-800:])
    finally:
        signal.alarm(0)
    if os.environ.get('VERIF_TIME') and time.time() - t0 > float(os.environ['VERIF_TIME']):
        print(f'{time.time()-t0:.1f}s', [str(x) for x in j])
    return i, r.obl, r.functions, r.calls, r.errors


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get('known', [])


def match_known(known, pid, r, c, x):
    for k in known:
        if k['property'] == pid and k['rule'] == r and k['construct'] == c and (x in k['contexts']):
            return k
    return None
