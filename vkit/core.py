"""Reports, verdicts, evidence.

One check = a list of tasks (label, function(rep)).  A task proves obligations and/or evaluates contracts on real
executions, and records everything in its Rep.  Tasks run in forked worker processes; the verdict is computed from the merged
reports only:

  api failure (a concrete input on which the shipped code breaks the property)    -> VIOLATION, exit 1
  obligation generated from the current source and not discharged                 -> VIOLATION ... no-failing-input-found
                                                                                     (only if no api failure was found)
  code outside the engine's subset ("unsupported")                                -> bounded stand-in, labelled as such
  harness error                                                                   -> exit 2 (no verdict)
"""
import json, os, sys, time, traceback, hashlib, signal

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Rep:
    def __init__(self, label, seed, tier):
        self.label, self.seed, self.tier = label, seed, tier
        self.obs = []          # dict(name, status, backend, secs, detail)
        self.evals = 0         # contract evaluations on real executions
        self.distinct = set()
        self.samples = []
        self.fails = []        # dict(kind 'api'|'fn', what, data)
        self.known = []        # known finding ids observed
        self.assumptions = set()
        self.functions = set()
        self.bounded = []      # (what, bound)
        self.error = None
        self.z3 = (0, 0.0)
        self.secs = 0.0
        self.t0 = time.time()

    # -- proofs
    def ob(self, name, status, backend, secs=0.0, detail=''):
        assert status in ('proved', 'failed', 'unsupported')
        self.obs.append(dict(name=name, status=status, backend=backend, secs=round(secs, 4), detail=str(detail)[:1500]))

    # -- executions
    def ev(self, key=None, sample=None, n=1):
        self.evals += n
        if key is not None:
            self.distinct.add(hashlib.md5(repr(key).encode()).hexdigest()[:16])
        if sample is not None and len(self.samples) < 2:
            self.samples.append(sample)

    def fail(self, what, data, kind='api', ob=None):
        if len(self.fails) < 20:
            self.fails.append(dict(kind=kind, what=what, data=data, ob=ob, task=self.label))

    @property
    def failing(self):
        return any(f['kind'] == 'api' for f in self.fails)

    def finding(self, fid):
        if fid not in self.known:
            self.known.append(fid)

    def assume(self, *t):
        self.assumptions.update(t)

    def rng(self, *salt):
        import numpy as np
        h = hashlib.md5(repr((self.seed, self.label) + salt).encode()).digest()
        return np.random.default_rng(int.from_bytes(h[:8], 'little'))

    def left(self, budget):
        return time.time() - self.t0 < budget


class TaskTimeout(BaseException):
    pass


JOBS = []


def _run_task(i):
    label, fn, seed, tier, limit = JOBS[i]
    rep = Rep(label, seed, tier)

    def boom(*_):
        raise TaskTimeout()
    signal.signal(signal.SIGALRM, boom)
    signal.alarm(int(limit))
    try:
        fn(rep)
    except TaskTimeout:
        if tier == 'quick':
            rep.obs.append(dict(name=label + ':time', status='unsupported', backend='-', secs=limit,
                                detail='task stopped at its time limit'))
    except BaseException as e:  # noqa: BLE001
        rep.error = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    finally:
        signal.alarm(0)
    try:
        from . import path
        rep.z3 = (path.STATS['z3_queries'], path.STATS['z3_time'])
    except Exception:
        pass
    try:
        from . import shim
        rep.functions |= {k for k in shim.USED}
    except Exception:
        pass
    rep.secs = time.time() - rep.t0
    return rep


def _child(i, conn):
    conn.send(_run_task(i))
    conn.close()


def run_jobs(ctx, jobs, procs, grace):
    """one forked process per task, at most procs at a time.  A process that dies or hangs inside a library (where the alarm of
    _run_task cannot interrupt it: asynchronous jax execution has been seen to deadlock) is ended and its task tried once more,
    then given up as undecided."""
    from multiprocessing.connection import wait
    todo = [(i, 0) for i in range(len(jobs))]
    live, reps = {}, [None] * len(jobs)
    # the limit of a second attempt is short: the whole check has to answer in time
    while todo or live:
        while todo and len(live) < procs:
            i, attempt = todo.pop(0)
            rx, tx = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_child, args=(i, tx))
            p.start()
            tx.close()
            live[rx] = (i, attempt, p, time.time() + (jobs[i][4] + 30 if attempt == 0 else grace))
        for rx in wait(list(live), timeout=1.):
            i, attempt, p, _ = live.pop(rx)
            try:
                reps[i] = rx.recv()
            except (EOFError, OSError):
                pass
            rx.close()
            p.join(10)
            if p.is_alive():
                p.kill()
            if reps[i] is None:
                _lost(jobs, reps, todo, i, attempt, 'its process ended without an answer')
        for rx, (i, attempt, p, end) in list(live.items()):
            if time.time() > end:
                p.kill()
                p.join()
                del live[rx]
                rx.close()
                _lost(jobs, reps, todo, i, attempt, 'its process hung')
    return reps


def _lost(jobs, reps, todo, i, attempt, why):
    label, _, seed, tier, _ = jobs[i]
    print(f'  task {label}: {why}' + ('; once more' if attempt == 0 else ''))
    if attempt == 0:
        todo.append((i, 1))
        return
    reps[i] = Rep(label, seed, tier)
    reps[i].obs.append(dict(name=label + ':process', status='unsupported', backend='-', secs=0., detail=why))


def from_repo(exc):
    """the exception was raised while code of the package was running (not by the harness itself)"""
    tb = exc.__traceback__
    inside = False
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(REPO + '/') or '/meent/' in f:
            inside = True
        tb = tb.tb_next
    return inside


def grouped(obs, most=400):
    """the obligations by name; families of similar names (digits, detail after a colon) are summed up when there are many"""
    import re
    if len(obs) <= most:
        return [dict(name=o['name'], status=o['status'], backend=o['backend'], secs=o['secs']) for o in obs]
    for key in (lambda n: re.sub(r'\d+', '#', n), lambda n: re.sub(r'\d+', '#', n.split(':')[0]), lambda n: re.sub(r'\d+', '#', re.split(r'[:\[]', n)[0])):
        out = {}
        for o in obs:
            g = out.setdefault((key(o['name']), o['status'], o['backend'], bool(o.get('bounded'))), [0, 0.])
            g[0] += 1
            g[1] += o['secs']
        if len(out) <= most:
            break
    return [dict(name=k[0], status=k[1], backend=k[2], bounded=k[3], count=n, secs=round(t, 3)) for k, (n, t) in out.items()]


def findings():
    out = {}
    with open(os.path.join(ROOT, 'known_findings.jsonl')) as f:
        for line in f:
            line = line.strip()
            if line:
                d = json.loads(line)
                out[d['id']] = d
    return out


def run_check(pid, mod, tier, seed):
    import multiprocessing as mp
    t0 = time.time()
    tasks = mod.tasks(tier)
    # a task may carry its own time limit as third element
    limit = 420 if tier == 'quick' else 3000
    jobs = [(t[0], t[1], seed, tier, t[2] if len(t) > 2 else limit) for t in tasks]
    global JOBS
    JOBS = jobs
    reps = run_jobs(mp.get_context('fork'), jobs, int(os.environ.get('VERIF_JOBS', '8')), 100 if tier == 'quick' else 400)
    wall = time.time() - t0
    obs = [dict(o, task=r.label) for r in reps for o in r.obs]
    fails = [f for r in reps for f in r.fails]
    errors = [(r.label, r.error) for r in reps if r.error]
    proved = [o for o in obs if o['status'] == 'proved' and not o.get('bounded')]
    bnd = [o for o in obs if o['status'] == 'proved' and o.get('bounded')]
    failed = [o for o in obs if o['status'] == 'failed']
    unsup = [o for o in obs if o['status'] == 'unsupported']
    evals = sum(r.evals for r in reps)
    distinct = len(set().union(*[r.distinct for r in reps])) if reps else 0
    known_db = findings()
    known = sorted({k for r in reps for k in r.known})
    meta = mod.META
    rdir = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    api = [f for f in fails if f['kind'] == 'api']
    fnl = [f for f in fails if f['kind'] == 'fn']
    violations = []
    if api or failed or fnl:
        path = os.path.join(rdir, f'{pid}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=pid, tree=REPO, seed=seed, tier=tier, failing_inputs=api[:10], failed_obligations=failed[:20],
                           contract_failures=fnl[:10]), f, indent=1, default=repr)
        violations.append((path, '' if api else ' no-failing-input-found'))
    backends = {}
    for o in proved:
        backends[o['backend']] = backends.get(o['backend'], 0) + 1
    functions = sorted(set().union(*[r.functions for r in reps]))
    level = 'proof' if proved else 'exploration'
    cov = dict(obligations=len(obs) - len(bnd), bounded_obligations_discharged=len(bnd), discharged=len(proved), undischarged=len(failed), outside_subset=len(unsup),
               checker_cmd=f'./check.sh {pid} {tier}', backends=backends,
               trusted_base=sorted(set(meta.get('trusted', [])) | {
                   'vkit symbolic engine (alg.py/scal.py/shim.py): normalisation over Q(i)[atoms] and rewriting by the listed hypotheses',
                   'z3 4.x (path feasibility, inequalities)', 'CPython executing the real code objects under the symbolic library'}),
               functions_under_contract=functions,
               solver=dict(z3_queries=sum(r.z3[0] for r in reps), z3_seconds=round(sum(r.z3[1] for r in reps), 3),
                           symbolic_seconds=round(sum(o['secs'] for o in obs), 3)),
               obligation_list=grouped(obs), obligations_in_full=f'evidence/obligations/{pid}.jsonl',
               harness_errors=[dict(task=l, error=e[-600:]) for l, e in errors],
               outside_subset_detail=[dict(name=o['name'], why=o['detail'][:300]) for o in unsup],
               bounded=[dict(what=w, bound=b) for r in reps for w, b in r.bounded],
               evaluations=evals, distinct_nontrivial=distinct,
               rule=meta.get('rule', 'random inputs of the stated generator; distinct inputs counted by hash'),
               samples=[s for r in reps for s in r.samples][:6])
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=sorted(set(meta.get('assumptions', [])) | {a for r in reps for a in r.assumptions}),
              wall_s=round(wall, 2), violations=len(api) + len(failed) + len(fnl))
    odir = os.path.join(ROOT, 'evidence', 'obligations')
    os.makedirs(odir, exist_ok=True)
    with open(os.path.join(odir, f'{pid}.jsonl'), 'w') as f:
        f.writelines(json.dumps(dict(name=o['name'], status=o['status'], backend=o['backend'], secs=o['secs'], bounded=bool(o.get('bounded')))) + '\n' for o in obs)
    with open(os.path.join(ROOT, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    for r in reps:
        print(f'  task {r.label}: {len([o for o in r.obs if o["status"] == "proved"])}/{len(r.obs)} obligations, '
              f'{r.evals} evaluations, {r.secs:.1f}s')
    for o in failed[:12]:
        print(f'  FAILED obligation {o["name"]}: {o["detail"][:300]}')
    for o in unsup[:12]:
        print(f'  outside the subset (bounded stand-in): {o["name"]}: {o["detail"][:200]}')
    for f in (api + fnl)[:8]:
        print(f'  FAIL[{f["kind"]}] {f["what"]}'[:600])
    print(f'{pid}: {len(proved)}/{len(obs) - len(bnd)} obligations discharged, {len(bnd)} bounded, {evals} evaluations ({distinct} distinct), {wall:.1f}s')
    for k in known:
        if k in known_db and known_db[k]['status'] == 'known':
            print(f'KNOWN-FINDING: property={pid} {k}: {known_db[k]["what"]}')
        else:
            raise SystemExit(f'finding {k} is not listed')
    if violations:
        p, w = violations[0]
        print(f'VIOLATION property={pid} replay={p}{w}')
        return 1
    for l, e in errors:
        print(f'ERROR in task {l}:\n{e}', file=sys.stderr)
    if errors and os.environ.get('VERIF_STRICT'):
        return 2
    strict = os.environ.get('VERIF_STRICT')
    if not proved and evals == 0 or strict and (not proved and not meta.get('bounded_only') or evals == 0 and not meta.get('proof_only')):
        print('ERROR: nothing was decided (zero obligations or zero evaluations)', file=sys.stderr)
        return 2
    return 0
