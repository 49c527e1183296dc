"""Exploration driver: forks symbolic workers, replays on the real stack, writes evidence."""
import gc
import importlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import multiprocessing.connection as mpc
from multiprocessing import Pipe

from . import core, env

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Scenario:
    def __init__(self, name, fn, params=None, opts=None, weight=1.0, real_ok=True, max_paths=None, note='', goals=()):
        self.goals = list(goals)    # things some path must reach (ctx.cover); decided once the scenario is exhausted
        self.name, self.fn, self.params = name, fn, params or {}
        self.opts, self.weight, self.max_paths, self.note = opts or {}, weight, max_paths, note


class Timeout(core.PathEnd):
    pass


def _alarm(sig, frm):
    c = core.CTX
    if c is not None:
        c.timed_out = True
    raise Timeout('path time limit')


def clean_dir(p):
    for n in os.listdir(p):
        q = os.path.join(p, n)
        try:
            if os.path.isdir(q) and not os.path.islink(q):
                shutil.rmtree(q, ignore_errors=True)
            else:
                os.remove(q)
        except OSError:
            pass


def run_one(sc, ctx, limit, tmp):
    """run one scenario function under ctx; returns (status, detail)"""
    core.CTX = ctx
    ctx.tmp = tmp
    clean_dir(tmp)
    data = os.path.join(tmp, 'data')
    os.makedirs(data, exist_ok=True)
    os.environ['DATA_FOLDER'] = data
    old = os.getcwd()
    os.chdir(tmp)
    # garbage collection only where a harness asks for it: deterministic object lifetimes
    gc.disable()
    sys.unraisablehook = lambda *a: None
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit, 1.0)
    status, detail = 'ok', None
    try:
        try:
            sc.fn(ctx, **sc.params)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except core.Pruned as e:
        status, detail = 'pruned', str(e)
    except core.Unsupported as e:
        status, detail = 'unsupported', str(e)
    except core.Violation as e:
        status, detail = 'violation', str(e)
    except core.Hang as e:
        status, detail = 'violation', 'hang: ' + str(e)
    except Timeout:
        status, detail = 'timeout', 'path time limit'
    except core.PathEnd as e:
        status, detail = 'unsupported', repr(e)
    except Exception as e:
        status, detail = 'violation', 'exception: ' + exc_sig(e)
        if os.environ.get('SYMX_DEBUG'):
            traceback.print_exc()
    except BaseException as e:
        status, detail = 'unsupported', 'engine: ' + repr(e)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        env.cleanup(ctx)
        os.chdir(old)
        ctx.__dict__.pop('_keep', None)
        gc.collect()
    # flags survive any bare except in the code under test
    if getattr(ctx, 'timed_out', False):
        status, detail = 'timeout', 'path time limit'
    elif ctx.failed is not None:
        status, detail = 'violation', ctx.failed['msg']
    elif ctx.pruned is not None:
        status, detail = 'pruned', ctx.pruned
    elif ctx.unsupported is not None:
        status, detail = 'unsupported', ctx.unsupported
    elif getattr(ctx, 'hang', False):
        status, detail = 'violation', 'hang: waits forever'
    return status, detail


def run_goal(sc, goal, limit, tmp, n=600):
    """real stack, random inputs: is the goal ever reached?"""
    t0 = time.time()
    checks = 0
    for j in range(n):
        ctx = core.ConcreteCtx({}, dict(sc.opts, max_draws=10 ** 6))
        ctx.rand = random.Random(j)
        status, detail = run_one(sc, ctx, 10, tmp)
        checks += ctx.stats.checks
        if status == 'violation':
            return status, detail, ctx
        if goal in ctx.__dict__.get('covered', ()):
            return 'ok', None, ctx
        if time.time() - t0 > limit - 5:
            if j < 100:
                return 'timeout-goal', f'only {j} runs', ctx
            break
    return 'violation', f'can never happen: {goal}', ctx


def exc_sig(e):
    return f'{type(e).__name__}: {str(e)[:160]}'


# --------------------------------------------------------------------------- function coverage
class Coverage:
    def __init__(self, repo):
        self.pref = os.path.join(repo, 'DRecPy') + os.sep
        self.repo = repo
        self.seen = set()
        self.new = set()

    def start(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(3, 'symx')
        except ValueError:
            return

        def cb(code, off):
            fn = code.co_filename
            if fn.startswith(self.pref):
                k = f'{os.path.relpath(fn, self.repo)}:{code.co_qualname}'
                if k not in self.seen:
                    self.seen.add(k)
                    self.new.add(k)
            return mon.DISABLE
        mon.register_callback(3, mon.events.PY_START, cb)
        mon.set_events(3, mon.events.PY_START)

    def take(self):
        n, self.new = self.new, set()
        return sorted(n)


# --------------------------------------------------------------------------- symbolic worker
def worker(conn, scs, seed, limit, slice_s, tmp):
    from . import loader
    os.makedirs(tmp, exist_ok=True)
    gc.collect()
    gc.freeze()
    cov = Coverage(loader.REPO)
    cov.start()
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            break
        if msg is None:
            break
        si, prefixes, want_witness = msg
        sc = scs[si]
        t0 = time.time()
        stack = list(prefixes)
        results = []
        while stack:
            prefix = stack.pop()
            ctx = core.Ctx(prefix, sc.opts)
            status, detail = run_one(sc, ctx, limit, tmp)
            r = {'status': status, 'detail': detail, 'decisions': ctx.stats.decisions,
                 'queries': ctx.stats.queries, 'solver_s': ctx.stats.solver_s, 'checks': ctx.stats.checks,
                 'unknown': ctx.stats.unknown, 'incomplete': len(ctx.incomplete), 'undecided': list(ctx.undecided)[:3],
                 'inputs': None, 'n_undecided': len(ctx.undecided)}
            if status == 'ok' and ctx.__dict__.get('covered'):
                r['covered'] = sorted(ctx.covered)
            if ctx.incomplete:
                r['inc_why'] = ctx.incomplete[0]
            core.CTX = None
            try:
                if status == 'violation':
                    if ctx.failed is not None:
                        r['inputs'] = ctx.failed['inputs']
                        r['info'] = ctx.failed['info']
                    else:
                        r['inputs'] = ctx.extract_inputs()
                elif status in ('unsupported', 'timeout') or (status == 'ok' and (want_witness or ctx.undecided)):
                    r['inputs'] = ctx.extract_inputs()
                    if status == 'ok':
                        want_witness = False
            except Exception:
                r['inputs'] = None
            results.append(r)
            stack.extend(ctx.alternatives)
            if time.time() - t0 > slice_s or status == 'violation':
                break
        try:
            conn.send((si, results, stack, cov.take()))
        except (BrokenPipeError, OSError):
            break
    os._exit(0)


# --------------------------------------------------------------------------- real worker
class RealWorker:
    """replays inputs on the unpatched stack (real sqlite3, pandas, scipy, sklearn, tensorflow) in its own process"""

    def __init__(self, check_id, tier, scratch, real_tf):
        self.args = [sys.executable, '-m', 'symx.replay', check_id, tier]
        env = dict(os.environ)
        env['SYMX_SCRATCH'] = os.path.join(scratch, 'real')
        env['SYMX_REAL_TF'] = '1' if real_tf else '0'
        env['PYTHONHASHSEED'] = '0'
        env['PYTHONPATH'] = VERIF
        self.env = env
        self.p = None
        self.queue = []
        self.cur = None
        self.ready = False
        self.t_sent = 0
        self.deaths = 0
        self.log = open(os.path.join(scratch, 'real.log'), 'ab')
        self.start()

    def start(self):
        self.p = subprocess.Popen(self.args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.log,
                                  env=self.env, cwd=VERIF)
        self.ready = False
        self.t_sent = time.time()

    def submit(self, job):
        self.queue.append(job)
        self._pump()

    def _pump(self):
        if self.p is None or not self.ready or self.cur is not None or not self.queue:
            return
        # violations first
        self.queue.sort(key=lambda j: j['prio'])
        self.cur = self.queue.pop(0)
        self.t_sent = time.time()
        try:
            self.p.stdin.write((json.dumps({'sc': self.cur['sc'], 'inputs': self.cur['inputs'],
                                            'limit': self.cur.get('limit', 30)}) + '\n').encode())
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            pass

    def poll(self):
        """returns (job, reply) or None"""
        if self.p is None:
            return None
        if mpc.wait([self.p.stdout], timeout=0):
            line = self.p.stdout.readline()
            if not line:
                return self._died('replay process ended')
            try:
                msg = json.loads(line)
            except ValueError:
                return None
            if msg.get('ready'):
                self.ready = True
                self._pump()
                return None
            job, self.cur = self.cur, None
            self._pump()
            return (job, msg) if job is not None else None
        if self.cur is not None and time.time() - self.t_sent > self.cur.get('limit', 30) + 30:
            self.p.kill()
            return self._died('timeout')
        return None

    def _died(self, why):
        try:
            self.p.kill()
            self.p.wait()
        except Exception:
            pass
        job, self.cur = self.cur, None
        self.deaths += 1
        if self.deaths < 4:
            self.start()
        else:
            self.p = None
        if job is not None:
            return job, {'status': 'timeout' if why == 'timeout' else 'died', 'detail': why}
        return None

    @property
    def busy(self):
        return self.cur is not None or bool(self.queue)

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
        self.log.close()


# --------------------------------------------------------------------------- known findings
def load_known(check_id):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.isfile(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [k for k in d.get('findings', []) if k['property'] == check_id]


def match_known(known, scname, msg):
    import re
    for k in known:
        if re.fullmatch(k['scenario'], scname) and re.search(k['message'], msg):
            return k
    return None


# --------------------------------------------------------------------------- main driver
def same_failure(a, b):
    """does the real run fail in the way the solver predicted?"""
    return a is not None and b is not None


def run_check(check_id, tier, seed, replay=None, only=None, budget=None, jobs=None, verbose=False):
    t_start = time.time()
    if not os.environ.get('SYMX_SCRATCH'):
        base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
        scratch = tempfile.mkdtemp(prefix=f'symx_{check_id}_', dir=base)
    else:
        scratch = tempfile.mkdtemp(prefix=f'symx_{check_id}_', dir=os.environ['SYMX_SCRATCH'])
    os.environ['SYMX_SCRATCH'] = scratch
    os.environ['SYMX_TIER'] = tier
    try:
        return _run(check_id, tier, seed, scratch, t_start, replay, only, budget, jobs, verbose)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _write_evidence(check_id, ev):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f'.{check_id}.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(d, f'{check_id}.json'))


def _run(check_id, tier, seed, scratch, t_start, replay, only, budget, jobs, verbose):
    mod_name = 'checks.' + check_id.lower()
    ev = {'property': check_id, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': {
        'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}, 'wall_s': 0.0, 'violations': 0}
    from . import boot
    boot_error = None
    scs = []
    check = None
    try:
        boot.start('sym')
        check = importlib.import_module(mod_name)
        scs = list(check.scenarios(tier))
    except core.PathEnd as e:
        boot_error = repr(e)
    except Exception as e:
        boot_error = traceback.format_exc()[-1500:]
    if boot_error is not None:
        # the current tree cannot be loaded in the symbolic environment: nothing decided
        ev['coverage']['undecided'] = {'symbolic environment could not load the tree': boot_error}
        ev['wall_s'] = time.time() - t_start
        _write_evidence(check_id, ev)
        print(f'{check_id}: undecided, the tree cannot be loaded symbolically: {boot_error}')
        return 0
    if only:
        scs = [s for s in scs if only in s.name]
    scopts = getattr(check, 'OPTS', {})
    for s in scs:
        o = dict(scopts)
        o.update(s.opts)
        s.opts = o
    names = [s.name for s in scs]
    assert len(set(names)) == len(names), 'scenario names must be unique'
    budget = budget or getattr(check, 'BUDGET', {}).get(tier) or (60 if tier == 'quick' else 900)
    if tier == 'quick':
        budget = min(budget, 420)
    limit = getattr(check, 'PATH_LIMIT', 20)
    real_tf = getattr(check, 'REAL_TF', False)
    n_jobs = jobs or min(8, os.cpu_count() or 4)
    n_wit = getattr(check, 'WITNESSES', 2)
    rw = RealWorker(check_id, tier, scratch, real_tf)
    rng = random.Random(seed)
    workers = []
    for k in range(n_jobs):
        a, b = Pipe()
        pid = os.fork()
        if pid == 0:
            a.close()
            try:
                worker(b, scs, seed, limit, 0.4, os.path.join(scratch, f'w{k}'))
            finally:
                os._exit(0)
        b.close()
        workers.append({'conn': a, 'pid': pid, 'busy': None})
    fr = [[[]] for _ in scs]            # frontier of prefixes
    inflight = [0] * len(scs)
    st = [dict(paths=0, ok=0, pruned=0, unsupported=0, timeout=0, violation=0, checks=0, wit=0, wit_sent=0, incomplete=0,
               undecided=0) for _ in scs]
    tot = dict(decisions=0, queries=0, solver_s=0.0, checks=0, unknown=0)
    funcs = set()
    known = load_known(check_id)
    known_hit = {}
    undecided_notes = {}
    samples = []
    validated = 0
    sig_sent = {}
    sig_done = {}
    violation = None
    nonrepro = []
    rr = 0
    covered = [set() for _ in scs]
    goals_sent = False
    finding_samples = {}
    unsup_sent = {}
    t_explore = time.time()
    deadline = t_explore + budget
    drain_deadline = None

    def note(k, n=1):
        undecided_notes[k] = undecided_notes.get(k, 0) + n

    def dispatch():
        nonlocal rr
        for w in workers:
            if w['busy'] is not None or w['conn'] is None:
                continue
            order = sorted((i for i in range(len(scs)) if fr[i] and not (scs[i].max_paths and
                            st[i]['paths'] >= scs[i].max_paths)),
                           key=lambda i: ((inflight[i] + st[i].get('slices', 0)) / scs[i].weight, i))
            if not order:
                return
            i = order[0]
            f = fr[i]
            take = 1 if len(f) < 2 * n_jobs else max(1, min(16, len(f) // (2 * n_jobs)))
            batch = []
            for _ in range(min(take, len(f))):
                j = rng.randrange(len(f))
                f[j], f[-1] = f[-1], f[j]
                batch.append(f.pop())
            w['busy'] = i
            inflight[i] += 1
            st[i]['slices'] = st[i].get('slices', 0) + 1
            w['conn'].send((i, batch, st[i]['wit_sent'] < n_wit))

    def on_result(i, results, rest, newf):
        nonlocal samples
        s = st[i]
        sc = scs[i]
        funcs.update(newf)
        fr[i].extend(rest)
        for r in results:
            s['paths'] += 1
            for k in ('decisions', 'queries', 'solver_s', 'checks', 'unknown'):
                tot[k] += r[k]
            s['checks'] += r['checks']
            stt = r['status']
            covered[i].update(r.get('covered', ()))
            s[stt] = s.get(stt, 0) + 1
            if r['incomplete']:
                s['incomplete'] += 1
                note(f'{sc.name}: {r.get("inc_why")}')
            if r['undecided']:
                s['undecided'] += 1
                note(f'{sc.name}: solver could not decide: {r["undecided"][0]}')
                if r['inputs'] is not None and unsup_sent.get(i, 0) < 150:
                    unsup_sent[i] = unsup_sent.get(i, 0) + 1
                    rw.submit({'sc': sc.name, 'inputs': r['inputs'], 'kind': 'unsup', 'prio': 3, 'i': i, 'msg': None})
            if stt == 'violation':
                sig = (sc.name, r['detail'])
                if verbose and sig not in sig_sent:
                    print('  candidate', sig, str(r['inputs'])[:600])
                if r['inputs'] is None:
                    note(f'{sc.name}: counterexample without inputs: {r["detail"]}')
                elif sig_sent.get(sig, 0) < 6 and sig_done.get(sig) != 'known':
                    sig_sent[sig] = sig_sent.get(sig, 0) + 1
                    rw.submit({'sc': sc.name, 'inputs': r['inputs'], 'kind': 'cex', 'prio': 0 + sig_sent[sig] * .1, 'i': i,
                               'msg': r['detail'], 'info': r.get('info')})
            elif stt in ('unsupported', 'timeout'):
                note(f'{sc.name}: {stt}: {r["detail"]}')
                if r['inputs'] is not None and unsup_sent.get(i, 0) < 150:
                    unsup_sent[i] = unsup_sent.get(i, 0) + 1
                    rw.submit({'sc': sc.name, 'inputs': r['inputs'], 'kind': 'timeout' if stt == 'timeout' else 'unsup',
                               'prio': 2, 'i': i, 'msg': None})
            elif stt == 'ok' and r['inputs'] is not None and s['wit_sent'] < n_wit:
                s['wit_sent'] += 1
                rw.submit({'sc': sc.name, 'inputs': r['inputs'], 'kind': 'wit', 'prio': 5, 'i': i, 'msg': None})

    def on_real(job, rep):
        nonlocal validated, violation
        i = job['i']
        sc = scs[i]
        if verbose and (job['kind'] == 'cex' or rep['status'] != 'ok'):
            print('  replay', job['kind'], sc.name, job['msg'], '->', rep.get('status'), rep.get('detail'))
        bad = rep['status'] == 'violation'
        if job['kind'] == 'timeout':
            bad = bad or rep['status'] == 'timeout'
        if bad:
            msg = rep.get('detail') or 'does not terminate'
            if rep['status'] == 'timeout':
                msg = 'does not terminate'
            k = match_known(known, sc.name, msg)
            if k is not None:
                known_hit.setdefault(k['id'], (k, sc.name, job['inputs'], msg))
                if job['msg'] is not None:
                    sig_done[(sc.name, job['msg'])] = 'known'
                return
            if violation is None:
                violation = {'scenario': sc.name, 'inputs': job['inputs'], 'message': msg,
                             'solver_message': job['msg'], 'kind': job['kind'], 'info': rep.get('info')}
            return
        if job['kind'] == 'goal':
            note(f'{sc.name}: {job["msg"]} within the bounds, but it does on the real stack')
        elif job['kind'] == 'cex':
            note(f'{sc.name}: counterexample did not reproduce on the real stack ({rep["status"]}: {rep.get("detail")}): '
                 f'{job["msg"]}')
            nonrepro.append({'scenario': sc.name, 'inputs': job['inputs'], 'msg': job['msg'],
                             'real': [rep['status'], rep.get('detail')]})
        elif job['kind'] == 'wit':
            if rep['status'] == 'ok':
                validated += 1
                st[i]['wit'] += 1
                if len(samples) < 12 and st[i]['wit'] == 1:
                    samples.append({'scenario': sc.name, 'inputs': job['inputs'], 'real_run': 'ok',
                                    'assertions': rep.get('checks')})
            else:
                note(f'{sc.name}: witness not confirmed on the real stack ({rep["status"]}: {rep.get("detail")})')
        elif job['kind'] in ('unsup', 'timeout'):
            if rep['status'] == 'ok':
                validated += 1

    # ---- main loop
    try:
        while violation is None:
            now = time.time()
            if now < deadline:
                dispatch()
            busy = [w for w in workers if w['busy'] is not None]
            frontier = any(fr[i] and not (scs[i].max_paths and st[i]['paths'] >= scs[i].max_paths) for i in range(len(scs)))
            if not busy and (not frontier or now >= deadline):
                if not goals_sent:
                    goals_sent = True
                    for i, sc in enumerate(scs):
                        for g in sc.goals:
                            if g not in covered[i]:
                                if fr[i]:
                                    note(f'{sc.name}: not reached before the budget ended: {g}')
                                    continue
                                rw.submit({'sc': sc.name, 'inputs': {'__goal__': g}, 'kind': 'goal', 'prio': 1, 'i': i, 'msg': f'can never happen: {g}', 'limit': 60})
                if not rw.busy:
                    break
                if rw.p is None:
                    break
                if drain_deadline is None:
                    drain_deadline = now + (90 if tier == 'quick' else 300)
                if now > drain_deadline:
                    break
            waitables = [w['conn'] for w in busy]
            if rw.p is not None:
                waitables.append(rw.p.stdout)
            rdy = mpc.wait(waitables, timeout=0.5) if waitables else []
            for w in busy:
                if w['conn'] in rdy:
                    try:
                        i, results, rest, newf = w['conn'].recv()
                    except (EOFError, OSError):
                        i = w['busy']
                        note(f'{scs[i].name}: a worker process ended')
                        inflight[i] -= 1
                        w['busy'] = None
                        w['conn'] = None
                        continue
                    inflight[i] -= 1
                    w['busy'] = None
                    on_result(i, results, rest, newf)
            while True:
                r = rw.poll()
                if r is None:
                    break
                on_real(*r)
                if violation is not None:
                    break
            if all(w['conn'] is None for w in workers):
                break
    finally:
        for w in workers:
            try:
                os.kill(w['pid'], signal.SIGKILL)
                os.waitpid(w['pid'], 0)
            except OSError:
                pass
        rw.stop()

    exhausted = all(not fr[i] for i in range(len(scs)))
    if not exhausted:
        for i in range(len(scs)):
            if fr[i]:
                note(f'{scs[i].name}: {len(fr[i])}+ path prefixes left unexplored when the budget ended')
    vac = [scs[i].name for i in range(len(scs)) if st[i]['ok'] + st[i]['violation'] == 0 or st[i]['checks'] == 0]
    per = {scs[i].name: {k: v for k, v in st[i].items() if v and k not in ('wit_sent', 'slices')} for i in range(len(scs))}
    n_paths = sum(s['paths'] for s in st)
    ev['coverage'] = {
        'states': sum(s['ok'] + s['violation'] for s in st),
        'transitions': tot['decisions'],
        'traces_validated_against_impl': validated,
        'samples': samples,
        'explanation': 'states = symbolic paths of the real code that reached the end of the harness, each standing for '
                       'every input satisfying its path condition; transitions = forks decided by the solver; '
                       'queries = solver queries (feasibility + negated property)',
        'paths_total': n_paths,
        'property_assertions_decided': tot['checks'],
        'queries_discharged': tot['queries'],
        'queries_unknown': tot['unknown'],
        'solver_time_s': round(tot['solver_s'], 2),
        'functions_encoded': sorted(funcs),
        'bounds': getattr(check, 'BOUNDS', {}).get(tier, getattr(check, 'BOUNDS', {})),
        'outside_the_bounds': getattr(check, 'OUTSIDE', ''),
        'exhausted_within_bounds': exhausted and not undecided_notes,
        'exhaustive': bool(exhausted and not undecided_notes),
        'scenarios': per,
        'scenarios_without_a_completed_path': vac,
        'undecided': undecided_notes,
        'counterexamples_not_reproduced': nonrepro[:5],
        'known_findings_seen': sorted(known_hit),
        'goals_reached': {scs[i].name: len(set(scs[i].goals) & covered[i]) for i in range(len(scs)) if scs[i].goals},
    }
    ev['assumptions'] = list(getattr(check, 'ASSUMPTIONS', [])) + BASE_ASSUMPTIONS
    ev['wall_s'] = round(time.time() - t_start, 2)
    ev['violations'] = 1 if violation else 0
    rc = 0
    for fid, (k, scn, inp, msg) in sorted(known_hit.items()):
        print(f'KNOWN-FINDING: property={check_id} {k["what"]}')
    if violation:
        d = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f'{check_id}.json')
        violation['property'] = check_id
        violation['tier'] = tier
        violation['rerun'] = f'cd {VERIF} && /opt/venv/bin/python run.py {check_id} --tier {tier} --replay {p}'
        with open(p, 'w') as f:
            json.dump(violation, f, indent=1, default=str)
        ev['coverage']['violation'] = violation
        print(f'{check_id}: {violation["scenario"]}: {violation["message"]}')
        print(f'  inputs: {str(violation["inputs"])[:2000]}')
        print(f'VIOLATION property={check_id} replay={p}')
        rc = 1
    _write_evidence(check_id, ev)
    print(f'{check_id} [{tier}] paths={n_paths} ok={ev["coverage"]["states"]} queries={tot["queries"]} '
          f'solver={tot["solver_s"]:.1f}s validated={validated} exhausted={exhausted} '
          f'undecided={sum(undecided_notes.values())} wall={ev["wall_s"]:.1f}s rc={rc}')
    if verbose:
        for k, v in per.items():
            print('  ', k, v)
        for k, v in undecided_notes.items():
            print('   undecided', v, k)
        for n in nonrepro[:4]:
            print('   NONREPRO', n)
        if vac:
            print('   VACUOUS', vac)
    return rc


BASE_ASSUMPTIONS = [
    'Python ints are mathematical integers and floats are exact reals in the symbolic run (replays use IEEE doubles)',
    'sqlite3, scipy.sparse, sklearn, tensorflow and matplotlib are small stand-ins in the symbolic run; every '
    'counterexample and a sample of passing paths is replayed on the real libraries',
    'random draws, task order of thread pools and the clock are arbitrary values (path inputs) in both runs',
]
