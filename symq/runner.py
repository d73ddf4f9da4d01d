"""Scheduling, replay, validation, evidence."""
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import random
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = sys.executable


class H:
    """A harness: fn(env, **cfg), with its configurations per tier."""

    def __init__(self, name, fn, quick, thorough=None, bounds='', stubs=(),
                 path_s=60, setup=None, nl_timeout_ms=8000, replay_s=60,
                 may_be_inconclusive=False):
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = (thorough if thorough is not None else [])
        self.bounds = bounds
        self.stubs = list(stubs)
        self.path_s = path_s
        self.setup = setup
        self.nl_timeout_ms = nl_timeout_ms
        self.replay_s = replay_s

    def configs(self, tier):
        if tier == 'quick':
            return list(self.quick)
        seen = list(self.quick)
        for c in self.thorough:
            if c not in seen:
                seen.append(c)
        return seen


# ------------------------------------------------------------------- set-up
def load_check(prop, symbolic):
    """Import the check module (and with it the code under test)."""
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(20000)
    import warnings
    warnings.simplefilter('ignore')
    if symbolic:
        # the solver lives in the tooling venv; the code under test's
        # dependencies come from its own venv (earlier on sys.path)
        import gmpy2
        import numpy  # noqa: F401  (the repo's)
        sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
        from . import engine, shims
        from sympy import QQ  # noqa: F401
        from sympy.polys.rings import ring
        ring(['y0'], QQ)
        from . import poly
        poly._small_ring(1)
        poly.key_factors((((), -1), ((0, 0), 1)))
        del gmpy2
        shims.install(engine)
    sys.path.insert(0, REPO)
    import logging
    logging.disable(logging.CRITICAL)
    import importlib
    import plycutter
    assert os.path.abspath(plycutter.__file__).startswith(
        os.path.abspath(REPO) + os.sep), plycutter.__file__
    m = importlib.import_module('checks.' + prop)
    if symbolic:
        shims.late(engine)
    if not symbolic:
        from . import shims
        shims.concrete_patches()
    return m


# ----------------------------------------------------------- concrete server
def innermost(tb):
    fr = traceback.extract_tb(tb)
    return fr[-1].filename if fr else ''


def in_repo(tb):
    """Was code under test (or a library it called) active at the raise?"""
    fr = traceback.extract_tb(tb)
    for f in reversed(fr):
        p = os.path.abspath(f.filename)
        if p.startswith(VERIF + os.sep):
            # frames of the engine below the code under test do not count
            if '/symq/' in p and not p.endswith('runner.py'):
                continue
            return False
        if p.startswith(os.path.abspath(REPO) + os.sep):
            return True
    return False


def concrete_run(h, cfg, assign, limit):
    from .env import ConcEnv, CheckFailed, AssumeFailed, serial
    env = ConcEnv(assign)

    class _TO(BaseException):
        pass

    def onalarm(*_a):
        raise _TO()
    signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        try:
            h.fn(env, **cfg)
            out = {'outcome': 'ok'}
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except CheckFailed as e:
        out = {'outcome': 'failed', 'label': e.label}
    except AssumeFailed as e:
        out = {'outcome': 'assume', 'label': str(e)}
    except _TO:
        out = {'outcome': 'timeout'}
    except (Exception, SystemExit) as e:
        out = {'outcome': 'exception' if in_repo(e.__traceback__)
               else 'harness-error',
               'label': '%s: %s' % (type(e).__name__, str(e)[:300]),
               'tb': traceback.format_exc()[-3000:]}
    out['obs'] = [[k, serial(v)] for k, v in env.obs]
    out['labels'] = env.labels
    return out


def parse_assign(a):
    from gmpy2 import mpq
    return {k: mpq(v) for k, v in a.items()}


def serve(prop):
    import contextlib
    out = os.fdopen(os.dup(1), 'w')
    devnull = open(os.devnull, 'w')
    os.dup2(devnull.fileno(), 1)
    with contextlib.redirect_stdout(devnull):
        m = load_check(prop, symbolic=False)
        hs = {h.name: h for h in m.HARNESSES}
        print('ready', file=out, flush=True)
        for line in sys.stdin:
            q = json.loads(line)
            h = hs[q['harness']]
            r = concrete_run(h, q['config'], parse_assign(q['assign']),
                             q.get('limit', h.replay_s))
            print(json.dumps(r), file=out, flush=True)


class Server:
    def __init__(self, prop):
        env = dict(os.environ)
        env.pop('PYTHONPATH', None)
        self.p = subprocess.Popen(
            [PY, '-B', os.path.join(VERIF, 'run.py'), prop, '--serve'],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True,
            cwd=VERIF, env=env)
        self.ready = False

    def _await(self):
        if not self.ready:
            line = self.p.stdout.readline()
            if line.strip() != 'ready':
                raise RuntimeError('concrete server did not start: %r' % line)
            self.ready = True

    def ask(self, harness, config, assign, limit=None):
        self._await()
        q = {'harness': harness, 'config': config, 'assign': assign}
        if limit:
            q['limit'] = limit
        self.p.stdin.write(json.dumps(q) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError('concrete server died')
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=10)
        except Exception:
            self.p.kill()


# ------------------------------------------------------------------- workers
def worker(conn, hs, seed):
    from . import engine
    from .env import SymEnv, serial
    E = engine
    sys.stdout = open(os.devnull, 'w')
    ctx = E.Ctx(seed)
    E.CTX = ctx
    rng = random.Random(seed * 1000 + os.getpid() % 997)
    npaths = {}
    prof_done = set()

    def onalarm(*_a):
        raise E.PathTimeout()
    signal.signal(signal.SIGPROF, onalarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    import gc
    gc.collect()
    gc.freeze()
    gc.disable()
    count = 0

    def run_path(h, hi, cfg, ci, region, res):
        env = SymEnv(ctx, seed)
        ctx.nl_timeout_ms = h.nl_timeout_ms
        ctx.pending = []
        key = (hi, ci)
        n = npaths.get(key, 0)
        npaths[key] = n + 1
        funcs = None
        if n == 0 and key not in prof_done:
            prof_done.add(key)
            funcs = set()
            base = os.path.abspath(REPO) + '/plycutter/'

            def prof(frame, event, arg):
                if event == 'call':
                    f = frame.f_code
                    if f.co_filename.startswith(base):
                        funcs.add(f.co_filename[len(base):] + ':' +
                                  f.co_qualname)
        viol = None
        try:
            ctx.begin(region)
            if funcs is not None:
                sys.setprofile(prof)
            signal.setitimer(signal.ITIMER_PROF, h.path_s)
            try:
                h.fn(env, **cfg)
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
                if funcs is not None:
                    sys.setprofile(None)
            if ctx.notes.get('unknown'):
                pass
            ctx.stats.paths += 1
            res['labels'] = res.get('labels', {})
            for k, v in ctx.labels.items():
                res['labels'][k] = res['labels'].get(k, 0) + v
            if n < 2 or (n & (n - 1)) == 0 or rng.random() < 0.01:
                res['val'].append({
                    'assign': {k: str(v)
                               for k, v in ctx.assignment().items()},
                    'obs': [[k, serial(v, ctx.sample)] for k, v in ctx.obs],
                    'labels': ctx.labels})
        except E.Violation as e:
            viol = {'label': e.label,
                    'assign': {k: str(v) for k, v in
                               ctx.assignment(e.sample).items()}}
        except E.PathAbort:
            ctx.stats.aborted += 1
        except E.Inconclusive as e:
            ctx.stats.inconclusive += 1
            res['inconclusive'].append(
                {'why': str(e), 'at': where(e.__traceback__),
                 'assign': {k: str(v) for k, v in ctx.assignment().items()}})
        except E.PathTimeout as e:
            viol = {'label': 'no result within %ss' % h.path_s,
                    'timeout': True, 'at': where(e.__traceback__),
                    'assign': {k: str(v)
                               for k, v in ctx.assignment().items()}}
        except RecursionError as e:
            viol = {'label': 'RecursionError', 'at': where(e.__traceback__),
                    'assign': {k: str(v)
                               for k, v in ctx.assignment().items()}}
        except (Exception, SystemExit) as e:
            if in_repo(e.__traceback__):
                viol = {'label': 'exception %s: %s' % (
                    type(e).__name__, str(e)[:200]),
                    'at': where(e.__traceback__),
                    'assign': {k: str(v)
                               for k, v in ctx.assignment().items()}}
            else:
                ctx.stats.inconclusive += 1
                res['inconclusive'].append(
                    {'why': 'harness error: ' + traceback.format_exc()[-1500:],
                     'assign': {k: str(v)
                                for k, v in ctx.assignment().items()}})
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            sys.setprofile(None)
        if funcs is not None:
            res['funcs'] = sorted(funcs)
        if viol is not None:
            viol['harness'] = h.name
            viol['config'] = cfg
            res['viol'].append(viol)

    last = None
    while True:
        msg = conn.recv()
        if msg is None:
            break
        hi, ci, cfg, packed, slice_s = msg
        if last != (hi, ci):
            last = hi, ci
            ctx.probes = 0
        h = hs[hi]
        stack = [E.Region.unpack(t) for t in packed]
        st0 = ctx.stats.as_dict()
        res = {'val': [], 'inconclusive': [], 'viol': []}
        t0 = time.time()
        while stack and time.time() - t0 < slice_s:
            r = stack.pop()
            run_path(h, hi, cfg, ci, r, res)
            count += 1
            if count % 300 == 0:
                gc.collect()
            stack.extend(ctx.pending)
            ctx.pending = []
            if res['viol']:
                break
        st1 = ctx.stats.as_dict()
        res['stats'] = {k: st1[k] - st0[k] for k in st1}
        res['busy_s'] = time.time() - t0
        conn.send((hi, ci, [r.pack() for r in stack], res))


def where(tb):
    out = []
    for f in traceback.extract_tb(tb)[-6:]:
        out.append('%s:%d %s' % (f.filename.replace(REPO, '').replace(
            VERIF, 'verif'), f.lineno, f.name))
    return ' < '.join(reversed(out))


# -------------------------------------------------------------------- master
def main(prop, tier, seed, only=None, jobs=None, deadline=None, verbose=False):
    t_start = time.time()
    if deadline is None:
        deadline = 800 if tier == 'quick' else 6 * 3600
    server = Server(prop)
    m = load_check(prop, symbolic=True)
    hs = list(m.HARNESSES)
    from . import engine as E
    jobs = jobs or int(os.environ.get('VERIF_JOBS', '0')) or os.cpu_count()
    root = E.Region({}, [], {}, 0, {}).pack()
    todo = []
    cfgs = {}
    per = {}
    for hi, h in enumerate(hs):
        if only and h.name not in only.split(','):
            continue
        for ci, c in enumerate(h.configs(tier)):
            cfgs[hi, ci] = c
            todo.append((hi, ci, [root]))
            per[hi, ci] = {'paths': 0, 'open': 1, 'labels': {}, 'busy': 0.0}
    todo.reverse()
    mpc = mp.get_context('fork')
    conns = []
    procs = []
    for _ in range(jobs):
        a, b = mpc.Pipe()
        p = mpc.Process(target=worker, args=(b, hs, seed), daemon=True)
        p.start()
        b.close()
        conns.append(a)
        procs.append(p)
    idle = list(conns)
    busy = {}
    tot = {}
    funcs = set()
    vals = []
    nval = {}
    inconcl = []
    viols = []
    unrepro = []
    confirmed = None
    validated = 0
    val_fail = []
    samples = []
    timed_out = False
    worker_died = None
    last = time.time()
    seen_viol = set()

    def handle_val(limit):
        nonlocal validated, confirmed
        k = 0
        while vals and k < limit:
            hi, ci, v = vals.pop()
            k += 1
            h = hs[hi]
            r = server.ask(h.name, cfgs[hi, ci], v['assign'])
            if r['outcome'] == 'ok' and r['obs'] == v['obs'] and \
                    r['labels'] == v['labels']:
                validated += 1
                if len(samples) < 12:
                    samples.append({'harness': h.name,
                                    'config': short(cfgs[hi, ci]),
                                    'inputs': v['assign'],
                                    'observed': v['obs'][:6]})
            elif r['outcome'] in ('failed', 'exception'):
                # the real code fails the assertion on this path's sample
                # although its symbolic run passed (e.g. inexact arithmetic)
                w = {'harness': h.name, 'config': cfgs[hi, ci],
                     'label': r.get('label'), 'assign': v['assign'],
                     'replay': r}
                kf = match_known(prop, w)
                if kf:
                    w['known'] = kf
                    viols.append(w)
                elif confirmed is None:
                    confirmed = w
            else:
                val_fail.append({'harness': h.name, 'config': cfgs[hi, ci],
                                 'assign': v['assign'], 'symbolic': v['obs'],
                                 'concrete': r})

    try:
        while todo or busy:
            while todo and idle:
                c = idle.pop()
                hi, ci, stack = todo.pop()
                # keep the queue fed: split big stacks
                if len(stack) > 1 and len(todo) < len(idle) + 2:
                    k = min(len(stack), len(idle) + 2)
                    parts = [stack[i::k] for i in range(k)]
                    stack = parts[0]
                    for p in parts[1:]:
                        todo.append((hi, ci, p))
                sl = 0.5 if len(todo) < len(conns) else 3.0
                c.send((hi, ci, cfgs[hi, ci], stack, sl))
                busy[c] = (hi, ci)
            ready = multiprocessing.connection.wait(list(busy), timeout=1.0)
            for c in ready:
                try:
                    hi, ci, stack, res = c.recv()
                except EOFError:
                    worker_died = busy.pop(c)
                    raise RuntimeError('worker died on %s %s' % (
                        hs[worker_died[0]].name, cfgs[worker_died]))
                busy.pop(c)
                idle.append(c)
                pr = per[hi, ci]
                for k, v in res['stats'].items():
                    tot[k] = tot.get(k, 0) + v
                    pr[k] = pr.get(k, 0) + v
                pr['busy'] += res['busy_s']
                for k, v in res.get('labels', {}).items():
                    pr['labels'][k] = pr['labels'].get(k, 0) + v
                funcs.update(res.get('funcs', ()))
                for v in res['val']:
                    n = nval.get((hi, ci), 0)
                    if n < 6:
                        nval[hi, ci] = n + 1
                        vals.append((hi, ci, v))
                for x in res['inconclusive']:
                    x['harness'] = hs[hi].name
                    x['config'] = cfgs[hi, ci]
                    inconcl.append(x)
                if stack:
                    todo.append((hi, ci, stack))
                for v in res['viol']:
                    viols.append(v)
                    sig = (v['harness'], v['label'])
                    h = hs[hi]
                    r = server.ask(v['harness'], v['config'], v['assign'],
                                   limit=max(h.replay_s,
                                             min(2 * h.path_s, 200) if v.get('timeout')
                                             else 0))
                    v['replay'] = r
                    ok = r['outcome'] in ('failed', 'exception') or (
                        r['outcome'] == 'timeout')
                    if ok:
                        kf = match_known(prop, v)
                        if kf:
                            v['known'] = kf
                            continue
                        confirmed = v
                        break
                    if sig not in seen_viol:
                        seen_viol.add(sig)
                    unrepro.append(v)
                if confirmed:
                    break
            if confirmed:
                break
            handle_val(2)
            if confirmed:
                break
            if len(unrepro) > 30 or len(inconcl) > 2000:
                break
            if verbose and time.time() - last > 5:
                last = time.time()
                print('  .. %.0fs paths=%s queue=%d regions=%d queries=%s '
                      'inconcl=%d unrepro=%d' % (
                          time.time() - t_start, tot.get('paths'), len(todo),
                          sum(len(t[2]) for t in todo), tot.get('queries'),
                          len(inconcl), len(unrepro)),
                      file=sys.stderr, flush=True)
            if time.time() - t_start > deadline:
                timed_out = True
                break
        if not confirmed and not timed_out:
            vals.sort(key=lambda t: (t[0], t[1]))
            while vals and time.time() - t_start < deadline + 30:
                handle_val(10)
    finally:
        for c in conns:
            try:
                c.send(None)
            except Exception:
                pass
        for p in procs:
            p.join(timeout=0.2)
            if p.is_alive():
                p.kill()
        server.close()

    wall = time.time() - t_start
    known = [v for v in viols if v.get('known')]
    vacuous = [(hs[hi].name, short(cfgs[hi, ci])) for (hi, ci), pr in
               per.items() if not pr['labels'] and not confirmed and
               not timed_out]
    code = 0
    problems = []
    if confirmed:
        code = 1
    else:
        if unrepro:
            problems.append('%d counterexample(s) did not reproduce on the '
                            'real code, e.g. %s' % (
                                len(unrepro), brief(unrepro[0])))
        if inconcl:
            problems.append('%d inconclusive path(s), e.g. %s' % (
                len(inconcl), brief(inconcl[0])))
        if val_fail:
            problems.append('%d symbolic/concrete disagreement(s), e.g. %s' % (
                len(val_fail), json.dumps(val_fail[0])[:1500]))
        if timed_out:
            problems.append('deadline of %ss reached with regions left' %
                            deadline)
        if vacuous:
            problems.append('harness never reached an assertion: %s' %
                            vacuous[:3])
        if problems:
            code = 2
    write_evidence(m, prop, tier, seed, hs, cfgs, per, tot, funcs, validated,
                   samples, wall, code, problems, confirmed, known)
    for v in known_lines(known, prop):
        print(v)
    if verbose:
        for (hi, ci), pr in per.items():
            print('  %-28s %-60s paths=%d dec=%d q=%d unk=%d solver=%.1fs '
                  'busy=%.1fs' % (
                      hs[hi].name, short(cfgs[hi, ci])[:60],
                      pr.get('paths', 0),
                      pr.get('decisions', 0), pr.get('queries', 0),
                      pr.get('unknown', 0), pr.get('solver_s', 0),
                      pr['busy']))
    print('%s %s: %s; harness configs=%d paths=%d decisions=%d queries=%d '
          '(unsat %d, sat %d, unknown %d) solver=%.1fs validated=%d '
          'wall=%.1fs' % (
              prop, tier, {0: 'HELD', 1: 'VIOLATED', 2: 'INCONCLUSIVE'}[code],
              len(per), tot.get('paths', 0), tot.get('decisions', 0),
              tot.get('queries', 0), tot.get('unsat', 0), tot.get('sat', 0),
              tot.get('unknown', 0), tot.get('solver_s', 0), validated, wall))
    if confirmed:
        path = write_replay(prop, confirmed)
        print('  counterexample: %s' % brief(confirmed))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    for p in problems:
        print('  PROBLEM: ' + p)
    return code


def short(cfg):
    s = json.dumps(cfg, default=str)
    return s if len(s) < 200 else s[:200] + '...'


def brief(v):
    d = {k: v[k] for k in ('harness', 'config', 'label', 'why', 'at',
                           'assign') if k in v}
    if 'replay' in v:
        d['replay'] = {k: v['replay'].get(k) for k in ('outcome', 'label',
                                                       'tb')
                       if v['replay'].get(k)}
    return json.dumps(d, default=str)[:1800]


def write_replay(prop, v):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s.json' % prop)
    with open(path, 'w') as f:
        json.dump({'property': prop, 'harness': v['harness'],
                   'config': v['config'], 'assign': v['assign'],
                   'label': v['label'], 'real_code': v['replay'],
                   'how': 'python run.py %s --replay %s' % (prop, path)},
                  f, indent=1, default=str)
    return path


def replay(prop, path):
    m = load_check(prop, symbolic=False)
    with open(path) as f:
        q = json.load(f)
    hs = {h.name: h for h in m.HARNESSES}
    r = concrete_run(hs[q['harness']], q['config'],
                     parse_assign(q['assign']), 120)
    print(json.dumps(r, indent=1))
    return 1 if r['outcome'] in ('failed', 'exception', 'timeout') else 0


# ------------------------------------------------------------ known findings
def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def match_known(prop, v):
    for k in load_known():
        if k.get('status') != 'open' or k['property'] != prop:
            continue
        if k['harness'] != v['harness']:
            continue
        if k['config'] != v['config']:
            continue
        r = v.get('replay', {})
        if k['outcome'] == r.get('outcome') and \
                k.get('label_prefix', '') == (r.get('label') or '')[
                    :len(k.get('label_prefix', ''))]:
            return k
    return None


def known_lines(known, prop):
    out = []
    for v in known:
        s = 'KNOWN-FINDING: property=%s %s' % (prop, v['known']['what'])
        if s not in out:
            out.append(s)
    return out


# ------------------------------------------------------------------ evidence
def write_evidence(m, prop, tier, seed, hs, cfgs, per, tot, funcs, validated,
                   samples, wall, code, problems, confirmed, known):
    harn = []
    for hi, h in enumerate(hs):
        ks = [k for k in per if k[0] == hi]
        if not ks:
            continue
        lab = {}
        for k in ks:
            for a, b in per[k]['labels'].items():
                lab[a] = lab.get(a, 0) + b
        harn.append({
            'harness': h.name, 'bounds': h.bounds, 'stubs': h.stubs,
            'configurations': len(ks),
            'paths': sum(per[k].get('paths', 0) for k in ks),
            'queries': sum(per[k].get('queries', 0) for k in ks),
            'solver_s': round(sum(per[k].get('solver_s', 0) for k in ks), 2),
            'assertions_reached': lab,
        })
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': m.LEVEL,
        'coverage': {
            'states': tot.get('paths', 0),
            'transitions': tot.get('decisions', 0),
            'traces_validated_against_impl': validated,
            'samples': samples,
            'explanation':
                'states = feasible path regions executed to the end (they '
                'partition the bounded input space); transitions = sign '
                'conditions decided on symbolic values; traces validated = '
                'path samples re-run on the unpatched code with equal '
                'observations.',
            'functions_encoded': sorted(funcs),
            'harnesses': harn,
            'solver_queries': tot.get('queries', 0),
            'solver_unsat': tot.get('unsat', 0),
            'solver_sat': tot.get('sat', 0),
            'solver_unknown': tot.get('unknown', 0),
            'solver_s': round(tot.get('solver_s', 0), 2),
            'assertions_checked': tot.get('checks', 0),
            'assertions_discharged_by_solver_query':
                tot.get('checks_solver', 0),
            'implied_decisions': tot.get('implied', 0),
            'infeasible_paths': tot.get('aborted', 0),
            'inconclusive_paths': tot.get('inconclusive', 0),
            'exhaustive': code == 0,
        },
        'assumptions': list(getattr(m, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': 1 if confirmed else 0,
    }
    if problems:
        ev['coverage']['problems'] = [p[:2000] for p in problems]
    if known:
        ev['coverage']['known_findings_reproduced'] = len(known)
    if confirmed:
        ev['coverage']['counterexample'] = json.loads(
            json.dumps({k: confirmed[k] for k in
                        ('harness', 'config', 'label', 'assign')},
                       default=str))
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
