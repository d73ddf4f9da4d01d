"""The process hands every step's result on and never hides a failure."""
import contextlib
import inspect
import io
import types
from symq.runner import H
from plycutter import canned
from plycutter import heuristics as heu
from plycutter.geometry.geom1d import Geom1D
from plycutter.geometry.geom2d import Geom2D
from .common import in_ivs
from .model import corner, rect
from .shapes import out_rings

PROPERTY = 'L02'
LEVEL = 'model_checking'
ASSUMPTIONS = ['the joint steps are replaced by recorders that take a piece '
               'out of a plate, fail or spoil the state (the steps are '
               'properties of their own)']


class Boom(Exception):
    pass


def steps():
    """The joint steps: functions of the state and the parameters."""
    out = []
    for n, f in sorted(vars(heu).items()):
        if n.startswith('_') or not isinstance(f, types.FunctionType) or \
                f.__module__ != heu.__name__:
            continue
        ps = list(inspect.signature(f).parameters)
        if len(ps) >= 2 and ps[0] == 'sb':
            out.append((n, f))
    return out


@contextlib.contextmanager
def stubs(fn):
    """All steps call fn(name, sb, params). The code is exchanged, so that
    it does not matter how a caller got hold of the step."""
    saved = []
    vars(heu)['_symq_step'] = fn
    try:
        for n, f in steps():
            ns = {}
            exec('def g(sb, params=None):\n'
                 '    return _symq_step(%r, sb, params)\n' % n, ns)
            saved.append((f, f.__code__, f.__defaults__))
            f.__code__ = ns['g'].__code__
            f.__defaults__ = (None,)
        yield
    finally:
        for f, c, d in saved:
            f.__code__, f.__defaults__ = c, d
        del vars(heu)['_symq_step']


def run(env, sp, params, act, show=None):
    """Run the process; act(k, sb) gives the k-th step's result."""
    log = []

    def step(name, sb, params):
        log.append((name, sb, params, None))
        r = act(len(log) - 1, sb)
        log[-1] = (name, sb, params, r)
        return r
    err = res = None
    kw = {}
    seen = []
    saved = canned.do_show
    if show is not None:
        kw['show'] = show
        canned.do_show = lambda stage, sb: seen.append(sb)
    try:
        with stubs(step):
            res = canned.canned_1(sp, params, **kw)
    except Exception as e:
        err = e
    finally:
        canned.do_show = saved
    return log, res, err, seen


def cut_out(env, sb, k, w):
    """The k-th step's piece becomes impossible."""
    return sb.unchoose_sheet_area(
        's0', rect(env, 1, k, 1 + w, k + env.Q(1, 2)))


def same_area(env, a, b):
    """Two shapes hold the same points."""
    if a is b:
        return True
    return (a - b).is_empty() and (b - a).is_empty()


def prm(env, rof):
    p = dict(support_radius=env.Q(12), min_finger_width=env.Q(3),
             max_finger_width=env.Q(5), random_seed=5)
    if rof is not None:
        p['return_on_failure'] = rof
    return p


def smooth(env):
    """Nothing fails."""
    w = env.real('w', [3, 2], 3)
    rof, show = [(None, None), (False, False), (True, True)][
        env.choice('switches', 3)]
    sp = corner(env)
    p = prm(env, rof)
    log, res, err, seen = run(env, sp, p,
                              lambda k, sb: sb if k % 4 == 2 else
                              cut_out(env, sb, k, w if k == 3 else 2), show)
    if err is not None:
        raise err
    env.check(len(log) >= 1, 'the joint steps are run')
    env.check(res.ok is True, 'a process without failures succeeds')
    for i, e in enumerate(log):
        env.check(dict(e[2]) == p, 'every step gets the parameters')
        if i:
            prev = log[i - 1][3]
            env.check(same_area(env, e[1].sheet_ok['s0'],
                                prev.sheet_ok['s0']),
                      'every step goes on from the result of the one before')
    x, y = env.real('x', 0, 6), env.real('y', 0, 20)
    final = res.sheetbuild
    n = len(log)
    gone = []
    for k in range(n):
        if k % 4 == 2:
            continue
        d = w if k == 3 else 2
        for v in (1, 1 + d):
            env.assume(x != v)
        for v in (k, k + env.Q(1, 2)):
            env.assume(y != v)
        gone.append(env.AND(1 < x, x < 1 + d, k < y,
                            y < k + env.Q(1, 2)))
    env.assume(env.AND(0 < x, x < 6, 0 < y, y < 20))
    from .common import in_rings
    got = in_rings(env, out_rings(final.sheet_ok['s0']), (x, y))
    env.check(env.IFF(got, env.NOT(env.OR(*gone))),
              'the result holds what every step did')
    env.check(set(res.sheet_cuts) == {'s0', 's1'} and
              all(same_area(env, res.sheet_cuts[s], final.sheet_chosen[s])
                  for s in ('s0', 's1')),
              'the plates handed out are those of the final state')
    env.check(res.params == p, 'the result tells the parameters used')
    h = list(res.history)
    env.check(same_area(env, h[-1].sheet_ok['s0'], final.sheet_ok['s0']),
              'the history ends with the result')
    env.check(len(h) > len(log) and all(
        same_area(env, a.sheet_ok['s0'], e[1].sheet_ok['s0'])
        for a, e in zip(h[-1 - len(log):-1], log)),
        'the history holds the state each step started from')


def failing(env, places):
    """The step at some point fails."""
    rof = [None, False, True][env.choice('rof', 3)]
    at = places[env.choice('at', len(places))]
    kind = [Boom, AssertionError, KeyError, ZeroDivisionError][
        env.choice('kind', 4)] if at == 5 else Boom
    states = []

    def act(k, sb):
        states.append(sb)
        if k == at:
            raise kind('it')
        return cut_out(env, sb, k, 2)

    class Broken:
        def __getattr__(self, n):
            raise Boom('it')
    sp = Broken() if at < 0 else corner(env)
    log, res, err, seen = run(env, sp, prm(env, rof), act)
    if at >= 0 and len(log) <= at:
        # fewer steps: nothing failed
        env.check(True, 'no failure is taken for success')
        return
    if rof is True:
        if err is not None:
            raise err
        env.check(res.ok is False, 'no failure is taken for success')
        if at >= 0:
            env.check(same_area(env, res.sheetbuild.sheet_ok['s0'],
                                states[at].sheet_ok['s0']),
                      'a failed result holds the last completed step')
            env.check(len(log) == at + 1, 'nothing is run after a failure')
    else:
        env.check(err is not None and res is None,
                  'no failure is taken for success')
        env.check(type(err) is kind and err.args == ('it',),
                  'the failure reported is the one that happened')
        env.check(len(log) == at + 1, 'nothing is run after a failure')


def spoil(env, what):
    """A step leaves an inconsistent state behind."""
    a = env.real('a', 0, 5)
    last = env.choice('which', 2)
    n = [0]
    # the number of steps
    log, res, err, seen = run(env, corner(env), prm(env, False),
                              lambda k, sb: sb)
    if err is not None:
        raise err
    at = len(log) - 1 if last else 2

    def bad(sb):
        if bool(a == 0):
            return sb
        if what == 'plate':
            # chosen material where none is possible
            r = rect(env, 8, 5, 9, 5 + a)
            return sb.set('sheet_ok', sb.sheet_ok.set(
                's0', sb.sheet_ok['s0'] - r)).set(
                'sheet_chosen', sb.sheet_chosen.set(
                    's0', sb.sheet_chosen['s0'] | r))
        one, two = ('s0,s1', 's0'), ('s0,s1', 's1')
        iv = Geom1D([[env.Q(5), 5 + a]]) if bool(a > 0) else Geom1D.empty()
        if what == 'joint':
            # a chosen joint range that is not possible
            sb = sb.set('interside_chosen', sb.interside_chosen.set(one, iv))
            return sb.set('interside_ok', sb.interside_ok.set(
                one, sb.interside_ok[one] - iv).set(
                two, sb.interside_ok[two] - iv))
        # chosen for one side, possible for the other
        return sb.set('interside_chosen', sb.interside_chosen.set(one, iv))

    def act(k, sb):
        return bad(sb) if k == at else sb
    log, res, err, seen = run(env, corner(env), prm(env, False), act)
    if bool(a >= env.Q(1, 1000)):
        env.check(err is not None and res is None,
                  'an inconsistent result is refused')
    elif bool(a == 0):
        if err is not None:
            raise err
        env.check(res.ok is True, 'a consistent result is accepted')


HARNESSES = [
    H('smooth', smooth, [dict()], bounds='every step takes a piece of '
      'symbolic width; all combinations of the two switches'),
    H('failing', failing, [dict(places=[-1, 0, 5, 11])],
      [dict(places=list(range(-1, 13)))],
      bounds='failure before or at any of the first 13 steps (quick: four '
             'places), four kinds of error'),
    H('spoil', spoil, [dict(what='plate'), dict(what='joint'),
                       dict(what='other')],
      bounds='one inconsistency of symbolic size, early or in the last '
             'step'),
]
