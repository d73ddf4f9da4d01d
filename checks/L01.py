"""The command line hands on what was asked for and writes the grown plates."""
import argparse
import contextlib
import io
import pathlib
from symq.runner import H
from plycutter import command_line, canned, create_sheetplex, writer
from .common import in_rings, on_rings
from .shapes import geom, rings_of, out_rings
from .minkowski import convex_parts, inside_sum, KERNEL_NOTE

PROPERTY = 'L01'
LEVEL = 'model_checking'
ASSUMPTIONS = [KERNEL_NOTE, 'reading the mesh, finding the plates, the joint '
               'process and writing the file are replaced by recorders (they '
               'are properties of their own)']
OPT = ['thickness', 'min_finger_width', 'max_finger_width', 'support_radius',
       'final_dilation']
DEFAULT = dict(thickness=(6, 1), min_finger_width=(3, 1),
               max_finger_width=(5, 1), support_radius=(12, 1),
               final_dilation=(5, 100))


WORLD = [(-200, -200), (200, -200), (200, 200), (-200, 200)]


class Boom(Exception):
    pass


def fake(env, argv, cuts, sheets=('s0',), fail=None):
    """Run main; what reached each part, in order."""
    log = []
    mesh = object()
    sp = argparse.Namespace(sheets={s: None for s in sheets},
                            intersections={})

    def at(name, *v):
        log.append((name,) + v)
        if fail == name:
            raise Boom(name)

    def load(f, *a, **k):
        at('load', str(f))
        return mesh

    def plex(m, params, *a, **k):
        at('plex', m is mesh, dict(params))
        return sp

    def can(s, params, *a, **k):
        at('can', s is sp, dict(params))
        return argparse.Namespace(ok=True, sheet_cuts=cuts, sheetbuild=None,
                                  history=[], params=params)

    def write(f, geoms, *a, **k):
        at('write', str(f), dict(geoms))
    saved = (command_line.trimesh.load, create_sheetplex.create_sheetplex,
             canned.canned_1, writer.write_dxf)
    command_line.trimesh.load = load
    create_sheetplex.create_sheetplex = plex
    canned.canned_1 = can
    writer.write_dxf = write
    err = None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            with contextlib.redirect_stderr(io.StringIO()):
                command_line.main(argv)
    except (Exception, SystemExit) as e:
        err = e
    finally:
        (command_line.trimesh.load, create_sheetplex.create_sheetplex,
         canned.canned_1, writer.write_dxf) = saved
    return log, err


def passing(env, given):
    """Options given (the others at their defaults)."""
    argv, want = [], {}
    for o in OPT:
        if o in given:
            # the kerf decides the output shape: its own harness
            v = env.Q(0) if o == 'final_dilation' else \
                env.real(o, [1, 100], 1000)
            argv += ['--' + o, env.text(v)]
            want[o] = v
        else:
            want[o] = env.Q(*DEFAULT[o])
    seed = None
    if 'random_seed' in given:
        seed = [0, 1, 42, 123456][env.choice('seed', 4)]
        argv += ['--random_seed', str(seed)]
    at = env.choice('place', 2)
    argv = ['in.stl'] + argv if at else argv + ['in.stl']
    log, err = fake(env, argv, {})
    if err is not None:
        raise err
    env.check([e[0] for e in log] == ['load', 'plex', 'can', 'write'],
              'the file is read, the plates are found, the joints are made '
              'and the drawing is written')
    env.check(log[0][1] == 'in.stl', 'the given file is read')
    env.check(log[1][1] and log[2][1], 'each part gets the result of the one '
              'before')
    for e in log[1:3]:
        for o in OPT:
            env.check(e[2][o] == want[o], 'the numbers given are used as '
                      'they are, else the documented defaults')
        if seed is not None:
            env.check(e[2]['random_seed'] == seed,
                      'the seed given is used')
        else:
            env.check(e[2]['random_seed'] == 42, 'the default seed is 42')
    env.observe('out', log[3][1])


NAMES = ['in.stl', 'a/b.c/in.STL', 'in', 'v1.2.stl', './in.obj']


def output(env):
    """Where the drawing goes."""
    n = NAMES[env.choice('name', len(NAMES))]
    o = [None, 'out.dxf', 'x/y.foo', 'in.DXF'][env.choice('out', 4)]
    short = env.boolean('short')
    argv = [n] + ([] if o is None else
                  ['-o' if short else '--output_file', o])
    log, err = fake(env, argv, {})
    if err is not None:
        raise err
    want = o if o is not None else str(pathlib.Path(n).with_suffix('.dxf'))
    env.check([e[1] for e in log if e[0] == 'write'] == [want],
              'the drawing goes to the given file, else beside the input')


def kerf(env, shapes, lo, hi, given=True):
    """Every plate is written, grown by the kerf."""
    Q = env.Q
    d = env.real('d', lo, hi) if given else Q(5, 100)
    neg = given and lo != 0 and (lo if not isinstance(lo, list)
                                 else lo[0]) < 0
    cuts = {'s%d' % i: geom(env, s) for i, s in enumerate(shapes)}
    argv = ['in.stl'] + (['--final_dilation=' + env.text(d)] if neg else
                         ['--final_dilation', env.text(d)] if given else [])
    log, err = fake(env, argv, cuts, sheets=tuple(cuts))
    if err is not None:
        raise err
    got = [e[2] for e in log if e[0] == 'write']
    env.check(len(got) == 1 and set(got[0]) == set(cuts),
              'every plate is written')
    p = (env.real('px'), env.real('py'))
    for i, s in enumerate(shapes):
        rings = out_rings(got[0]['s%d' % i])
        i = in_rings(env, rings, p)
        off = env.NOT(on_rings(env, rings, p))
        if neg:
            # the rest of the world grows into it
            parts = convex_parts(rings_of(s) + [WORLD])
            env.assume(env.AND(-100 < p[0], p[0] < 100, -100 < p[1],
                               p[1] < 100))
            near = env.OR(*[inside_sum(env, c, p, -d, -1) for c in parts])
            far = env.OR(*[inside_sum(env, c, p, -d, 1) for c in parts])
            env.check(env.IMPLIES(env.AND(off, near), env.NOT(i)),
                      'a written plate is shrunk by a negative kerf')
            env.check(env.IMPLIES(env.AND(off, env.NOT(i)), far),
                      'a written plate is shrunk by no more than the kerf')
            continue
        parts = convex_parts(rings_of(s))
        near = env.OR(*[inside_sum(env, c, p, d, -1) for c in parts])
        far = env.OR(*[inside_sum(env, c, p, d, 1) for c in parts])
        env.check(env.IMPLIES(env.AND(off, near), i),
                  'a written plate is grown by the kerf')
        env.check(env.IMPLIES(env.AND(off, i), far),
                  'a written plate is grown by no more than the kerf')


def failing(env):
    """A failure anywhere reaches the user and leaves no drawing."""
    w = ['load', 'plex', 'can', 'none'][env.choice('where', 4)]
    log, err = fake(env, ['in.stl'], {}, sheets=() if w == 'none' else
                    ('s0',), fail=w)
    env.check(err is not None, 'a failure is reported')
    env.check(not any(e[0] == 'write' for e in log),
              'nothing is written after a failure')
    if w == 'none':
        env.check(not any(e[0] == 'can' for e in log),
                  'a model without plates is refused')
    else:
        env.check(isinstance(err, Boom), 'the failure reported is the one '
                  'that happened')


def k(shapes, lo, hi, **kw):
    return dict(shapes=shapes, lo=lo, hi=hi, **kw)


HARNESSES = [
    H('passing', passing,
      [dict(given=[]), dict(given=['random_seed'])] +
      [dict(given=[o]) for o in OPT] + [dict(given=OPT + ['random_seed'])],
      bounds='each option given alone, none and all; every value in '
             '0.01 .. 1000, before or after the file name'),
    H('output', output, [dict()], bounds='five input names, three output '
      'names'),
    H('kerf', kerf,
      [k(['sq'], [1, 100], 2), k(['frame', 'sq1'], [1, 100], [1, 2]),
       k(['L'], [1, 50], [1, 5]), k(['sq'], [-1, 2], [-1, 100]), k(['sq', 'frame'], 0, 0, given=False),
       k(['sq'] * 16, 0, 0, given=False)],
      [k(['frame', 'sq1'], [1, 100], 2), k(['L'], [1, 100], 1),
       k(['skew', 'tri'], [1, 100], [1, 2]),
       k(['dhole'], [1, 100], 1), k(['sq', 'L'], [-1, 2], [-1, 100]), k(['island'], [1, 100], [1, 2])],
      bounds='one or two plates (sixteen at the default kerf) of concrete shape, every kerf in the range '
      '(positive or negative)',
      path_s=120),
    H('failing', failing, [dict()], bounds='failure in any of the parts'),
]
