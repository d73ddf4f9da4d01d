"""Point location is right for every point."""
from symq.runner import H
from .common import in_rings, on_rings
from .shapes import geom, qrings, out_rings

PROPERTY = 'D04'
LEVEL = 'model_checking'
ASSUMPTIONS = []


def judge(env, g, rings, p, what):
    got = g.locate(p)
    env.observe('at', int(got))
    on = on_rings(env, rings, p)
    ins = in_rings(env, rings, p)
    if got == 1:
        env.check(env.AND(env.NOT(on), ins), what + ': located in means in')
    elif got == -1:
        env.check(env.AND(env.NOT(on), env.NOT(ins)),
                  what + ': located out means out')
    elif got == 0:
        env.check(on, what + ': located on a border means on a border')
    else:
        env.fail(what + ': the answer is -1, 0 or 1')


def shape(env, s):
    """A shape, and any point."""
    g = geom(env, s)
    judge(env, g, qrings(env, s), (env.real('px'), env.real('py')), 'shape')


def line(env, s, o, d, sd, lo, hi):
    """The point moves on a line while the shape moves too."""
    t = env.real('t', lo, hi)
    u = env.real('u', -2, 2)
    off = (sd[0] * u, sd[1] * u)
    p = (o[0] + d[0] * t, o[1] + d[1] * t)
    judge(env, geom(env, s, off), qrings(env, s, off), p, 'moving shape')


def result(env, a, b, off, op):
    """A result of set operations, and any point."""
    Q = env.Q
    A, B = geom(env, a), geom(env, b, (Q(off[0]), Q(off[1])))
    g = {'or': lambda: A | B, 'and': lambda: A & B,
         'sub': lambda: A - B}[op]()
    judge(env, g, out_rings(g), (env.real('px'), env.real('py')), 'result')


SH = ['sq', 'tri', 'L', 'U', 'frame', 'dhole', 'island', 'two', 'checker',
      'nest', 'trihole', 'hole2', 'many']
RES = [('sq', 'diamond', (1, 1), 'or'), ('U', 'wide', (-1, 4), 'or'),
       ('frame', 'sq2', (1, 2), 'sub'), ('nest', 'wide', (1, 4), 'sub'),
       ('comb', 'wide', (-1, 2), 'or'), ('island', 'frame', (1, 1), 'and')]
HARNESSES = [
    H('shape', shape, [dict(s=s) for s in SH],
      [dict(s=s) for s in ('skew', 'diamond', 'colin', 'comb')],
      bounds='13 (17) concrete shapes, every point of the plane'),
    H('line', line,
      [dict(s='dhole', o=(-1, 1), d=(1, 1), sd=(1, 0), lo=0, hi=8),
       dict(s='island', o=(4, -1), d=(0, 1), sd=(1, 1), lo=0, hi=10)],
      [dict(s='nest', o=(-1, 2), d=(2, 1), sd=(0, 1), lo=0, hi=6),
       dict(s='trihole', o=(0, 0), d=(1, 1), sd=(1, -1), lo=-3, hi=10),
       dict(s='comb', o=(-1, 2), d=(1, 0), sd=(1, 1), lo=0, hi=8)],
      bounds='the point slides on a line while the shape slides too'),
    H('result', result, [dict(a=a, b=b, off=o, op=op)
                         for a, b, o, op in RES[:4]],
      [dict(a=a, b=b, off=o, op=op) for a, b, o, op in RES],
      bounds='results of operations on concrete shapes, every point'),
]
