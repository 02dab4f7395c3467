"""P26: the haversine and its inverse."""
import itertools
import math

from mc.gen import np
from ocbpy import ocb_scaling

TECHNIQUE = ('exhaustive evaluation of both functions on grids of angles and '
             'haversines, around every limit (zero, the smallest accepted '
             'value, one, whole turns), in every shape and container and all '
             'pairs and triples of elements, on the real code against the '
             'definition one value at a time')
ORACLE = ('square of the sine of the half angle and its inverse in plain '
          'Python; undefined for negative and undefined haversines; there and '
          'back again')
BOUND = {'quick': '2,900 angles from -8 pi to 8 pi, 3,000 haversines and 40 '
                  'values beside the limits; all triples of 12 values; 9 '
                  'shapes, 6 containers',
         'thorough': '200,000 angles and haversines; all 4-tuples of 12 '
                     'values'}
NAN = float('nan')
EDGE = [0.0, -0.0, 1.0000001e-16, 0.9999999e-16, -1e-17, -0.9999999e-16,
        1e-17, 5e-324, -5e-324, 1e-15, 1e-12, 1e-9, 1e-3, 0.25, 0.5, 0.75,
        1.0 - 1e-16, 1.0 - 1e-12, 1.0, NAN, -1.1e-16, -1e-15, -1e-3, -1.0,
        -0.25, -5.0]
SMALL = [0.0, 1e-17, -1e-17, 1e-15, 0.25, 0.5, 1.0, 0.1, NAN, -1e-15, -1.0,
         -0.25]


def want_hav(alpha):
    if alpha != alpha:
        return NAN
    return math.sin(alpha / 2.0) ** 2


def want_archav(hav):
    if hav != hav or hav <= -1.0e-16:
        return NAN
    if abs(hav) < 1.0e-16:
        return 0.0
    return 2.0 * math.asin(math.sqrt(hav))


def same(name, got, want):
    """Equal to rounding, for angles of small numbers too."""
    got = float(got)
    if want != want:
        return got != got
    tol = 1e-9 * abs(want) + (5e-16 if name == 'hav' else 1e-30)
    return got == got and abs(got - want) <= tol or (
        abs(want) > 3.14 and abs(got - want) < 1e-7)


def compare(rep, case, func, arg, shape, wants):
    rep.step(1, func.__name__)
    rep.state([func.__name__, case])
    with np.errstate(all='ignore'):
        got = func(arg)
    if np.shape(got) != shape:
        rep.violate(case, func.__name__ + ' shape', np.shape(got), shape)
        return
    flat = np.asarray(got, dtype=float).ravel()
    bad = [i for i, w in enumerate(wants) if not same(func.__name__, flat[i], w)]
    if bad:
        rep.violate(case, func.__name__, [float(flat[i]) for i in bad[:5]],
                    [wants[i] for i in bad[:5]])
    rep.trace(case, list(wants)[:4])


FUNCS = [(ocb_scaling.hav, want_hav), (ocb_scaling.archav, want_archav)]


def values(params, rep):
    num = 1450 if params['tier'] == 'quick' else 100000
    angles = [8.0 * math.pi * i / num for i in range(-num, num + 1)] + [
        k * math.pi + d for k in range(-4, 5)
        for d in (0.0, 1e-12, -1e-12, 1e-7, -1e-7)] + [1e-9, 1e-12, NAN]
    havs = [i / (2.0 * num) for i in range(2 * num + 1)] + [
        10.0 ** -(i / 4.0) for i in range(80) if i != 64] + EDGE
    for (func, want), vals in zip(FUNCS, (angles, havs)):
        wants = [want(v) for v in vals]
        compare(rep, [func.__name__, 'grid'], func, np.array(vals),
                (len(vals),), wants)
        for v, w in zip(vals, wants):
            compare(rep, [func.__name__, v], func, v, (), [w])
            compare(rep, [func.__name__, v, 'one'], func, [v], (1,), [w])
    # there and back
    for ang in angles:
        rep.step(2, 'there and back')
        turn = abs(math.remainder(ang, 2.0 * math.pi)) if ang == ang else NAN
        with np.errstate(all='ignore'):
            back = float(ocb_scaling.archav(ocb_scaling.hav(ang)))
        if ang == ang and abs(back - turn) > 1e-7 or ang != ang and \
           back == back:
            rep.violate(['back', ang], 'angle there and back', back, turn)


def mixtures(params, rep):
    num = 3 if params['tier'] == 'quick' else 4
    for vals in itertools.chain.from_iterable(
            itertools.product(SMALL, repeat=n) for n in range(num + 1)):
        for func, want in FUNCS:
            compare(rep, list(vals), func, np.array(vals, dtype=float),
                    (len(vals),), [want(v) for v in vals])
    for shape in ((), (1,), (1, 1), (3,), (2, 3), (3, 2), (2, 1, 2), (0,),
                  (0, 2)):
        size = int(np.prod(shape))
        for start in range(len(EDGE)):
            vals = [EDGE[(start + k) % len(EDGE)] for k in range(size)]
            for func, want in FUNCS:
                compare(rep, [list(shape), start], func,
                        np.array(vals, dtype=float).reshape(shape), shape,
                        [want(v) for v in vals])
    ints = [0, 1, 1, 0]
    for name, make in (('list', list), ('tuple', tuple),
                       ('integers', lambda v: np.array(v)),
                       ('reversed', lambda v: np.array(v[::-1])[::-1]),
                       ('read-only', readonly), ('float32', lambda v: np.array(
                           v, dtype=np.float32))):
        for func, want in FUNCS:
            arg = make(ints)
            compare(rep, [name], func, arg, (4,), [want(v) for v in ints]) \
                if name != 'float32' or func is ocb_scaling.archav else None
            if list(arg) != ints:
                rep.violate([name], 'argument altered', list(arg), ints)
    for val in (0, 1):
        for func, want in FUNCS:
            compare(rep, ['int', val], func, val, (), [want(val)])


def readonly(vals):
    out = np.array(vals, dtype=float)
    out.flags.writeable = False
    return out


def jobs(tier):
    return [('values', {'tier': tier}), ('mixtures', {'tier': tier})]
