"""P09: angle and local time arithmetic is cyclic, in range and invertible."""
import datetime as dt
import itertools
import math
from fractions import Fraction

from mc import gen
from mc.gen import np
from ocbpy import ocb_time

TECHNIQUE = ('exhaustive evaluation of the conversion functions on grids of '
             'values around every multiple of the period (including values '
             'one ulp from it), ranges, instants, shapes and containers, '
             'against exact rational arithmetic')
ORACLE = ('result lies in the half-open interval, is congruent to the exact '
          'conversion, equals the input when that is inside, is the same '
          'alone or in an array and converts back')
BOUND = {'quick': 'values: 31 offsets within a turn x -4..4 turns x 7 '
                  'perturbations plus large magnitudes and NaN; 18 ranges x '
                  '8 moduli; all pairs of 40 values in arrays; 6 shapes; 10 '
                  'containers; 1440 instants',
         'thorough': '-12..12 turns, 97 offsets, every second of the day, '
                     'all triples of values'}
ASSUMPTIONS = ['a value range larger than the interval has no unique answer '
               'and is not explored']
NAN = float('nan')
PI2 = 2.0 * math.pi


def values(period, turns, noff):
    """Values at and around multiples and fractions of a period."""
    out = []
    for k in range(-turns, turns + 1):
        for i in range(noff):
            base = period * (k + i / float(noff))
            out.append(base)
            if i in (0, noff // 2):
                scale = max(abs(base), 1.0)
                for eps in (1.0e-16, 1.0e-13, 1.0e-9, 1.0e-5):
                    out.extend([base - eps * scale, base + eps * scale])
                out.extend([float(np.nextafter(base, -1e9)),
                            float(np.nextafter(base, 1e9))])
    out.extend([0.0, -0.0, 5e-324, -5e-324, -1.0e-20, 1.0e-20, 1.0, -1.0,
                period * 41.25, -period * 40.75, period * 300.0,
                -period * 299.0])
    seen, uniq = set(), []
    for v in out:
        if v not in seen:
            seen.add(v)
            uniq.append(v)
    return uniq


def cyc(got, want, period, tol):
    """Distance modulo the period"""
    diff = abs(got - want) % period
    return min(diff, period - diff) <= tol


def tolerance(v, scale):
    return 1.0e-9 * max(1.0, abs(scale)) + 1.0e-12 * abs(v)


def verify(rep, case, v, got, want, lo, hi, period):
    """One element"""
    got = float(got)
    if v != v:
        if got == got:
            rep.violate(case, 'undefined value does not stay undefined', got)
        return
    if not lo <= got < hi:
        rep.violate(case, 'result is outside of [%r, %r)' % (lo, hi), got,
                    want)
    elif not cyc(got, want, period, tolerance(want, period)):
        rep.violate(case, 'result is not congruent modulo %r' % period, got,
                    want)
    elif lo + 1e-9 <= want < hi - 1e-9 and abs(got - want) > tolerance(
            want, period):
        rep.violate(case, 'value inside of the interval changed', got, want)


def same(a, b):
    return a == b or (a != a and b != b)


def run(rep, name, func, vals, conv, lo, hi, period, extra=None):
    """All values as scalars, as an array and in other shapes."""
    tag = dict(extra or {}, func=name)
    single = []
    for v in vals:
        res = func(v)
        rep.step(1, name)
        case = dict(tag, value=v)
        if np.ndim(res) != 0:
            rep.violate(case, 'scalar input does not give a scalar', res)
            single.append(NAN)
            continue
        single.append(float(res))
        verify(rep, case, v, res, conv(v), lo, hi, period)
        rep.state((name, tag, v))
    rep.trace(dict(tag, value=vals[-1]), single[-1])
    arr = np.array(vals, dtype=float)
    ref = np.array(single)
    shapes = [(len(vals),), (len(vals), 1), (1, len(vals))]
    if len(vals) % 2 == 0:
        shapes.extend([(2, len(vals) // 2), (len(vals) // 2, 2),
                       (2, 1, len(vals) // 2)])
    for shape in shapes:
        for order in ('C', 'F'):
            src = np.array(arr.reshape(shape), order=order)
            res = np.asarray(func(src))
            rep.step(1, name)
            case = dict(tag, shape=shape, order=order)
            if res.shape != shape:
                rep.violate(case, 'shape is not kept', res.shape, shape)
                continue
            bad = [(v, g, w) for v, g, w in zip(vals, res.ravel(), ref)
                   if not same(g, w)]
            if bad:
                rep.violate(case, 'array differs from elements alone (value, '
                            'array, alone)', bad[:3])
            rep.trace(case, None)
    for kind, cont in gen.containers(vals):
        res = np.asarray(func(cont))
        rep.step(1, name)
        bad = [(v, g, w) for v, g, w in zip(vals, res.ravel(), ref)
               if not same(g, w)]
        if bad or res.shape != (len(vals),):
            rep.violate(dict(tag, container=kind), 'container changes result '
                        '(value, got, alone)', bad[:3])
        rep.trace(None, None)
    for empty in (np.array([]), []):
        res = np.asarray(func(empty))
        rep.step(1, name)
        if res.shape != (0,):
            rep.violate(dict(tag, empty=type(empty).__name__),
                        'empty input does not give empty output', res)


def sizes(tier):
    return (4, 31) if tier == 'quick' else (12, 97)


def convert(params, rep):
    turns, noff = sizes(params['tier'])
    name = params['name']
    if name == 'deg2hr':
        vals = values(360.0, turns, noff) + values(15.0, 2, 4) + [NAN]
        run(rep, name, ocb_time.deg2hr, vals, lambda v: v / 15.0, 0.0, 24.0,
            24.0)
    elif name == 'rad2hr':
        vals = values(PI2, turns, noff) + [NAN]
        run(rep, name, ocb_time.rad2hr, vals, lambda v: v * 12.0 / math.pi,
            0.0, 24.0, 24.0)
    elif name == 'hr2rad':
        vals = values(24.0, turns, noff) + [NAN]
        run(rep, name, ocb_time.hr2rad, vals, lambda v: v * math.pi / 12.0,
            0.0, PI2, PI2)
        for mx in (PI2, math.pi, 0.5 * math.pi, 3.0 * math.pi, 0.0, 1.0,
                   -1.0, 7.0):
            run(rep, name, lambda v: ocb_time.hr2rad(v, max_range=mx), vals,
                lambda v: v * math.pi / 12.0, mx - PI2, mx, PI2,
                {'max_range': mx})
    elif name == 'hr2deg':
        vals = values(24.0, turns, noff) + [NAN]
        run(rep, name, ocb_time.hr2deg, vals, lambda v: v * 15.0, -180.0,
            360.0, 360.0)
        for mn, mx in ((0.0, 360.0), (-180.0, 180.0), (-180.0, 360.0),
                       (0.0, 180.0), (90.0, 450.0), (-360.0, 0.0),
                       (-90.0, 90.0), (0, 360), (-180, 180), (-360.0, 720.0),
                       (10.0, 300.0), (-180.0, 179.0)):
            lo = mn if mx - mn >= 360.0 else mx - 360.0
            run(rep, name,
                lambda v: ocb_time.hr2deg(v, min_deg=mn, max_deg=mx), vals,
                lambda v: v * 15.0, lo, mx, 360.0, {'range': [mn, mx]})


def whole(params, rep):
    """Integer values, every conversion"""
    turns = 3 if params['tier'] == 'quick' else 8
    for name, func, conv, lo, hi, period, span in (
            ('deg2hr', ocb_time.deg2hr, lambda v: v / 15.0, 0.0, 24.0, 24.0,
             360),
            ('rad2hr', ocb_time.rad2hr, lambda v: v * 12.0 / math.pi, 0.0,
             24.0, 24.0, 7),
            ('hr2rad', ocb_time.hr2rad, lambda v: v * math.pi / 12.0, 0.0,
             PI2, PI2, 24),
            ('hr2deg', ocb_time.hr2deg, lambda v: v * 15.0, -180.0, 360.0,
             360.0, 24),
            ('fix24', lambda v: ocb_time.fix_range(v, 0, 24),
             lambda v: v, 0, 24, 24, 24),
            ('fix24f', lambda v: ocb_time.fix_range(v, 0.5, 24.5),
             lambda v: v, 0.5, 24.5, 24, 24),
            ('fix360', lambda v: ocb_time.fix_range(v, -180, 360, 360),
             lambda v: v, -180, 360, 360, 360),
            ('fix360f', lambda v: ocb_time.fix_range(v, -180.0, 360.0, 360.0),
             lambda v: v, -180, 360, 360, 360)):
        ints = list(range(-turns * span, turns * span + 1))
        floats = []
        for v in ints:
            res = func(float(v))
            floats.append(float(res))
            verify(rep, {'func': name, 'value': v}, v, res, conv(v), lo, hi,
                   period)
            got = func(v)
            rep.step(2, name)
            rep.state((name, v))
            if not same(float(got), float(res)):
                rep.violate({'func': name, 'int': v}, 'integer gives another '
                            'result than the float', got, res)
        for dtype in ('int64', 'int32', 'int16', 'float32'):
            res = np.asarray(func(np.array(ints, dtype=dtype)), dtype=float)
            rep.step(1, name)
            tol = 1.0e-4 if dtype in ('int16', 'float32') else 1.0e-9
            bad = []
            for v, g, w in zip(ints, res, floats):
                if not (cyc(g, w, period, tol * max(1.0, abs(v)))
                        and lo - tol <= g < hi + tol):
                    bad.append((v, g, w))
                elif dtype.startswith('int') and name in (
                        'fix24', 'fix360') and g != w:
                    bad.append((v, g, w))
            if bad:
                rep.violate({'func': name, 'dtype': dtype}, 'data type '
                            'changes the result (value, got, want)', bad[:3])
            rep.trace({'func': name, 'dtype': dtype}, res[:3])


RANGES = [(0.0, 24.0), (-12.0, 12.0), (0.0, 360.0), (-180.0, 180.0),
          (-180.0, 360.0), (0.0, PI2), (-math.pi, math.pi), (0, 24), (0, 360),
          (-90.0, 90.0), (1.0, 2.0), (-3.5, -1.25), (0.1, 0.4), (-1, 1),
          (100.0, 460.0), (-720.0, -360.0), (0.0, 1.0e-3), (5, 17.5)]


def wrap(params, rep):
    turns, noff = sizes(params['tier'])
    noff = 9 if params['tier'] == 'quick' else 31
    mn, mx = RANGES[params['ind']]
    span = mx - mn
    for frac in (None, 1.0, 0.5, 0.25, 2.0 / 3.0, 0.9, 1.0 / 7.0, 0.999):
        vrng = None if frac is None else span * frac
        per = span if vrng is None else vrng
        vals = [v + mn for v in values(span, turns, noff)] + [
            v for v in values(per, 2, 3)] + [NAN, mn, mx]
        run(rep, 'fix_range', lambda v: ocb_time.fix_range(v, mn, mx, vrng),
            vals, lambda v: v, mn, mx, per, {'range': [mn, mx],
                                             'modulus': vrng})
        # exactly unchanged inside
        for v in vals:
            if v == v and mn <= v < mx:
                got = float(ocb_time.fix_range(v, mn, mx, vrng))
                rep.step(1, 'fix_range')
                if got != v:
                    rep.violate({'value': v, 'range': [mn, mx],
                                 'modulus': vrng},
                                'value inside is changed', got, v)
    # equal or reversed limits and ranges that are not positive
    for args in ((mn, mn, None), (mx, mn, None), (mx, mn, span),
                 (mn, mx, 0.0), (mn, mx, -span), (mn, mx, -1.0e-9),
                 (mn, mx, 0)):
        for v in (mn, mx, 0.5 * (mn + mx), np.array([mn, mx]), []):
            try:
                res = ocb_time.fix_range(v, *args)
                rep.violate({'value': v, 'args': args}, 'limits that cannot '
                            'be met are accepted', res, 'ValueError')
            except ValueError:
                pass
            rep.step(1, 'reject')
    rep.trace({'range': [mn, mx], 'reject': True}, None)


def pairs(params, rep):
    """Every pair (triple) of values in one array: elements do not affect
    each other"""
    num = 2 if params['tier'] == 'quick' else 3
    for name, func, period in (
            ('deg2hr', ocb_time.deg2hr, 360.0),
            ('hr2deg', ocb_time.hr2deg, 24.0),
            ('hr2rad', ocb_time.hr2rad, 24.0),
            ('rad2hr', ocb_time.rad2hr, PI2),
            ('fix', lambda v: ocb_time.fix_range(v, -12.0, 12.0), 24.0),
            ('slt2glon', lambda v: ocb_time.slt2glon(v, gen.T0), 24.0),
            ('glon2slt', lambda v: ocb_time.glon2slt(v, gen.T0), 360.0)):
        base = [NAN, 0.0, -1.0e-16] + [period * f for f in (
            -2.5, -1.75, -1.0, -0.5, -1.0e-9, 0.25, 0.5, 0.75, 0.999, 1.0,
            1.0 + 1e-12, 1.5, 2.0, 2.25, 3.5, 10.1)]
        alone = [float(func(v)) for v in base]
        for inds in itertools.product(range(len(base)), repeat=num):
            res = np.asarray(func([base[i] for i in inds]))
            rep.step(1, name)
            if res.shape != (num,) or not all(
                    same(float(g), alone[i]) for g, i in zip(res, inds)):
                rep.violate({'func': name, 'values': [base[i] for i in inds]},
                            'elements affect each other', res,
                            [alone[i] for i in inds])
        rep.trace({'func': name, 'arity': num}, alone)


def there_and_back(params, rep):
    turns, noff = sizes(params['tier'])
    deg = values(360.0, turns, noff)
    hrs = values(24.0, turns, noff)
    rad = values(PI2, turns, noff)
    for name, f, g, vals, per in (
            ('deg-hr-deg', ocb_time.deg2hr, ocb_time.hr2deg, deg, 360.0),
            ('hr-deg-hr', ocb_time.hr2deg, ocb_time.deg2hr, hrs, 24.0),
            ('hr-rad-hr', ocb_time.hr2rad, ocb_time.rad2hr, hrs, 24.0),
            ('rad-hr-rad', ocb_time.rad2hr, ocb_time.hr2rad, rad, PI2)):
        for mode in ('array', 'scalar'):
            if mode == 'array':
                got = np.asarray(g(f(np.array(vals))))
            else:
                got = [float(g(f(v))) for v in vals]
            for v, w in zip(vals, got):
                rep.step(1, name)
                rep.state((name, v))
                if not cyc(w, v, per, tolerance(v, per)):
                    rep.violate({'chain': name, 'value': v, 'mode': mode},
                                'value is not recovered', w, v)
            rep.trace({'chain': name, 'mode': mode}, None)


def hour_exact(t):
    return (Fraction(t.hour) + Fraction(t.minute, 60)
            + Fraction(t.second, 3600) + Fraction(t.microsecond, 3600000000))


def instants(tier):
    days = [dt.datetime(2010, 6, 1), dt.datetime(2000, 2, 29),
            dt.datetime(1999, 12, 31)]
    if tier == 'quick':
        mins, secs, us = (0, 1, 29, 30, 59), (0, 31, 59), (0, 1, 500000,
                                                            999999)
    else:
        mins, secs, us = range(60), (0, 1, 30, 31, 59), (0, 1, 500000, 999999)
    for h in range(24):
        for m in mins:
            for s in secs:
                for u in us:
                    yield days[(h + m + s + u) % 3].replace(
                        hour=h, minute=m, second=s, microsecond=u)


def clock(params, rep):
    """Hours of the day at every instant"""
    for t in instants(params['tier']):
        if t.hour % 4 != params['part']:
            continue
        got = ocb_time.datetime2hr(t)
        rep.step(1, 'datetime2hr')
        rep.state(t)
        want = float(hour_exact(t))
        if not abs(got - want) <= 1.0e-9 or not 0.0 <= got < 24.0:
            rep.violate({'time': t}, 'hours of day', got, want)
    if params['tier'] == 'thorough':
        t = dt.datetime(2011, 3, 4, params['part'] * 6)
        for _ in range(6 * 3600):
            got = ocb_time.datetime2hr(t)
            rep.step(1, 'datetime2hr')
            want = float(hour_exact(t))
            if not abs(got - want) <= 1.0e-9:
                rep.violate({'time': t}, 'hours of day', got, want)
            t += dt.timedelta(seconds=1)
    rep.trace({'clock': params['part']}, None)


def solar(params, rep):
    """Solar local time and longitude at a set of instants"""
    noff = 13 if params['tier'] == 'quick' else 49
    tall = [dt.datetime(2010, 6, 1, h, m, s, u) for h in range(24)
            for m, s, u in ((0, 0, 0), (30, 0, 0), (59, 59, 999999),
                            (17, 43, 250000))]
    hrs = values(24.0, 2, noff) + [NAN]
    deg = values(360.0, 2, noff) + [NAN]
    for i, t in enumerate(tall):
        if i % 8 != params['part']:
            continue
        uth = float(hour_exact(t))
        run(rep, 'slt2glon', lambda v: ocb_time.slt2glon(v, t), hrs,
            lambda v: (v - uth) * 15.0, -180.0, 360.0, 360.0, {'time': t})
        run(rep, 'glon2slt', lambda v: ocb_time.glon2slt(v, t), deg,
            lambda v: v / 15.0 + uth, 0.0, 24.0, 24.0, {'time': t})
        back = np.asarray(ocb_time.glon2slt(ocb_time.slt2glon(
            np.array(hrs), t), t))
        for v, w in zip(hrs, back):
            rep.step(1, 'slt-glon-slt')
            if v == v and not cyc(w, v, 24.0, tolerance(v, 24.0)):
                rep.violate({'time': t, 'slt': v}, 'local time is not '
                            'recovered', w, v)
        back = np.asarray(ocb_time.slt2glon(ocb_time.glon2slt(
            np.array(deg), t), t))
        for v, w in zip(deg, back):
            rep.step(1, 'glon-slt-glon')
            if v == v and not cyc(w, v, 360.0, tolerance(v, 360.0)):
                rep.violate({'time': t, 'glon': v}, 'longitude is not '
                            'recovered', w, v)


def jobs(tier):
    out = [('convert', {'tier': tier, 'name': n})
           for n in ('hr2deg', 'hr2rad', 'deg2hr', 'rad2hr')]
    out += [('wrap', {'tier': tier, 'ind': i}) for i in range(len(RANGES))]
    out += [('solar', {'tier': tier, 'part': i}) for i in range(8)]
    out += [('clock', {'tier': tier, 'part': i}) for i in range(4)]
    out += [(n, {'tier': tier}) for n in ('whole', 'pairs', 'there_and_back')]
    return out
