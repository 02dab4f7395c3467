"""P24: boundary corrections are periodic, shape-preserving formulas."""
import itertools

from mc import gen, ref
from mc.gen import np
from ocbpy import ocb_correction as ocbcor

TECHNIQUE = ('exhaustive evaluation of every correction function x '
             'instrument x method (in every spelling) on a grid of local '
             'times over several turns, in every shape and container and all '
             'pairs of elements, on the real code against the published '
             'formulas')
ORACLE = ('published coefficients evaluated one local time at a time in plain '
          'Python; same value a turn earlier or later; same shape')
BOUND = {'quick': 'local times every 3 minutes from -72 h to 72 h plus edges; '
                  'all 10 formulas, 5 spellings; 9 shapes, 8 containers; all '
                  'pairs of 14 local times; 20 unknown names each',
         'thorough': 'every 15 seconds from -240 h to 240 h, all triples'}
NAN = float('nan')


def spell(name):
    return [name, name.upper(), name.capitalize(), name.swapcase(),
            name[:-1] + name[-1].upper()]


def formulas():
    """name, function, keyword arguments, reference"""
    out = []
    for add in (0.0, 1.0, -2.5, 3, 0.125, 1.0e-3):
        out.append(('circular %r' % add, ocbcor.circular, {'r_add': add},
                    lambda m, a=add: float(a)))
    for meth in ('median', 'gaussian'):
        out.append(('elliptical ' + meth, ocbcor.elliptical,
                    {'instrument': 'ampere', 'method': meth},
                    lambda m, a=meth: ref.elliptical(m, 'ampere', a)))
    for inst, meth in sorted(ref.HARM):
        out.append(('harmonic %s %s' % (inst, meth), ocbcor.harmonic,
                    {'instrument': inst, 'method': meth},
                    lambda m, i=inst, a=meth: ref.harmonic(m, i, a)))
    return out


def grid(tier):
    if tier == 'quick':
        vals = [i / 20.0 for i in range(-1440, 1441)]
    else:
        vals = [i / 240.0 for i in range(-57600, 57601)]
    return vals + [24.0 - 1e-12, -1e-12, 1e-300, 11.9999999, 1000.25, -999.5,
                   NAN]


def values(params, rep):
    name, func, kw, want = formulas()[params['ind']]
    vals = grid(params['tier'])
    ref_vals = [want(v) if v == v or func is ocbcor.circular else NAN
                for v in vals]
    arr = func(np.array(vals), **kw)
    if arr.shape != (len(vals),):
        rep.violate({'name': name}, 'shape', arr.shape)
        return
    for i, v in enumerate(vals):
        rep.step(1, 'array')
        rep.state((name, v))
        if not gen.close(float(arr[i]), ref_vals[i], 1.0e-9):
            rep.violate({'name': name, 'mlt': v}, 'correction', arr[i],
                        ref_vals[i])
    # a turn earlier and later
    base = np.array(vals)
    for turn in (-72.0, -48.0, -24.0, 24.0, 48.0, 72.0):
        moved = func(base + turn, **kw)
        rep.step(len(vals), 'turn')
        if not np.allclose(moved, arr, atol=1e-9, rtol=1e-9, equal_nan=True):
            bad = np.where(~np.isclose(moved, arr, atol=1e-9, rtol=1e-9,
                                       equal_nan=True))[0]
            rep.violate({'name': name, 'mlt': base[bad[0]], 'turn': turn},
                        'not periodic', moved[bad[0]], arr[bad[0]])
    rep.trace({'name': name, 'grid': len(vals)}, arr[:10])
    # each alone
    step = 7 if params['tier'] == 'quick' else 1
    for i in range(0, len(vals), step):
        for kind, val in gen.scalars(vals[i]):
            res = func(val, **kw)
            rep.step(1, 'scalar')
            if np.ndim(res) != 0 or not gen.close(float(res), ref_vals[i],
                                                  1.0e-9):
                rep.violate({'name': name, 'mlt': vals[i], 'kind': kind},
                            'scalar', res, ref_vals[i])
    rep.trace({'name': name, 'scalars': len(vals)}, None)
    # spellings and defaults
    if 'instrument' in kw:
        for i, m in itertools.product(spell(kw['instrument']),
                                      spell(kw['method'])):
            res = func(base[:100], instrument=i, method=m)
            res2 = func(base[:100], i, m)
            rep.step(2, 'spelling')
            if not (np.array_equal(res, arr[:100])
                    and np.array_equal(res2, arr[:100])):
                rep.violate({'name': name, 'instrument': i, 'method': m},
                            'spelling changes the correction')
        if kw['instrument'] == 'ampere':
            for given in ('instrument', 'method'):
                if given == 'instrument' and kw['method'] != 'median':
                    continue
                res = func(base[:100], **{given: kw[given]})
                if not np.array_equal(res, arr[:100]):
                    rep.violate({'name': name, 'given': given},
                                'default changes the correction')
        rep.trace({'name': name, 'spelling': True}, None)
    elif kw['r_add'] == 0.0:
        if np.any(func(base) != 0.0):
            rep.violate({'name': name}, 'default circular correction')
    # containers and shapes
    sub = [0.0, 3.0, 6.0, 11.0, 12.0, 17.0, 23.0, 25.0, -3.0, 36.0, 48.0,
           -24.0]
    for pat in (sub, [v + 0.3 for v in sub], [NAN] + sub[1:]):
        alone = [float(func(v, **kw)) for v in pat]
        for kind, cont in gen.containers(pat):
            res = func(cont, **kw)
            rep.step(1, 'container')
            if res.shape != (len(pat),) or not all(
                    gen.close(float(g), w, 1e-9) for g, w in zip(res, alone)):
                rep.violate({'name': name, 'container': kind}, 'container '
                            'changes the correction', res, alone)
        for shape in ((12,), (12, 1), (1, 12), (3, 4), (4, 3), (2, 2, 3),
                      (1, 1, 12), (2, 6)):
            for order in ('C', 'F'):
                src = np.array(np.array(pat).reshape(shape), order=order)
                res = func(src, **kw)
                rep.step(1, 'shape')
                if res.shape != shape or not all(
                        gen.close(float(g), w, 1e-9)
                        for g, w in zip(res.ravel(), alone)):
                    rep.violate({'name': name, 'shape': shape, 'order':
                                 order}, 'shape changes the correction', res,
                                alone)
        rep.trace({'name': name, 'shapes': True}, alone)
    for empty in ([], np.array([]), np.zeros((0, 3)), np.zeros((3, 0))):
        res = func(empty, **kw)
        rep.step(1, 'shape')
        if res.shape != np.shape(empty):
            rep.violate({'name': name, 'shape': np.shape(empty)},
                        'empty input', res.shape)


def pairs(params, rep):
    """Elements do not affect each other"""
    name, func, kw, want = formulas()[params['ind']]
    vals = [NAN, 0.0, 0.5, 3.0, 6.0, 9.7, 12.0, 15.0, 18.0, 21.3, 23.99,
            24.0, -6.0, 40.0]
    num = 2 if params['tier'] == 'quick' else 3
    alone = [float(func(v, **kw)) for v in vals]
    for inds in itertools.product(range(len(vals)), repeat=num):
        res = func(np.array([vals[i] for i in inds]), **kw)
        rep.step(1, 'pairs')
        if res.shape != (num,) or not all(
                gen.close(float(g), alone[i], 1e-12)
                for g, i in zip(res, inds)):
            rep.violate({'name': name, 'mlts': [vals[i] for i in inds]},
                        'elements affect each other', res,
                        [alone[i] for i in inds])
    rep.trace({'name': name, 'pairs': True}, alone)


def reject(params, rep):
    """Unknown instruments and methods"""
    insts = ['', ' ', 'amper', 'ampere ', 'image', 'dmsp', 'dmsp-ssj',
             'dmsp_ssj', 'si-12', 'si14', 'wick', 'bad', 'none', 'ocb', 'eab',
             'median', 'gaussian', 'si', 'SI1', 'AMPERES']
    meths = ['', ' ', 'mean', 'median ', 'gauss', 'gaussian2', 'ocbs', 'eabb',
             'bad', 'none', 'ampere', 'si12', 'MEDIANS', 'harmonic', 'GAUS']
    known = {ocbcor.elliptical: {('ampere', 'median'), ('ampere',
                                                        'gaussian')},
             ocbcor.harmonic: set(ref.HARM)}
    names = ['ampere', 'si12', 'si13', 'wic']
    kinds = ['median', 'gaussian', 'ocb', 'eab']
    for func in (ocbcor.elliptical, ocbcor.harmonic):
        for i, m in itertools.product(names + insts, kinds + meths):
            for mlt in (3.0, np.array([1.0, 2.0])):
                rep.step(1, 'reject')
                rep.state((func.__name__, i, m))
                ok = (i, m) in known[func]
                try:
                    res = func(mlt, instrument=i, method=m)
                    if not ok:
                        rep.violate({'func': func.__name__, 'instrument': i,
                                     'method': m}, 'unknown name accepted',
                                    res)
                except ValueError:
                    if ok:
                        rep.violate({'func': func.__name__, 'instrument': i,
                                     'method': m}, 'known name rejected')
        rep.trace({'func': func.__name__, 'reject': True}, None)


def applied(params, rep):
    """The correction of a boundary is the formula at each local time"""
    mlts = [0.0, 3.5, 6.0, 11.75, 12.0, 18.0, 23.25]
    for name in gen.CORRS:
        for inst in ('image', 'ampere'):
            kw, corr = gen.corrections(name, inst, 3)
            recs = [gen.rec(60 * i, 14.0, phi=90.0, rc=1.0)
                    for i in range(3)]
            for ind in range(3):
                obj = gen.ocb(inst, recs, 1, ind, **kw)
                res = obj.normal_coord(np.full(len(mlts), 80.0),
                                       np.array(mlts))[2]
                rep.step(1, 'boundary')
                rep.state((name, inst, ind))
                for m, g in zip(mlts, res):
                    if not gen.close(float(g), corr[ind](m), 1e-9):
                        rep.violate({'name': name, 'inst': inst, 'ind': ind,
                                     'mlt': m}, 'boundary correction', g,
                                    corr[ind](m))
                rep.trace({'name': name, 'inst': inst, 'ind': ind}, res)


def jobs(tier):
    num = len(formulas())
    return [(n, {'tier': tier, 'ind': i}) for i in range(num)
            for n in ('values', 'pairs')] + [('reject', {'tier': tier}),
                                             ('applied', {'tier': tier})]
