"""P14: scaled quantities use the boundary's radius and the right power."""
import itertools
import math

from mc import gen, ref
from mc.gen import np
from ocbpy import ocb_scaling

TECHNIQUE = ('exhaustive enumeration of values x radii of the scaling '
             'functions, and of boundary kinds x hemispheres x corrections x '
             'reference latitudes x records x locations x scaling functions x '
             'ways of giving them for vector objects, on the real code '
             'against the definition')
ORACLE = ('unscaled value times ((record radius + correction at its local '
          'time) / (90 - |reference latitude|)) to the power one or two; '
          'the unscaled value when there is no function')
BOUND = {'quick': '13 values x 9 x 7 radii in 12 forms; 11 corrections x 2 '
                  'hemispheres x 4 kinds (OCB, EAB, AMPERE, dual) x 3 '
                  'reference latitudes x 4 records x 12 locations x 4 scaling '
                  'functions x 3 ways, single vectors, arrays of vectors and '
                  'arrays of records',
         'thorough': '33 values x 20 x 20 radii; 48 locations; every record '
                     'permutation of arrays'}
VD = ocb_scaling.VectorData
NAN = float('nan')


def functions(params, rep):
    quick = params['tier'] == 'quick'
    vals = [0.0, 1.0, -1.0, 2.5, -300.25, 1e-9, 1e6, NAN, 0.125, -7.0, 42.0,
            1e-3, 3.0]
    uns = [0.5, 5.0, 10.0, 14.0, 16.0, 17.75, 20.0, 33.3, NAN]
    sca = [1.0, 10.0, 14.0, 16.0, 20.0, 30.0, 16.5]
    if not quick:
        vals += [10.0**k * s for k in range(-6, 4) for s in (1.7, -1.7)]
        uns += [i + 0.3 for i in range(11, 22)]
        sca += [i + 0.6 for i in range(11, 24)]
    for func, power in ((ocb_scaling.normal_evar, 1),
                        (ocb_scaling.normal_curl_evar, 2)):
        rows = list(itertools.product(vals, uns, sca))
        want = [v * (u / s)**power for v, u, s in rows]
        cols = [np.array(c) for c in zip(*rows)]
        arr = func(*cols)
        rep.step(1, func.__name__)
        for row, g, w in zip(rows, arr, want):
            one = func(*row)
            rep.step(1, func.__name__)
            rep.state((power, row))
            if not gen.close(float(g), w, 1e-10) or \
               not gen.close(float(one), w, 1e-10):
                rep.violate({'func': func.__name__, 'args': row}, 'scaled '
                            'value', [g, one], w)
        rep.trace({'func': func.__name__, 'rows': len(rows)}, arr[:5])
        # mixtures of scalars and arrays, shapes
        for u, s in itertools.product(uns, sca):
            for shape in ((len(vals),), (len(vals), 1), (1, len(vals))):
                src = np.array(vals).reshape(shape)
                for uu in (u, np.float64(u), np.array(u), np.full(shape, u)):
                    for ss in (s, np.full(shape, s)):
                        got = func(src, uu, ss)
                        rep.step(1, func.__name__)
                        if got.shape != shape or not all(
                                gen.close(float(g), v * (u / s)**power, 1e-10)
                                for g, v in zip(got.ravel(), vals)):
                            rep.violate({'func': func.__name__, 'radii':
                                         [u, s], 'shape': shape}, 'scaled '
                                        'values', got)
            for v in (2.5, -3.0):
                got = func(v, np.array([u, 2.0 * u]), s)
                if not (gen.close(float(got[0]), v * (u / s)**power, 1e-10)
                        and gen.close(float(got[1]), v * (2 * u / s)**power,
                                      1e-10)):
                    rep.violate({'func': func.__name__, 'radii': [u, s]},
                                'array of radii', got)
        for v, u, s in ((3, 14, 16), (-2, 20, 10), (7, 1, 30)):
            for mk in (int, np.int64, lambda q: np.array([q, q])):
                got = np.asarray(func(mk(v), mk(u), mk(s)), dtype=float)
                rep.step(1, func.__name__)
                if not np.all(abs(got - v * (u / s)**power) < 1e-10):
                    rep.violate({'func': func.__name__, 'ints': [v, u, s]},
                                'integers', got, v * (u / s)**power)
        rep.trace({'func': func.__name__, 'shapes': True}, None)


def cube(val, uns, sca):
    """A scaling function of the caller"""
    return val * (uns / sca)**3 + 0.0 * sca


SCALE = [('none', None, 0), ('evar', ocb_scaling.normal_evar, 1),
         ('curl', ocb_scaling.normal_curl_evar, 2), ('cube', cube, 3)]
RECS = [(14.0, 30.0, 2.0), (11.5, 200.0, 4.0), (17.25, 110.0, 1.0),
        (20.0, 300.0, 3.0)]


def make(kind, name, hemi, blat):
    """-> boundary, list of reference records at each index"""
    if kind == 'dual':
        # the second poleward record has no partner
        kw, corr = gen.corrections(name, 'image', 5)
        recs = [RECS[0], (13.0, 10.0, 1.0)] + RECS[1:]
        orec = [gen.rec(600 * i, r, phi=p, rc=c)
                for i, (r, p, c) in enumerate(recs)]
        erec = [gen.rec(600 * i + 7, 32.0 + i, phi=90.0 - p, rc=1.0)
                for i, (r, p, c) in enumerate(recs) if i != 1]
        obj = gen.dual('image', orec, 'image', erec, hemi, 60,
                       olat=hemi * blat, elat=hemi * (blat - 12.0), okw=kw)
        keep = [0, 2, 3, 4]
        return obj, [ref.Bound(recs[i][0], recs[i][1], recs[i][2], hemi,
                               blat, corr[i]) for i in keep]
    inst = 'ampere' if kind == 'ampere' else 'image'
    cls = 'eab' if kind == 'eab' else 'ocb'
    kw, corr = gen.corrections(name, inst, 4, cls)
    recs = [gen.rec(60 * i, r, phi=p, rc=c)
            for i, (r, p, c) in enumerate(RECS)]
    func = gen.eab if kind == 'eab' else gen.ocb
    obj = func(inst, recs, hemi, boundary_lat=hemi * blat, **kw)
    return obj, [ref.Bound(r, p, c, hemi, blat, corr[i])
                 for i, (r, p, c) in enumerate(RECS)]


def places(tier):
    if tier == 'quick':
        return [(60.0, 0.0), (70.0, 3.3), (76.0, 6.0), (79.0, 9.1),
                (82.0, 12.0), (85.0, 14.7), (89.0, 17.2), (74.5, 18.0),
                (78.0, 20.6), (81.0, 23.9), (65.0, 11.0), (88.0, 1.0)]
    return [(la, 0.5 + 2.0 * i) for la in (62.0, 73.0, 81.0, 87.0)
            for i in range(12)]


def vec(dat, ind, lat, lt, n, e, z, bound, func, way):
    kw = dict(vect_n=n, vect_e=e, vect_z=z)
    if way == 'init':
        obj = VD(dat, ind, lat, lt, scale_func=func, **kw)
        obj.set_ocb(bound)
    elif way == 'attr':
        obj = VD(dat, ind, lat, lt, **kw)
        obj.scale_func = func
        obj.set_ocb(bound)
    else:
        obj = VD(dat, ind, lat, lt, **kw)
        obj.set_ocb(bound, scale_func=func)
    return obj


def compare(rep, case, obj, plain, uns, sca, power, num):
    """Every component is the unscaled one times the factor"""
    fac = (uns / sca)**power
    for key in ('ocb_n', 'ocb_e', 'ocb_z', 'ocb_mag'):
        got = np.asarray(getattr(obj, key), dtype=float)
        base = np.asarray(getattr(plain, key), dtype=float)
        want = base * fac
        if got.shape != base.shape or not np.allclose(
                got, want, rtol=1e-9, atol=1e-9, equal_nan=True):
            rep.violate(dict(case, key=key), 'scaled component', got, want)
            return
    good = ~np.isnan(np.asarray(plain.ocb_n, dtype=float))
    for key, want in (('unscaled_r', uns), ('scaled_r', sca)):
        got = np.asarray(getattr(obj, key), dtype=float)
        want = np.broadcast_to(np.asarray(want, dtype=float), good.shape)
        if got.shape != good.shape or not np.allclose(got[good], want[good],
                                                      rtol=1e-9, atol=1e-9):
            rep.violate(dict(case, key=key), 'radius', got, want)


def objects(params, rep):
    tier, kind, hemi = params['tier'], params['kind'], params['hemi']
    locs = places(tier)
    la = hemi * np.array([v[0] for v in locs])
    mt = np.array([v[1] for v in locs])
    vn = np.array([[3.0, -4.0, 0.0, 12.0][i % 4] for i in range(len(locs))])
    ve = np.array([[-1.0, 5.0, 2.0, -6.0, 0.0][i % 5]
                   for i in range(len(locs))])
    vz = np.array([[0.5, -2.0, 0.0][i % 3] for i in range(len(locs))])
    dat = np.arange(len(locs))
    for blat in (74.0, 68.5, 78.25):
        bound, recs = make(kind, params['corr'], hemi, blat)
        sca = 90.0 - blat
        for ind, rr in enumerate(recs):
            uns = np.array([rr.r + rr.corr(m) for m in mt])
            plain = vec(dat, ind, la, mt, vn, ve, vz, bound, None, 'set')
            if np.all(np.isnan(plain.ocb_n)):
                rep.violate({'kind': kind, 'ind': ind}, 'nothing converted')
            for (name, func, power), way in itertools.product(
                    SCALE, ('init', 'set', 'attr')):
                case = {'kind': kind, 'corr': params['corr'], 'hemi': hemi,
                        'blat': blat, 'ind': ind, 'scale': name, 'way': way}
                obj = vec(dat, ind, la, mt, vn, ve, vz, bound, func, way)
                rep.step(1, 'array')
                rep.state(case)
                compare(rep, case, obj, plain, uns, sca, power, len(locs))
                if not np.allclose(obj.ocb_mag, np.sqrt(
                        obj.ocb_n**2 + obj.ocb_e**2 + obj.ocb_z**2),
                        equal_nan=True):
                    rep.violate(case, 'magnitude', obj.ocb_mag)
                rep.trace(case, obj.ocb_n[:3])
                # each alone
                for k in range(len(locs)):
                    if (k + ind + power + len(way)) % 6 and tier == 'quick':
                        continue
                    one = vec(0, ind, la[k], mt[k], vn[k], ve[k], vz[k],
                              bound, func, way)
                    base = vec(0, ind, la[k], mt[k], vn[k], ve[k], vz[k],
                               bound, None, 'set')
                    rep.step(2, 'single')
                    compare(rep, dict(case, k=k), one, base, uns[k], sca,
                            power, 1)
        # one vector with several records, and vectors each with a record
        order = ([0, 1, 2, 3], [3, 1, 2, 0], [2, 2, 0, 0])
        if tier == 'thorough':
            order = list(itertools.permutations(range(4))) + [[2, 2, 0, 0]]
        for inds in order:
            inds = np.array(inds)
            for name, func, power in SCALE[1:]:
                for k in range(0, len(locs), 2):
                    case = {'kind': kind, 'corr': params['corr'], 'hemi':
                            hemi, 'blat': blat, 'inds': inds, 'scale': name,
                            'k': k}
                    uns = np.array([recs[i].r + recs[i].corr(mt[k])
                                    for i in inds])
                    obj = vec(0, inds, la[k], mt[k], vn[k], ve[k], vz[k],
                              bound, func, 'set')
                    base = vec(0, inds, la[k], mt[k], vn[k], ve[k], vz[k],
                               bound, None, 'set')
                    rep.step(2, 'records')
                    rep.state(case)
                    compare(rep, case, obj, base, uns, sca, power, 4)
                kk = np.array([1, 4, 7, 9])
                uns = np.array([recs[i].r + recs[i].corr(mt[k])
                                for i, k in zip(inds, kk)])
                args = (dat[:4], inds, la[kk], mt[kk], vn[kk], ve[kk], vz[kk],
                        bound)
                obj = vec(*args, func, 'init')
                base = vec(*args, None, 'set')
                rep.step(2, 'both')
                case = {'kind': kind, 'corr': params['corr'], 'hemi': hemi,
                        'blat': blat, 'inds': inds, 'scale': name, 'both': 1}
                compare(rep, case, obj, base, uns, sca, power, 4)
                rep.trace(case, obj.ocb_mag)


def jobs(tier):
    out = [('functions', {'tier': tier})]
    for kind in ('image', 'ampere', 'eab', 'dual'):
        for hemi in (1, -1):
            for corr in gen.CORRS:
                out.append(('objects', {'tier': tier, 'kind': kind,
                                        'hemi': hemi, 'corr': corr}))
    return out
