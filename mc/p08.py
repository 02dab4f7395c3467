"""P08: public operations never modify what the caller passed in."""
import copy
import datetime as dt
import itertools
import os

from mc import gen
from mc.gen import np
from mc.core import canon
from ocbpy import cycle_boundary, ocb_scaling, ocb_time, vectors
from ocbpy import ocb_correction as ocbcor
from ocbpy.instruments import general, supermag, vort

TECHNIQUE = ('exhaustive exploration of public operation x argument x '
             'container kind (type, writability, memory layout, shape) on '
             'the real code: bit-for-bit snapshot of every argument before '
             'and after, memory sharing with results and stored values, and '
             'numerical agreement between kinds')
ORACLE = ('arguments are equal before and after, no result shares memory '
          'with an argument, all kinds give the result of the writable float '
          'array')
BOUND = {'quick': '60 array operations on 2-4 value patterns with every '
                  'pair of arguments in every pair of 8 container kinds (all '
                  'others float arrays) and all in the same kind, 4 scalar '
                  'kinds and 2-d arrays; every history of 2 uses of the same '
                  'arrays; dictionaries and lists of the selection, '
                  'matching, loading and file conversion operations',
         'thorough': 'the full product of 8 container kinds for up to 4 '
                     'arguments'}
JOB_CPU_LIMIT = 840
NAN = float('nan')
VD = ocb_scaling.VectorData
T = gen.T0


def boundary(hemi=1, dual=False, rec_ind=1, name='bump'):
    orec = [gen.rec(60 * i, 14.0 + i, phi=30.0 + 70 * i, rc=2.0 + i)
            for i in range(4)]
    kw, _ = gen.corrections(name, 'image', 4)
    if not dual:
        return gen.ocb('image', orec, hemi, rec_ind, **kw)
    erec = [gen.rec(60 * i, 28.0 + i, phi=60.0 + 70 * i, rc=2.0)
            for i in range(4)]
    return gen.dual('image', orec, 'image', erec, hemi, 30, rec_ind, okw=kw)


LAT = [[75.0, 80.0, 60.0, 88.0], [76.5, NAN, -70.0, 85.0],
       [-75.0, -80.0, -60.0, -70.0]]
MLT = [[3.0, 9.0, 15.0, 23.0], [3.5, 27.0, -4.0, NAN], [1.0, 2.0, 3.0, 4.0]]
HGT = [[300.0, 350.0, 400.0, 450.0]] * 3


NAMES = ['array', 'list', 'tuple', 'readonly', 'strided', 'reversed', 'int',
         'intlist']
ARRS = ['array', 'readonly', 'strided', 'reversed', 'int']
INTS = ['int', 'intlist']


class Op(object):
    def __init__(self, name, func, _kinds=None, **args):
        self.name, self.func, self.args = name, func, args
        self.kinds = _kinds or NAMES
        # a list of patterns for each argument
        self.npat = max(len(v) for v in args.values())


def out(obj):
    """Everything stored in a vector object."""
    return {k: v for k, v in gen.public(obj).items()
            if isinstance(v, (np.ndarray, float, int))}


def vec(hemi=1, dual=False, scale=None, setter=None, **kw):
    """Create a vector and convert it; return the object."""
    kw.setdefault('dat_ind', np.arange(4) if np.ndim(kw.get('lat')) else 0)
    obj = VD(kw.pop('dat_ind'), kw.pop('ocb_ind', 1), **kw)
    if setter:
        for key, val in setter.items():
            setattr(obj, key, val)
    obj.set_ocb(boundary(hemi, dual), scale_func=scale)
    return obj


def made(**kw):
    kw.setdefault('dat_ind', np.arange(4))
    kw.setdefault('ocb_ind', 1)
    return VD(**kw)


def assign(attr):
    def func(val):
        obj = made(lat=[75.0, 80.0, 70.0, 60.0], lt=[1.0, 2.0, 3.0, 4.0],
                   vect_n=[1.0, 2.0, 3.0, 4.0])
        setattr(obj, attr, val)
        return obj
    return func


def stored(func, keys):
    """Run an operation that stores its result on a boundary."""
    def wrap(**kw):
        obj = func(**kw)
        return [getattr(obj, k, None) for k in keys]
    return wrap


def blat(mlt, rec_ind=None):
    obj = boundary()
    obj.get_aacgm_boundary_lat(mlt, rec_ind=rec_ind)
    return [obj.aacgm_boundary_lat, obj.aacgm_boundary_mlt,
            obj.aacgm_boundary_lon]


def dblat(mlt):
    obj = boundary(dual=True)
    obj.get_aacgm_boundary_lats(mlt)
    return [obj.ocb.aacgm_boundary_lat, obj.ocb.aacgm_boundary_mlt,
            obj.eab.aacgm_boundary_lat, obj.eab.aacgm_boundary_mlt,
            obj.eab.aacgm_boundary_lon]


def dconv(**kw):
    """A conversion of a dual boundary and what it stored."""
    obj = boundary(dual=True)
    res = obj.normal_coord(overwrite=True, **kw)
    return [res] + [getattr(bound, 'aacgm_boundary_' + key, None) for bound in
                    (obj.ocb, obj.eab) for key in ('lat', 'mlt')]


def times(deltas):
    return deltas


POLE = {'data_lt': [[5.0, 9.0, 15.0, 23.0], [0.0, 12.0, 6.0, 23.5]],
        'data_lat': [[70.0, 75.0, 80.0, 85.0], [89.0, 60.0, 70.0, NAN]],
        'pole_lt': [[3.0, 9.0, 14.0, 1.0], [12.0, 12.0, 18.0, 20.0]],
        'pole_lat': [[86.0, 87.0, 88.0, 85.0], [80.0, 86.0, 84.0, 84.0]]}
QUAD = [[1.0, 2.0, 3.0, 4.0]]
ADJ = {'vect_lt': [[5.0, 9.0, 15.0, 23.0], [5.0, NAN, 15.0, 22.0]],
       'vect_lat': [[70.0, 75.0, 80.0, 85.0], [70.0, 75.0, NAN, 85.0]],
       'vect_n': [[50.0, 0.0, -30.0, 10.0], [0.0, 0.0, 5.0, 1.0]],
       'vect_e': [[10.0, 20.0, 0.0, -7.0], [0.0, 3.0, 1.0, 1.0]],
       'vect_z': [[1.0, 0.0, 2.0, -3.0], [5.0, 1.0, 1.0, 1.0]]}


def adjust(**kw):
    quad = vectors.define_vect_quadrants(np.asarray(kw['vect_n'], float),
                                         np.asarray(kw['vect_e'], float))
    pa = vectors.calc_vec_pole_angle(np.asarray(kw['vect_lt'], float),
                                     np.asarray(kw['vect_lat'], float), 3.0,
                                     86.0)
    pq = vectors.define_pole_quadrants(np.asarray(kw['vect_lt'], float), 3.0,
                                       pa)
    return vectors.adjust_vector(vect_quad=quad, pole_lt=3.0, pole_lat=86.0,
                                 pole_angle=pa, pole_quad=pq, **kw)


def ops():
    evar = ocb_scaling.normal_evar
    curl = ocb_scaling.normal_curl_evar
    res = []
    for hemi in (1, -1):
        res += [
            Op('OCBoundary.normal_coord %d' % hemi,
               lambda h=hemi, **k: boundary(h).normal_coord(**k),
               lat=LAT, lt=MLT),
            Op('OCBoundary.normal_coord no record %d' % hemi,
               lambda h=hemi, **k: boundary(h, rec_ind=-1).normal_coord(**k),
               lat=LAT, lt=MLT),
            Op('OCBoundary.normal_coord circular %d' % hemi,
               lambda h=hemi, **k: boundary(
                   h, name='default').normal_coord(**k), lat=LAT, lt=MLT),
            Op('OCBoundary.revert_coord %d' % hemi,
               lambda h=hemi, **k: boundary(h).revert_coord(**k),
               ocb_lat=LAT, ocb_mlt=MLT, r_corr=[[1.0, -2.0, 0.0, 1.0]]),
            Op('DualBoundary.normal_coord %d' % hemi,
               lambda h=hemi, **k: boundary(h, True).normal_coord(**k),
               lat=LAT, lt=MLT),
            Op('DualBoundary.revert_coord %d' % hemi,
               lambda h=hemi, **k: boundary(h, True).revert_coord(
                   is_ocb=False, **k), ocb_lat=LAT, ocb_mlt=MLT,
               aacgm_mlt=[[3.0, 8.0, 15.0, 22.0]]),
            Op('DualBoundary.revert_coord OCB %d' % hemi,
               lambda h=hemi, **k: boundary(h, True).revert_coord(**k),
               ocb_lat=LAT, ocb_mlt=MLT, r_corr=[[1.0, -2.0, 0.0, 1.0]]),
            Op('DualBoundary.calc_r %d' % hemi,
               lambda h=hemi, **k: boundary(h, True).calc_r(**k),
               bound_lat=[[75.0, 70.0, 60.0, 88.0], [75.0, NAN, 60.0, 88.0]],
               bound_mlt=MLT[:2], aacgm_mlt=[[3.0, 8.0, 15.0, 22.0]],
               r_corr=[[1.0, -2.0, 0.0, 1.0]]),
            Op('VectorData %d' % hemi,
               lambda h=hemi, **k: vec(h, scale=evar, **k), lat=LAT[:2],
               lt=MLT[:2], vect_n=[[50.0, 0.0, -30.0, 10.0]],
               vect_e=[[10.0, 20.0, 0.0, -7.0]],
               vect_z=[[1.0, 0.0, 2.0, -3.0]]),
            Op('VectorData dual %d' % hemi,
               lambda h=hemi, **k: vec(h, True, scale=curl, **k),
               lat=LAT[:2], lt=MLT[:2], vect_n=[[50.0, 0.0, -30.0, 10.0]],
               vect_e=[[10.0, 20.0, 0.0, -7.0]])]
    res += [
        Op('VectorData indices', lambda **k: vec(
            lat=[75.0, 80.0, 70.0, 60.0], lt=[1.0, 2.0, 3.0, 4.0],
            vect_n=[1.0, 2.0, 3.0, 4.0], **k),
           _kinds=INTS, dat_ind=[[0.0, 1.0, 2.0, 3.0]], ocb_ind=[[0.0, 1.0, 2.0, 3.0]]),
        Op('VectorData boundary location', lambda **k: vec(
            lat=[75.0, 80.0, 70.0, 60.0], lt=[1.0, 2.0, 3.0, 4.0],
            vect_n=[1.0, 2.0, 3.0, 4.0], ocb_ind=[0, 1, 2, 3], **k),
           ocb_lat=[[78.0, 82.0, 70.0, 66.0]], ocb_mlt=[MLT[0]],
           r_corr=[[0.0, 1.0, -1.0, 2.0]]),
        Op('VectorData magnitude', lambda **k: made(
            lat=[75.0, 80.0, 70.0, 60.0], lt=[1.0, 2.0, 3.0, 4.0],
            vect_n=[3.0, 3.0, 3.0, 3.0], vect_e=[4.0] * 4, **k),
           vect_mag=[[5.0, 5.0, 5.0, 5.0]]),
        Op('VectorData geodetic', lambda **k: vec(
            loc_coord='geodetic', vect_coord='geodetic', **k),
           lat=[[75.0, 80.0, 70.0, 66.0]], lt=[MLT[0]], height=HGT[:1],
           vect_n=[[50.0, 0.0, -30.0, 10.0]],
           vect_e=[[10.0, 20.0, 0.0, -7.0]]),
        Op('OCBoundary.normal_coord geodetic',
           lambda **k: boundary().normal_coord(coords='geodetic', **k),
           lat=[[75.0, 80.0, 70.0, 66.0]], lt=[MLT[0]], height=HGT[:1]),
        Op('OCBoundary.revert_coord geocentric',
           lambda **k: boundary().revert_coord(coords='geocentric', **k),
           ocb_lat=[[75.0, 80.0, 70.0, 66.0]], ocb_mlt=[MLT[0]],
           height=HGT[:1]),
        Op('DualBoundary.normal_coord geodetic',
           lambda **k: boundary(dual=True).normal_coord(
               coords='geodetic', **k),
           lat=[[75.0, 80.0, 70.0, 66.0]], lt=[MLT[0]], height=HGT[:1]),
        Op('DualBoundary.revert_coord geodetic',
           lambda **k: boundary(dual=True).revert_coord(
               coords='geodetic', is_ocb=False,
               aacgm_mlt=[2.0, 8.0, 14.0, 22.0] if any(
                   np.ndim(val) > 0 for val in k.values()) else 2.0, **k),
           ocb_lat=[[75.0, 80.0, 70.0, 66.0]], ocb_mlt=[MLT[0]],
           height=HGT[:1]),
        Op('DualBoundary.normal_coord overwrite', dconv, lat=LAT[:2],
           lt=MLT[:2]),
        Op('get_aacgm_boundary_lat', blat, mlt=MLT[:2]),
        Op('get_aacgm_boundary_lat records', lambda rec_ind: blat(
            [1.0, 5.0], rec_ind), rec_ind=[[0.0, 2.0, 3.0]]),
        Op('get_aacgm_boundary_lats', dblat, mlt=MLT[:2])]
    for attr in ('vect_n', 'vect_e', 'vect_z', 'lat', 'lt', 'height',
                 'ocb_lat', 'ocb_mlt', 'r_corr', 'dat_ind', 'ocb_ind'):
        res.append(Op('VectorData.%s =' % attr, lambda f=assign(attr),
                      **k: f(k['val']), val=[[0.0, 1.0, 2.0, 3.0]]))
    res.append(Op('VectorData.vect_mag =', lambda val: assign('vect_mag')(
        val), val=[[1.0, 2.0, 3.0, 4.0]]))
    # angles and times
    ang = [[0.0, 90.0, 359.0, -20.0], [10.0, 20.0, 30.0, 40.0],
           [720.0, NAN, -359.5, 1.0]]
    for name in ('deg2hr', 'hr2deg', 'hr2rad', 'rad2hr'):
        res.append(Op(name, lambda f=getattr(ocb_time, name), **k: f(
            k['val']), val=ang))
    res += [
        Op('fix_range', lambda val: ocb_time.fix_range(val, 0.0, 24.0),
           val=ang),
        Op('fix_range inside', lambda val: ocb_time.fix_range(
            val, -180.0, 360.0), val=ang),
        Op('fix_range range', lambda val: ocb_time.fix_range(
            val, -12.0, 24.0, val_range=24.0), val=ang),
        Op('slt2glon', lambda val: ocb_time.slt2glon(val, T), val=ang),
        Op('glon2slt', lambda val: ocb_time.glon2slt(val, T), val=ang),
        # corrections
        Op('circular', lambda val: ocbcor.circular(val, r_add=2.0),
           val=MLT[:2]),
        Op('elliptical', lambda val: ocbcor.elliptical(val), val=MLT[:2]),
        Op('harmonic', lambda val: ocbcor.harmonic(val), val=MLT[:2]),
        # scaling
        Op('normal_evar', lambda **k: evar(**k), ARRS, evar=[[1.0, -2.0, 0.0, 3.0]],
           unscaled_r=[[14.0, 15.0, 16.0, 17.0]],
           scaled_r=[[16.0, 16.0, 16.0, 16.0]]),
        Op('normal_curl_evar', lambda **k: curl(**k), ARRS,
           curl_evar=[[1.0, -2.0, 0.0, 3.0]],
           unscaled_r=[[14.0, 15.0, 16.0, 17.0]],
           scaled_r=[[16.0, 16.0, 16.0, 16.0]]),
        Op('hav', lambda val: ocb_scaling.hav(val), val=[
            [0.0, 1.0, 2.0, -3.0]]),
        Op('archav', lambda val: ocb_scaling.archav(val), val=[
            [0.0, 1.0, 0.0, 1.0], [0.25, 0.5, -0.1, 1.0e-17]]),
        # vectors
        Op('get_pole_loc', lambda **k: vectors.get_pole_loc(**k),
           phi_cent=[[0.0, 90.0, 180.0, 355.0]], r_cent=[
               [1.0, 2.0, 3.0, 0.0]]),
        Op('calc_vec_pole_angle', lambda **k: vectors.calc_vec_pole_angle(
            **k), **POLE),
        Op('define_pole_quadrants', lambda **k: vectors.define_pole_quadrants(
            **k), data_lt=POLE['data_lt'], pole_lt=POLE['pole_lt'],
           pole_angle=[[30.0, 90.0, 120.0, 10.0], [NAN, 0.0, 180.0, 20.0]]),
        Op('define_vect_quadrants', lambda **k: vectors.define_vect_quadrants(
            **k), vect_n=ADJ['vect_n'], vect_e=ADJ['vect_e']),
        Op('calc_dest_polar_angle', lambda **k: vectors.calc_dest_polar_angle(
            **k), pole_quad=QUAD, vect_quad=[[1.0, 1.0, 4.0, 2.0]],
           base_naz_angle=[[30.0, 40.0, 50.0, 60.0]],
           pole_angle=[[20.0, 80.0, 130.0, 5.0]]),
        Op('calc_dest_vec_sign', lambda **k: [v for v in (
            lambda d: (d['north'], d['east']))(vectors.calc_dest_vec_sign(
                north=True, east=True, **k))],
           pole_quad=QUAD, vect_quad=[[1.0, 1.0, 4.0, 2.0]],
           base_naz_angle=[[30.0, 40.0, 50.0, 60.0]],
           pole_angle=[[20.0, 80.0, 130.0, 5.0]]),
        Op('adjust_vector', adjust, **ADJ),
        Op('satellite_track', lambda **k: cycle_boundary.satellite_track(
            x1=-15.0, y1=3.0, x2=14.0, y2=-2.0, hemisphere=1, **k),
           lat=LAT[:2], mlt=MLT[:2]),
        Op('satellite_track south', lambda **k: cycle_boundary.satellite_track(
            x1=-15.0, y1=3.0, x2=14.0, y2=-2.0, hemisphere=-1, del_x=3.0,
            **k), lat=LAT, mlt=MLT)]
    return res


def jobs(tier):
    num = len(ops())
    res = [('arrays', [tier, i]) for i in range(num)]
    res += [('selection', [k]) for k in range(4)]
    res += [('loading', []), ('files', []), ('histories', [0]),
            ('histories', [1]), ('rfunc', []), ('pysat', [])]
    return res


def leaves(obj):
    """All arrays and numbers of a result."""
    if isinstance(obj, VD):
        obj = out(obj)
    if isinstance(obj, dict):
        return [v for k in sorted(obj) for v in leaves(obj[k])]
    if isinstance(obj, (list, tuple)):
        return [v for item in obj for v in leaves(item)]
    return [obj]


def arrays_of(obj):
    return [v for v in leaves(obj) if isinstance(v, np.ndarray)
            and v.dtype != object]


def snapshot(val):
    if isinstance(val, np.ndarray):
        base = val.base if isinstance(val.base, np.ndarray) else val
        return (type(val), val.dtype.str, val.shape, val.strides,
                val.flags.writeable, base.tobytes() if base.dtype != object
                else canon(base))
    if isinstance(val, (list, tuple)):
        return (type(val), [snapshot(v) for v in val])
    if isinstance(val, dict):
        return (type(val), [(k, snapshot(v)) for k, v in val.items()])
    return (type(val), canon(val))


def numeric(obj):
    """Comparable values of a result."""
    res = []
    for leaf in leaves(obj):
        if isinstance(leaf, np.ndarray) and leaf.dtype == object:
            res.append(canon(leaf))
        elif leaf is None or isinstance(leaf, str):
            res.append(leaf)
        else:
            res.append(np.array(leaf, dtype=float))
    return res


def agree(one, two):
    if len(one) != len(two):
        return False
    for a, b in zip(one, two):
        if isinstance(a, np.ndarray) != isinstance(b, np.ndarray):
            return False
        if isinstance(a, np.ndarray):
            if a.shape != b.shape or not np.allclose(
                    a, b, rtol=1e-9, atol=1e-9, equal_nan=True):
                return False
        elif a != b:
            return False
    return True


def execute(op, args, base, rep, case):
    """Run with these arguments; check arguments, sharing and result."""
    before = {k: snapshot(v) for k, v in args.items()}
    rep.state(case)
    try:
        res = op.func(**args)
    except Exception as exc:
        rep.violate(case, 'raised %s: %s' % (type(exc).__name__, exc),
                    want=base)
        return None
    rep.step(1, op.name)
    for k, v in args.items():
        if snapshot(v) != before[k]:
            rep.violate(case + [k], 'argument was modified', v, before[k][-1])
            return None
    got = numeric(res)
    if base is not None and not agree(got, base):
        rep.violate(case, 'result depends on the kind of container', got,
                    base)
        return None
    hold = arrays_of(res)
    for k, v in args.items():
        if not isinstance(v, np.ndarray):
            continue
        for arr in hold:
            if np.shares_memory(arr, v):
                rep.violate(case + [k], 'result shares memory with the '
                            'argument', arr, v)
                return None
    # changing the caller's writable arrays later leaves the result alone
    for k, v in args.items():
        if isinstance(v, np.ndarray) and v.flags.writeable:
            v[...] = 7
        elif isinstance(v, list):
            v[:] = [7] * len(v)
    if not agree(numeric(res), got):
        rep.violate(case, 'changing an argument later changes the result',
                    numeric(res), got)
        return None
    rep.trace(case, got)
    return got


def kinds(vals):
    """Fresh containers by name (values of int kinds must be integral)."""
    return dict(gen.containers(vals))


def arrays(params, rep):
    tier, iop = params
    op = ops()[iop]
    keys = list(op.args)
    for ipat in range(op.npat):
        vals = {k: op.args[k][min(ipat, len(op.args[k]) - 1)] for k in keys}

        def args(choice):
            res = {}
            for k, name in zip(keys, choice):
                kk = kinds(vals[k])
                if name not in kk:
                    return None
                res[k] = kk[name]
            return res

        base = execute(op, args([op.kinds[0]] * len(keys)), None, rep,
                       [op.name, ipat, 'base'])
        if base is None:
            continue
        combos = set(itertools.product(op.kinds, repeat=1)
                     ) if len(keys) == 1 else set()
        if tier == 'thorough' and len(keys) <= 4:
            combos = set(itertools.product(op.kinds, repeat=len(keys)))
        for name in op.kinds:
            combos.add((name,) * len(keys))
        for i, j in itertools.combinations(range(len(keys)), 2):
            for n1, n2 in itertools.product(op.kinds, op.kinds):
                choice = [op.kinds[0]] * len(keys)
                choice[i], choice[j] = n1, n2
                combos.add(tuple(choice))
        for choice in sorted(combos):
            got = args(choice)
            if got is not None:
                execute(op, got, base, rep, [op.name, ipat, choice])
        scalar(op, keys, vals, rep, ipat)
        if not op.name.startswith(('VectorData', 'get_aacgm', 'Dual')):
            wide(op, keys, vals, base, rep, ipat)


SKIP = ('VectorData', 'get_aacgm_boundary_lat records')


def scalar(op, keys, vals, rep, ipat):
    """Every kind of scalar."""
    if op.name.startswith(SKIP) and not op.name.startswith('VectorData '):
        return
    if op.name in ('VectorData indices', 'VectorData boundary location',
                   'VectorData magnitude'):
        return
    for i in range(4):
        base = None
        for n, name in enumerate(['float', '0d', 'np', 'intscalar', 'ro0d']):
            args = {}
            for k in keys:
                have = dict(gen.scalars(vals[k][i]))
                have['ro0d'] = np.array(vals[k][i])
                have['ro0d'].setflags(write=False)
                if name not in have:
                    args = None
                    break
                args[k] = have[name]
            if args is None:
                continue
            got = execute(op, args, base, rep, [op.name, ipat, i, name])
            if base is None:
                base = got


def wide(op, keys, vals, base, rep, ipat):
    """Two dimensions, also in Fortran order."""
    for order in 'CF':
        args = {k: np.array(np.reshape(vals[k], (2, 2)), order=order)
                for k in keys}
        try:
            op.func(**{k: v.copy() for k, v in args.items()})
        except (ValueError, IndexError, TypeError):
            continue           # not every operation has to accept these
        got = execute(op, args, None, rep, [op.name, ipat, '2d', order])
        if got is not None and not agree([np.ravel(g) for g in got],
                                         [np.ravel(b) for b in base]):
            rep.violate([op.name, ipat, '2d', order], 'result depends on the '
                        'shape', got, base)


# --------------------------------------------------------------------------
def crit():
    return [{}, {'r': ('min', 14.0)}, {'r': ('mineq', 15.0), 'r_cent': (
        'max', 4.5)}, {'phi_cent': ['maxeq', 200.0]}, {'unknown': (
            'min', 3.0)}, {'fom': ('equal', 2.5), 'nothing': ('max', 1.0)}]


def selection(params, rep):
    """Dictionaries of criteria, times in lists and arrays."""
    part = params[0]
    tim = [T + dt.timedelta(seconds=s) for s in (-30, 10, 61, 100, 181, 500)]
    for hemi in (1, -1):
        for lo, hi in ((None, None), (0.0, 9.0), (3, 9)):
            if part == 0:
                for kw in crit():
                    obj = boundary(hemi)
                    ref = copy.deepcopy(kw)
                    cycle_boundary.retrieve_all_good_indices(
                        obj, min_merit=lo, max_merit=hi, **kw)
                    obj.get_next_good_ocb_ind(min_merit=lo, max_merit=hi,
                                              **kw)
                    rep.step(2)
                    rep.trace(['criteria', hemi, lo, hi, ref], kw)
                    if kw != ref:
                        rep.violate(['criteria', ref], 'modified', kw, ref)
            elif part == 1:
                for kw, cont in itertools.product(
                        crit(), ('list', 'array', 'readonly')):
                    for dual in (False, True):
                        data = list(tim) if cont == 'list' else np.array(tim)
                        if cont == 'readonly':
                            data.setflags(write=False)
                        obj = boundary(hemi, dual, -1)
                        before = (snapshot(data), copy.deepcopy(kw))
                        dkw = {} if dual else kw
                        idat = 0
                        found = []
                        while idat is not None and idat < len(data):
                            idat = cycle_boundary.match_data_ocb(
                                obj, data, idat=idat, max_tol=30,
                                min_merit=lo, max_merit=hi, **dkw)
                            rep.step(1)
                            if idat is not None and idat < len(data):
                                found.append((idat, int(obj.rec_ind)))
                                idat += 1
                        case = ['match', hemi, dual, cont, lo, hi, before[1]]
                        rep.trace(case, found)
                        if (snapshot(data), kw) != before:
                            rep.violate(case, 'modified', [data, kw], before)
            else:
                for okw, ekw in itertools.product(crit() + [None],
                                                  crit() + [None]):
                    obj = boundary(hemi, True)
                    before = copy.deepcopy([okw, ekw])
                    pair = []
                    for rpt in range(2):
                        if part == 2:
                            obj.set_good_ind(lo, hi, okw, lo, hi, ekw)
                        else:
                            obj.set_good_ind(ocb_kwargs=okw, eab_kwargs=ekw)
                        pair.append(obj.records)
                    rep.step(2)
                    case = ['pairs', hemi, lo, hi, before]
                    rep.trace(case, pair)
                    if [okw, ekw] != before:
                        rep.violate(case, 'modified', [okw, ekw], before)
                    # one dictionary for both boundaries
                    if okw is not None:
                        obj.set_good_ind(ocb_kwargs=okw, eab_kwargs=okw)
                        if okw != before[0]:
                            rep.violate(case, 'modified', okw, before[0])


def rfunc(params, rep):
    """Correction functions and arguments are neither modified nor kept."""
    recs = [gen.rec(60 * i, 14.0 + i, 1.0, 2.0) for i in range(3)]
    for cls, hemi in itertools.product(
            (gen.ocbpy.OCBoundary, gen.ocbpy.EABoundary), (1, -1)):
        for kind in ('dict', 'array', 'functions', 'shared'):
            func = gen.bump
            kws = {'amp': 1.0, 'width': 2.0}
            if kind != 'dict':
                kws = np.array([{'amp': 1.0 + i} for i in range(3)])
            if kind == 'shared':
                one = {'amp': 3.0}
                kws = np.array([one, one, one])
            if kind == 'functions':
                func = np.array([gen.bump, ocbcor.circular, gen.bump])
                kws = np.array([{'amp': 1.0}, {'r_add': 2.0}, {'width': 3.0}])
            before = copy.deepcopy([kws])
            obj = gen.ocb('image', recs, hemi, cls=cls, rfunc=func,
                          rfunc_kwargs=kws)
            case = ['rfunc', cls.__name__, hemi, kind]
            rep.state(case)

            def probe():
                res = []
                for i in range(3):
                    obj.rec_ind = i
                    res += [float(v) for v in obj.normal_coord(hemi * 70.0,
                                                               5.0)]
                return res

            first = probe()
            obj.get_aacgm_boundary_lat([1.0, 2.0])
            repr(obj), str(obj)
            if canon(before) != canon([kws]):
                rep.violate(case, 'modified', kws, before)
            # the caller changes everything afterwards
            if kind == 'functions':
                func[0] = ocbcor.circular
            items = [kws] if kind == 'dict' else list(kws)
            for item in items:
                for k in list(item):
                    item[k] = 99.0
            if kind != 'dict':
                kws[0] = {'r_add': 55.0}
            second = probe()
            rep.step(8)
            rep.trace(case, first)
            if not np.allclose(first, second):
                rep.violate(case, 'changing the inputs later changes the '
                            'boundary', second, first)


def loading(params, rep):
    """Lists and dictionaries of the ASCII loader."""
    path = os.path.join(gen.jobdir(), 'table.txt')
    rows = ['2010-06-01 12:00:00 1 a 2.5', '2010-06-01 12:01:00 2 b 3.5']
    for num, hdr in itertools.product((1, 2), (True, False)):
        with open(path, 'w') as fout:
            fout.write('date time n s v\n' if hdr else '')
            fout.write('\n'.join(rows[:num]) + '\n')
        for cont in ('list', 'tuple', 'array'):
            mk = {'list': list, 'tuple': tuple, 'array': np.array}[cont]
            args = {'datetime_cols': [0, 1], 'int_cols': [2], 'str_cols': [3],
                    'datetime_fmt': 'YYYY-MM-DD HH:MM:SS',
                    'header': ['date time n s v'] if not hdr else None,
                    'gft_kwargs': {'comments': '#'}}
            if cont != 'list':
                args['datetime_cols'] = [0, 1]
                args['int_cols'] = mk(args['int_cols']).tolist() if (
                    cont == 'array') else [2]
            args['datetime_fmt'] = '%Y-%m-%d %H:%M:%S'
            before = {k: snapshot(v) for k, v in args.items()}
            res = []
            for rpt in range(2):
                head, data = general.load_ascii_data(path, 1 if hdr else 0,
                                                     **args)
                res.append(canon([head, {k: np.asarray(v).tolist() for k, v
                                         in data.items()}]))
                rep.step(1)
                for k, v in args.items():
                    if snapshot(v) != before[k]:
                        rep.violate(['load_ascii_data', num, hdr, cont, k],
                                    'modified', v, before[k][-1])
                if isinstance(args['header'], list) and head is args[
                        'header']:
                    rep.violate(['load_ascii_data', num, hdr], 'header list '
                                'is shared with the caller')
            rep.trace(['load_ascii_data', num, hdr, cont], res)
            if res[0] != res[1]:
                rep.violate(['load_ascii_data', num, hdr, cont],
                            'second load differs', res[1], res[0])


def files(params, rep):
    """The converters leave the boundary selection keywords, the boundary's
    data and the scaling inputs as they were."""
    base = gen.jobdir()
    vfile = os.path.join(base, 'vort.txt')
    with open(vfile, 'w') as fout:
        fout.write('2010 06 01 20\n\n')
        for hour in (12.0, 12.02, 12.04):
            fout.write('%f 4\n' % hour)
            for k in range(4):
                fout.write('%f %f %f %f 1.0 2.0 1.0 0.5 0.25\n' % (
                    0.01 * k, 75.0 - k, 80.0 + k, 3.0 + k))
    path = '/repo/ocbpy/tests/test_data/test_vort'
    path = os.path.join(gen.REPO, 'ocbpy/tests/test_data/test_vort')
    sfile = os.path.join(gen.REPO, 'ocbpy/tests/test_data/test_supermag')
    for kw in crit():
        for which, src in ((vort.vort2ascii_ocb, path),
                           (supermag.supermag2ascii_ocb, sfile)):
            if not os.path.isfile(src):
                continue
            ref = copy.deepcopy(kw)
            obj = gen.ocb('image', [gen.rec(dt.datetime(2000, 5, 5, 11, 35)
                                            + dt.timedelta(minutes=i), 14.0,
                                            1.0, 2.0) for i in range(20)], 1)
            keep = canon([obj.r, obj.phi_cent, obj.r_cent, obj.fom,
                          obj.dtime])
            for rpt in range(2):
                which(src, os.path.join(base, 'out.txt'), hemisphere=1,
                      ocb=obj, **kw)
                rep.step(1)
            case = [which.__name__, ref]
            rep.trace(case, kw)
            if kw != ref:
                rep.violate(case, 'modified', kw, ref)
            if keep != canon([obj.r, obj.phi_cent, obj.r_cent, obj.fom,
                              obj.dtime]):
                rep.violate(case, 'boundary data were modified')


def histories(params, rep):
    """The same caller arrays are used for two operations in a row, in every
    order: both give what they give with fresh arrays, and objects made from
    the same arrays are independent."""
    hemi = 1 - 2 * params[0]
    lat = np.array([75.0, NAN, -70.0, 88.0])
    lt = np.array([3.0, 27.0, -4.0, 24.0])
    val = np.array([50.0, 0.0, -30.0, 10.0])
    if hemi < 0:
        lat = -lat
    uses = [('single', lambda a, b, v: boundary(hemi).normal_coord(a, b)),
            ('revert', lambda a, b, v: boundary(hemi).revert_coord(a, b)),
            ('dual', lambda a, b, v: boundary(hemi, True).normal_coord(a, b)),
            ('drevert', lambda a, b, v: boundary(hemi, True).revert_coord(
                a, b, is_ocb=False, aacgm_mlt=b)),
            ('calc', lambda a, b, v: boundary(hemi, True).calc_r(a, b, b, v)),
            ('vector', lambda a, b, v: vec(hemi, lat=a, lt=b, vect_n=v,
                                           vect_e=v)),
            ('dvector', lambda a, b, v: vec(hemi, True, lat=a, lt=b, vect_n=v,
                                            vect_e=v)),
            ('track', lambda a, b, v: cycle_boundary.satellite_track(
                a, b, -15.0, 3.0, 14.0, -2.0, hemi)),
            ('range', lambda a, b, v: ocb_time.fix_range(b, 0.0, 24.0)),
            ('glon', lambda a, b, v: ocb_time.slt2glon(b, T)),
            ('quad', lambda a, b, v: vectors.define_vect_quadrants(v, v)),
            ('evar', lambda a, b, v: ocb_scaling.normal_curl_evar(
                v, b, b)),
            ('edge', lambda a, b, v: blat(b))]
    fresh = {n: numeric(f(lat.copy(), lt.copy(), val.copy()))
             for n, f in uses}
    for (n1, f1), (n2, f2) in itertools.product(uses, uses):
        a, b, v = lat.copy(), lt.copy(), val.copy()
        r1 = f1(a, b, v)
        r2 = f2(a, b, v)
        rep.step(2)
        case = [hemi, n1, n2]
        rep.state(case)
        if not agree(numeric(r2), fresh[n2]) or not agree(numeric(r1),
                                                          fresh[n1]):
            rep.violate(case, 'result depends on earlier use of the arrays',
                        numeric(r2), fresh[n2])
        for x in arrays_of(r1):
            for y in arrays_of(r2):
                if np.shares_memory(x, y):
                    rep.violate(case, 'two results share memory', x, y)
        rep.trace(case, numeric(r2))


def pysat(params, rep):
    """Name lists and dictionaries of the pysat functions."""
    if gen.pysat is None:
        return
    from ocbpy.instruments import pysat_instruments as pins
    import pandas as pds
    for hemi in (1, -1):
        inst = gen.pysat.Instrument('pysat', 'testing', num_samples=20,
                                    use_header=True)
        inst.load(2009, 1)
        num = len(inst.index)
        inst['mlat'] = hemi * np.linspace(60.0, 89.0, num)
        inst['mlts'] = np.linspace(0.0, 23.0, num)
        for k in 'abcdef':
            inst[k] = np.arange(num) * 1.0 + ord(k)
        recs = [gen.rec(inst.index[0].to_pydatetime()
                        + dt.timedelta(minutes=i), 14.0, 1.0, 2.0)
                for i in range(10)]
        for rpt, evars in enumerate((['a'], ['a', 'vec'])):
            obj = gen.ocb('image', recs, hemi)
            curls = ['b']
            vecs = {'vec': {'scale_func': None, 'vect_n': 'c', 'vect_e': 'd',
                            'dat_name': 'vec', 'dat_units': 'm/s',
                            'vect_coord': 'magnetic'},
                    'cur': {'vect_n': 'e', 'vect_z': 'f',
                            'dat_name': 'cur', 'dat_units': 's-1',
                            'scale_func': ocb_scaling.normal_curl_evar}}
            before = [list(evars), list(curls), copy.deepcopy(vecs)]
            cols = {k: np.array(inst[k].values) for k in inst.variables}
            for again in range(2):
                pins.add_ocb_to_data(inst, mlat_name='mlat', mlt_name='mlts',
                                     evar_names=evars, curl_evar_names=curls,
                                     vector_names=vecs, hemisphere=hemi,
                                     ocb=obj, max_sdiff=600)
                rep.step(1)
                case = ['add_ocb_to_data', hemi, rpt, again]
                rep.trace(case, sorted(inst.variables))
                obj.rec_ind = -1
                if [evars, curls] != before[:2] or canon(vecs) != canon(
                        before[2]):
                    rep.violate(case, 'modified', [evars, curls, vecs],
                                before)
                for k, v in cols.items():
                    if '_ocb' not in k and not pds.Series(v).equals(
                            pds.Series(np.array(inst[k].values))):
                        rep.violate(case + [k], 'data were modified')
