"""P22: evaluating a representation rebuilds an equal object."""
import datetime as dt
import itertools
import os

from mc import gen
from mc.core import canon
from mc.gen import np
import ocbpy.ocb_correction
import ocbpy.ocb_scaling

TECHNIQUE = ('exhaustive enumeration of object configurations x operation '
             'histories on the real classes; in each state the object and its '
             'evaluated representation are compared attribute by attribute '
             'and by what their conversions return, and the object before and '
             'after producing the texts')
ORACLE = ('the object itself: the rebuilt object has equal attributes and '
          'conversions; the texts leave the complete attribute state '
          'unchanged')
BOUND = {'quick': 'boundaries: 2 classes x 3 instruments x 2 hemispheres x 7 '
                  'reference latitudes x 7 windows x 11 corrections and every '
                  'sequence of 2 of 9 operations; dual pairs of them; '
                  'vectors: 9 index/shape layouts x components x coordinates '
                  'x names x 5 scaling functions x 5 histories',
         'thorough': 'sequences of 3 operations and the full products'}
JOB_CPU_LIMIT = 840
SPACE = {'ocbpy': gen.ocbpy, 'numpy': np, 'np': np, 'datetime': __import__(
    'datetime'), 'nan': float('nan'), 'inf': float('inf'),
    'mc': __import__('mc.gen')}

TIMES = [gen.T0, gen.T0 + dt.timedelta(seconds=60),
         gen.T0 + dt.timedelta(seconds=180),
         dt.datetime(2011, 1, 1), dt.datetime(2011, 1, 1, 0, 1)]
LATS = [None, 74.0, -72.5, 70, 68.123456789, 1.0 / 3.0 + 70.0,
        np.float64(66.7)]


def records(inst):
    rads = (14.1, 9.7, 12.3, 17.9, 21.0)
    return [gen.rec(t, r, x=1.5 - i, y=-2.0 + 0.7 * i)
            for i, (t, r) in enumerate(zip(TIMES, rads))]


def windows(full):
    out = [('all', {}), ('first', {'etime': TIMES[0]}),
           ('none', {'stime': dt.datetime(2015, 1, 1)}),
           ('mid', {'stime': TIMES[1], 'etime': TIMES[2]}),
           ('beside', {'stime': TIMES[0] + dt.timedelta(seconds=1),
                       'etime': TIMES[-1] - dt.timedelta(seconds=1)}),
           ('last', {'stime': TIMES[-1], 'etime': dt.datetime(2020, 1, 1)}),
           ('wide', {'stime': dt.datetime(1990, 1, 1),
                     'etime': dt.datetime(2030, 1, 1, 0, 0, 0, 5)})]
    return out


def count(win):
    return len([t for t in TIMES if win.get('stime', t) <= t
                <= win.get('etime', t)])


INSTS = ['image', 'ampere', 'dmsp-ssj']


def jobs(tier):
    out = []
    for cls, inst, hemi in itertools.product(('ocb', 'eab'), INSTS, (1, -1)):
        out.append(('config', [tier, cls, inst, hemi]))
    for cls, inst in (('ocb', 'ampere'), ('eab', 'image'), ('ocb', 'image')):
        for first in range(len(OPS)):
            out.append(('history', [tier, cls, inst, first]))
    for hemi in (1, -1):
        for oinst in INSTS:
            out.append(('duals', [tier, hemi, oinst]))
    out.append(('nofile', [tier]))
    for lay in range(len(LAYOUTS)):
        for hist in range(5):
            out.append(('vectors', [tier, lay, hist]))
    out.append(('texts', [tier]))
    return out


OPS = ['normal', 'one', 'revert', 'lat', 'latone', 'next', 'vector', 'geo',
       'cursor']


def operate(obj, op, hemi):
    lat = hemi * np.array([80.0, 62.0, -50.0])
    mlt = np.array([3.0, 15.5, 20.0])
    if op == 'normal':
        obj.normal_coord(lat, mlt)
    elif op == 'one':
        obj.normal_coord(lat[0], mlt[0])
    elif op == 'revert':
        obj.revert_coord(lat, mlt, 0.5)
    elif op == 'lat' and hasattr(obj, 'get_aacgm_boundary_lat'):
        if obj.records > 0:
            obj.get_aacgm_boundary_lat(mlt)
    elif op == 'lat':
        if obj.records > 0:
            obj.get_aacgm_boundary_lats(mlt)
    elif op == 'latone' and hasattr(obj, 'get_aacgm_boundary_lat'):
        if obj.records > 0:
            obj.get_aacgm_boundary_lat(3.0, rec_ind=0, overwrite=True)
    elif op == 'latone':
        if obj.records > 0:
            obj.get_aacgm_boundary_lats(3.0, rec_ind=0, overwrite=True)
    elif op == 'next':
        if hasattr(obj, 'get_next_good_ocb_ind'):
            obj.get_next_good_ocb_ind()
        else:
            obj.get_next_good_ind()
    elif op == 'vector':
        if obj.records > 0:
            gen.ocbpy.ocb_scaling.VectorData(
                0, 0, hemi * 76.0, 4.0, vect_n=3.0, vect_e=4.0).set_ocb(obj)
    elif op == 'geo':
        obj.normal_coord(lat[:2], mlt[:2], coords='geodetic')
    elif op == 'cursor':
        obj.rec_ind = max(obj.records - 1, 0)


def state(obj):
    """Complete attribute state, for 'never alters the object'."""
    out = {}
    for key, val in gen.public(obj).items():
        if key in ('ocb', 'eab'):
            out[key] = state(val)
        elif isinstance(val, np.ndarray) and val.dtype == object:
            out[key] = [getattr(v, '__name__', None) or canon(v)
                        for v in val.ravel()]
        elif callable(val):
            out[key] = val.__name__
        else:
            out[key] = val
    return canon(out)


DATA = {'image': 'num_sectors phi_cent r_cent r a r_err fom year soy',
        'ampere': 'date time r x y fom r_cent phi_cent',
        'dmsp-ssj': 'sc date time r x y fom x_1 y_1 x_2 y_2 r_cent phi_cent'}


def same_boundary(one, two, hemi):
    """-> name of the first difference or None"""
    for key in ('filename', 'instrument', 'hemisphere', 'records', 'min_fom',
                'max_fom'):
        if getattr(one, key) != getattr(two, key):
            return key, getattr(two, key), getattr(one, key)
    if type(one) is not type(two):
        return 'class', type(two), type(one)
    if float(one.boundary_lat) != float(two.boundary_lat):
        return 'boundary_lat', two.boundary_lat, one.boundary_lat
    for key in ['dtime'] + DATA.get(one.instrument, '').split():
        if getattr(one, key, None) is None:
            if getattr(two, key, None) is not None:
                return key, getattr(two, key), None
        elif canon(list(getattr(one, key))) != canon(
                list(getattr(two, key))):
            return key, getattr(two, key), getattr(one, key)
    for key in ('rfunc', 'rfunc_kwargs'):
        val, new = getattr(one, key), getattr(two, key)
        if (val is None) != (new is None):
            return key, new, val
        if val is not None:
            if np.shape(val) != np.shape(new):
                return key + ' shape', np.shape(new), np.shape(val)
            if list(np.ravel(val)) != list(np.ravel(new)):
                return key, new, val
    for i in range(one.records):
        keep = one.rec_ind, two.rec_ind
        one.rec_ind = two.rec_ind = i
        got = two.normal_coord(hemi * np.array([80.0, 62.0]),
                               np.array([3.0, 15.0]))
        want = one.normal_coord(hemi * np.array([80.0, 62.0]),
                                np.array([3.0, 15.0]))
        one.rec_ind, two.rec_ind = keep
        if not all(np.allclose(g, w, 1e-12, 1e-10, equal_nan=True)
                   for g, w in zip(got, want)):
            return 'conversion', got, want
    return None


def examine(obj, hemi, rep, case, same):
    rep.state(case)
    rep.step(2, 'texts')
    before = state(obj)
    text = repr(obj)
    shown = str(obj)
    if state(obj) != before:
        rep.violate(case, 'producing the texts altered the object',
                    state(obj), before)
    if not isinstance(text, str) or not isinstance(shown, str) or not shown:
        rep.violate(case, 'no text', [text, shown], 'text')
    try:
        new = eval(text, dict(SPACE))
    except Exception as exc:
        rep.violate(case, 'representation cannot be evaluated: %r' % exc,
                    text[:1000], 'object')
        return None
    diff = same(obj, new, hemi)
    rep.trace(case, diff[0] if diff else 'equal')
    if diff is not None:
        rep.violate(case, 'rebuilt object differs: ' + diff[0], diff[1],
                    diff[2])
    elif repr(new) != text and 'wide' not in canon(case):
        again = same(obj, eval(repr(new), dict(SPACE)), hemi)
        if again is not None:
            rep.violate(case, 'rebuilt again object differs: ' + again[0],
                        again[1], again[2])
    return new


def klass(cls):
    return gen.ocbpy.EABoundary if cls == 'eab' else gen.ocbpy.OCBoundary


def config(params, rep):
    tier, cls, inst, hemi = params
    path = gen.write(inst, records(inst))
    for (wname, win), name, blat in itertools.product(
            windows(True), gen.CORRS, LATS):
        if tier == 'quick' and blat not in (None, 74.0) and (
                LATS.index(blat) + gen.CORRS.index(name)) % 3:
            continue
        kw, _ = gen.corrections(name, inst, count(win), cls)
        if name in ('kwarray', 'array'):
            for key in kw:
                if np.ndim(kw[key]):
                    kw[key] = np.array(kw[key], dtype=object)
        if blat is not None:
            kw['boundary_lat'] = blat
        obj = klass(cls)(filename=path, instrument=inst, hemisphere=hemi,
                         **win, **kw)
        case = [cls, inst, hemi, wname, name, blat]
        if obj.records != count(win):
            rep.violate(case, 'records', obj.records, count(win))
        examine(obj, hemi, rep, case, same_boundary)
    os.remove(path)


def history(params, rep):
    tier, cls, inst, first = params
    path = gen.write(inst, records(inst))
    deep = 2 if tier == 'quick' else 3
    for hemi, (wname, win), name in itertools.product(
            (1, -1), windows(True), ('default', 'bump', 'array', 'kwarray')):
        num = count(win)
        if num == 0 and name != 'default':
            continue
        for ops in itertools.product(OPS, repeat=deep - 1):
            kw, _ = gen.corrections(name, inst, num, cls)
            obj = klass(cls)(filename=path, instrument=inst, hemisphere=hemi,
                             **win, **kw)
            for op in (OPS[first],) + ops:
                operate(obj, op, hemi)
                rep.step(1, op)
            examine(obj, hemi, rep, [cls, inst, hemi, wname, name,
                                     OPS[first], ops], same_boundary)
    os.remove(path)


def same_dual(one, two, hemi):
    for key in ('max_delta', 'hemisphere', 'records'):
        if getattr(one, key) != getattr(two, key):
            return key, getattr(two, key), getattr(one, key)
    for key in ('ocb_ind', 'eab_ind', 'dtime'):
        if canon(getattr(one, key)) != canon(getattr(two, key)):
            return key, getattr(two, key), getattr(one, key)
    for key in ('ocb', 'eab'):
        diff = same_boundary(getattr(one, key), getattr(two, key), hemi)
        if diff is not None:
            return key + '.' + diff[0], diff[1], diff[2]
    return None


def duals(params, rep):
    tier, hemi, oinst = params
    for einst, delta in itertools.product(
            INSTS, (60, 1, 30.5) if tier == 'thorough' else (60, 0.5)):
        opath = gen.write(oinst, records(oinst))
        epath = gen.write(einst, [dict(rr, r=rr['r'] + 12.0) for rr in
                                  records(einst)])
        for wname, win in windows(True):
            names = [('default', 'default'), ('circ', 'kwarray'),
                     ('array', 'bump')]
            if tier == 'thorough':
                names += [('kwarray', 'array'), ('bump', 'circ'),
                          ('ell', 'default')]
            for oname, ename in names:
                num = count(win)
                if num == 0 and oname != 'default':
                    continue
                okw, _ = gen.corrections(oname, oinst, num, 'ocb')
                ekw, _ = gen.corrections(ename, einst, num, 'eab')
                kws = {'ocb_' + k: v for k, v in okw.items()}
                kws.update({'eab_' + k: v for k, v in ekw.items()})
                for olat, elat in ((74.0, 64.0), (-78.7, 60.1234567891)):
                    if tier == 'quick' and delta != 60 and olat > 0:
                        continue
                    for ops in ((), ('normal',), ('next', 'lat'),
                                ('latone', 'one', 'cursor'), ('vector',)):
                        obj = gen.ocbpy.DualBoundary(
                            eab_filename=epath, ocb_filename=opath,
                            eab_instrument=einst, ocb_instrument=oinst,
                            hemisphere=hemi, ocb_lat=olat, eab_lat=elat,
                            max_delta=delta, **win, **kws)
                        for op in ops:
                            operate(obj, op, hemi)
                            rep.step(1, op)
                        examine(obj, hemi, rep,
                                [hemi, oinst, einst, delta, wname, oname,
                                 ename, olat, ops], same_dual)
        os.remove(opath)
        os.remove(epath)


def nofile(params, rep):
    empty = os.path.join(gen.jobdir(), 'none')
    for cls, hemi, inst, blat, win, func in itertools.product(
            ('ocb', 'eab'), (1, -1), INSTS + ['', 'IMAGE', None, 7],
            LATS, windows(True), (
                {}, {'rfunc': gen.bump}, {'rfunc_kwargs': {'amp': 2.0}},
                {'rfunc': gen.ocbcor.circular,
                 'rfunc_kwargs': {'r_add': 1.0}})):
        for fname in (None, empty):
            kw = dict(func)
            if blat is not None:
                kw['boundary_lat'] = blat
            obj = klass(cls)(filename=fname, instrument=inst,
                             hemisphere=hemi, **win[1], **kw)
            for op in ((), ('normal', 'next')):
                for one in op:
                    operate(obj, one, hemi)
                examine(obj, hemi, rep, [cls, hemi, inst, blat, win[0],
                                         sorted(func), fname is None, op],
                        same_boundary)
    for hemi in (1, -1):
        for delta in (60, 5):
            obj = gen.ocbpy.DualBoundary(
                eab_filename=None, ocb_filename=None, hemisphere=hemi,
                max_delta=delta)
            examine(obj, hemi, rep, ['dual', hemi, delta], same_dual)


# vectors ------------------------------------------------------------------
# data index, boundary index, shape of the location, shape of the vector
LAYOUTS = [('s', 's', 's', 's'), ('v', 's', 'v', 'v'), ('v', 's', 's', 'v'),
           ('v', 's', 'v', 's'), ('v', 'v', 'v', 'v'), ('s', 'v', 's', 's'),
           ('1', 's', '1', '1'), ('v', 'v', 'v', 's'), ('1', '1', '1', '1')]
ATTRS = ('dat_ind ocb_ind lat lt height loc_coord ocb_lat ocb_mlt r_corr '
         'vect_n vect_e vect_z vect_mag vect_coord dat_name dat_units '
         'scale_func').split()


def same_vector(one, two, hemi):
    if type(one) is not type(two):
        return 'class', type(two), type(one)
    for key in ATTRS:
        val, new = getattr(one, key), getattr(two, key)
        if isinstance(val, np.ndarray):
            if one.dat_ind.shape == () and one.lat.shape == one.ocb_ind.shape:
                # one datum with a location at each boundary time
                val = np.broadcast_to(val, new.shape)
            if np.shape(val) != np.shape(new) or val.dtype != new.dtype \
               or not np.array_equal(val, new, equal_nan=True):
                if key == 'vect_mag' and np.shape(val) == np.shape(
                        new) and np.allclose(val, new, 1e-12, 0.0,
                                             equal_nan=True):
                    continue
                return key, new, val
        elif val != new and not (val != val and new != new):
            return key, new, val
    return None


def build(lay, shape3, lat, lt, height, comp, mag, coords, extra):
    dat, ocb, loc, vec = LAYOUTS[lay]

    def fit(kind, vals):
        if kind == 's':
            return vals[0]
        return np.array(vals[:1] if kind == '1' else vals)

    kw = {'dat_ind': fit(dat, [2, 0, 1]), 'ocb_ind': fit(ocb, [1, 2, 0]),
          'lat': fit(loc, lat), 'lt': fit(loc, lt),
          'loc_coord': coords[0], 'vect_coord': coords[1]}
    if height is not None:
        kw['height'] = fit(loc if loc != 's' else 's', height)
    for name, vals in zip(('vect_n', 'vect_e', 'vect_z'), comp):
        if vals is not None:
            kw[name] = fit(vec, vals)
    if mag:
        nn, ee, zz = [np.zeros(3) if v is None else np.array(v)
                      for v in comp]
        kw['vect_mag'] = fit(vec, list(np.sqrt(nn**2 + ee**2 + zz**2)))
    kw.update(extra)
    return gen.ocbpy.ocb_scaling.VectorData(**kw)


NAMES = [(None, None), ('ExB', 'm/s'), ('an array(2) of dtype=object', "it's"),
         ('multi\nline', '"q"\t\\'), ('', 'array')]
FUNCS = [None, gen.ocbpy.ocb_scaling.normal_evar,
         gen.ocbpy.ocb_scaling.normal_curl_evar, gen.ocbcor.circular,
         gen.bump]


def vectors(params, rep):
    tier, lay, hist = params
    NAN = float('nan')
    recs = [gen.rec(60 * i, 14.0 + i, phi=50.0 * i, rc=2.0 + i)
            for i in range(3)]
    for hemi in (1, -1):
        ocb = gen.ocb('image', recs, hemi)
        dual = gen.dual('image', recs, 'image', [
            dict(rr, r=rr['r'] + 10.0) for rr in recs], hemi)
        lats = [[hemi * 76.1, hemi * 84.3, hemi * 66.7],
                [hemi * 1 / 3.0 + hemi * 76, hemi * 80.0, NAN]]
        lts = [[4.1, 9.2 / 7.0, 22.3]]
        comps = [([1.1, 2.0, 1 / 3.0], [3.3, -4.4e-9, 5e11],
                  [0.1, -0.7, 2.0]),
                 ([0.0, 0.0, 0.0], [0.0, 0.0, 0.0], None),
                 ([10.0, 1 / 7.0, NAN], [-1 / 3.0, 0.0, 2.0], None)]
        grid = list(itertools.product(
            range(len(lats)), range(len(comps)), (None, [
                300.0, 351.123456789, 110.0]), (False, True),
            [('magnetic', 'magnetic'), ('geodetic', 'geodetic'),
             ('geocentric', 'magnetic')], range(len(NAMES)),
            range(len(FUNCS))))
        for n, (il, ic, height, mag, coords, iname, ifunc) in enumerate(grid):
            # pairwise in the quick tier: every value with every other value
            if tier == 'quick' and (il + ic + 2 * iname + 3 * ifunc + mag
                                    + (height is None)) % 3 != hist % 3:
                continue
            if hist in (2, 3, 4) and (coords[0] != 'magnetic' and ic
                                      and tier == 'quick'):
                continue
            case = [LAYOUTS[lay], hist, hemi, il, ic, height, mag, coords,
                    iname, ifunc]
            obj = build(lay, None, lats[il], lts[0], height, comps[ic], mag,
                        coords, {'dat_name': NAMES[iname][0],
                                 'dat_units': NAMES[iname][1],
                                 'scale_func': FUNCS[ifunc]})
            if hist == 1:
                shape = np.broadcast_shapes(
                    obj.dat_ind.shape, obj.ocb_ind.shape)
                vals = [np.full(shape, v) if shape else v for v in (
                    hemi * 75.5, 5.0 / 3.0, 0.25)]
                obj = build(lay, None, lats[il], lts[0], height, comps[ic],
                            mag, coords, {'ocb_lat': vals[0],
                                          'ocb_mlt': vals[1],
                                          'r_corr': vals[2],
                                          'dat_name': NAMES[iname][0],
                                          'dat_units': NAMES[iname][1],
                                          'scale_func': FUNCS[ifunc]})
            if hist >= 2:
                rep.step(1, 'set_ocb')
                if FUNCS[ifunc] in (gen.bump, gen.ocbcor.circular):
                    obj.scale_func = None
                obj.set_ocb(ocb if hist < 4 else dual)
                if hist == 3:
                    obj.set_ocb(dual)
                if obj.scale_func is None:
                    obj.scale_func = FUNCS[ifunc]
            new = examine(obj, hemi, rep, case, same_vector)
            if new is not None and ifunc < 3 and iname == ifunc:
                # the rebuilt vector converts to the same result
                # (calculated boundary locations are part of the object)
                bound = dual if (n % 2, n % 2, 0, 1, 1)[hist] else ocb
                rep.step(2, 'set_ocb')
                obj.set_ocb(bound)
                new.set_ocb(bound)
                for key in ('ocb_n', 'ocb_e', 'ocb_z', 'ocb_mag', 'ocb_lat',
                            'ocb_mlt', 'scaled_r', 'unscaled_r'):
                    one, two = getattr(obj, key), getattr(new, key)
                    if not np.allclose(one, two, 1e-6, 1e-9, equal_nan=True):
                        rep.violate(case, 'rebuilt vector converts to '
                                    'another ' + key, two, one)


def texts(params, rep):
    """Long arrays, other number types and display settings."""
    for num, kind in itertools.product((2, 999, 1001, 5000), (
            float, np.float32, 'int', 'i4')):
        for hemi in (1, -1):
            vals = 60.0 + 25.0 * np.arange(num) / num
            if kind == 'int':
                vals = vals.astype(int)
            elif kind == 'i4':
                vals = vals.astype(np.int32)
            else:
                vals = vals.astype(kind)
            obj = gen.ocbpy.ocb_scaling.VectorData(
                np.arange(num), 0, hemi * vals, vals % 24, vect_n=vals,
                vect_e=-vals, vect_z=vals % 7)
            examine(obj, hemi, rep, ['long', num, str(kind), hemi],
                    same_vector)
    for opts in ({'precision': 2}, {'threshold': 3}, {'suppress': True},
                 {'linewidth': 20}, {'floatmode': 'fixed', 'precision': 1},
                 {'nanstr': 'missing'}, {'sign': '+'}):
        with np.printoptions(**opts):
            vals = np.array([1e-7, 80.123456789, float('nan'), 66.6, 1e9])
            if 'nanstr' in opts:
                continue
            obj = gen.ocbpy.ocb_scaling.VectorData(
                np.arange(5), 0, np.array([70.0, 80.1, 81.2, 82.34567891234,
                                           71.0]),
                np.array([0.0, 1.123456789012, 3, 4, 5.0]), vect_n=vals,
                vect_e=2 * vals)
            examine(obj, 1, rep, ['display', str(opts)], same_vector)
