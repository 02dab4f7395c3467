"""P12: a vector array behaves exactly like its elements taken one by one."""
import itertools

from mc import gen
from mc.core import canon
from mc.gen import np
from ocbpy import ocb_scaling, vectors

TECHNIQUE = ('exhaustive exploration of all tuples of a pool of ordinary, '
             'aligned, undefined and out-of-hemisphere vectors in arrays, all '
             'tuples of records, all mixtures of scalar and array arguments, '
             'and breadth-first exploration of sequences of index and '
             'attribute changes and conversions, on the real objects')
ORACLE = ('the same object or function applied to each element alone; a '
          'freshly created object after any history')
BOUND = {'quick': 'pool of 14 vectors: all singles, pairs and 5 long arrays '
                  'x 2 hemispheres x 5 boundary kinds x 3 scalings; all '
                  'triples of 5 records x 14 vectors; 2^10 mixtures of 10 '
                  'arguments x 8 pairs; all sequences of 4 out of up to 12 '
                  'operations from 6 starting shapes; the single steps of '
                  'the rotation on all triples of 11 vectors and poles',
         'thorough': 'all triples of vectors; all 4-tuples of records; all '
                     'pairs in mixtures; sequences of 5 operations'}
VD = ocb_scaling.VectorData
NAN = float('nan')
RES = ['ocb_lat', 'ocb_mlt', 'r_corr', 'ocb_n', 'ocb_e', 'ocb_z', 'ocb_mag',
       'pole_angle', 'unscaled_r']
DEF = ['scaled_r', 'ocb_quad', 'vec_quad', 'ocb_aacgm_lat', 'ocb_aacgm_mlt']
SAME = ['lat', 'lt', 'vect_n', 'vect_e', 'vect_z', 'vect_mag', 'height']

#       lat    lt    n     e     z
POOL = [(75.0, 3.0, 3.0, -4.0, 1.0), (82.0, 14.5, -2.0, 0.5, 0.0),
        (86.0, 6.0, 0.0, 5.0, -1.0), (65.0, 20.0, 7.0, 0.0, 2.0),
        (89.0, 9.5, -1.0, -1.0, 0.3),
        (70.0, 2.0, 4.0, 3.0, 1.5),          # aligned with a pole
        (70.0, 14.0, 4.0, -3.0, 1.5),        # aligned, other side
        (87.5, 2.0, 2.0, 1.0, 0.5),          # poleward of the pole
        (78.0, 22.0, 0.0, 0.0, 0.0),         # no vector
        (78.0, 11.0, 0.0, 0.0, -3.0),        # vertical only
        (-75.0, 3.0, 3.0, -4.0, 1.0),        # other hemisphere
        (NAN, 3.0, 3.0, -4.0, 1.0), (75.0, NAN, 1.0, 1.0, 1.0),
        (75.0, 8.0, NAN, 2.0, 1.0)]
SHORT = [0, 2, 5, 9, 10, 13]
CENT = [(30.0, 4.0, 14.0), (200.0, 3.0, 15.0), (100.0, 5.0, 13.0),
        (300.0, 1.0, 17.0), (30.0, 2.0, 12.0)]
KINDS = ['image', 'ampere', 'eab', 'dual', 'array']


def make(kind, hemi):
    recs = [gen.rec(600 * i, r, phi=p, rc=c)
            for i, (p, c, r) in enumerate(CENT)]
    if kind == 'image':
        kw, _ = gen.corrections('bump', 'image', 5)
        return gen.ocb('image', recs, hemi, **kw)
    if kind == 'array':
        kw, _ = gen.corrections('array', 'ampere', 5)
        return gen.ocb('ampere', recs, hemi, **kw)
    if kind == 'ampere':
        return gen.ocb('ampere', recs, hemi)
    if kind == 'eab':
        return gen.eab('image', recs, hemi)
    erec = [gen.rec(600 * i + 3, 30.0 + i, phi=p + 40.0, rc=2.0)
            for i, (p, c, r) in enumerate(CENT)]
    orec = recs[:2] + [gen.rec(900, 15.0, phi=1.0, rc=1.0)] + recs[2:]
    kw, _ = gen.corrections('kwarray', 'image', 6)
    return gen.dual('image', orec, 'image', erec, hemi, 60, okw=kw)


def one(elem, ind, hemi, bound, func):
    la, lt, n, e, z = elem
    obj = VD(0, ind, hemi * la, lt, vect_n=n, vect_e=e, vect_z=z)
    obj.set_ocb(bound, scale_func=func)
    return values(obj, ())


def values(obj, shape):
    out = {}
    for key in RES + DEF + SAME:
        out[key] = np.asarray(getattr(obj, key), dtype=float)
    return out


def pick(vals, key, i, shape):
    arr = vals[key]
    if arr.shape == ():
        return float(arr)
    return float(arr[i])


def compare(rep, case, obj, alone, num):
    """alone: one set of values for each element of the array"""
    got = values(obj, (num,))
    for key in RES:
        if got[key].shape != (num,):
            rep.violate(dict(case, key=key), 'shape', got[key].shape, num)
            return False
    for i in range(num):
        # the correction and radius are those of a local time, which may be
        # defined when the location is not
        undef = alone[i]['pole_angle'] != alone[i]['pole_angle']
        for key in SAME + ([k for k in RES if k not in (
                'r_corr', 'unscaled_r')] if undef else RES + DEF):
            g = pick(got, key, i, (num,))
            w = float(alone[i][key])
            ok = (gen.close_mlt(g, w, 1e-9) if key == 'ocb_mlt'
                  else gen.close(g, w, 1e-9))
            if not ok:
                rep.violate(dict(case, element=i, key=key), 'differs from '
                            'the element alone', g, w)
                return False
    return True


def stack(elems, hemi):
    arr = np.array(elems, dtype=float)
    return (hemi * arr[:, 0], arr[:, 1], dict(
        vect_n=arr[:, 2], vect_e=arr[:, 3], vect_z=arr[:, 4]))


SCALE = [None, ocb_scaling.normal_evar, ocb_scaling.normal_curl_evar]


def arrays(params, rep):
    """Arrays of vectors with one record"""
    tier, kind, hemi = params['tier'], params['kind'], params['hemi']
    bound = make(kind, hemi)
    for ind, func in itertools.product((params['ind'],), SCALE):
        if tier == 'quick' and (ind, func) not in (
                (0, SCALE[0]), (1, SCALE[1]), (4, SCALE[2])):
            continue
        alone = [one(p, ind, hemi, bound, func) for p in POOL]
        tuples = [(i,) for i in range(len(POOL))]
        tuples += list(itertools.product(range(len(POOL)), repeat=2))
        if tier == 'thorough':
            tuples += list(itertools.product(range(len(POOL)), repeat=3))
        tuples += [tuple(range(14)), tuple(range(13, -1, -1)),
                   (3, 1, 2) * 40, (10, 11, 12, 13), tuple(range(14)) * 5]
        for tup in tuples:
            lat, lt, kw = stack([POOL[i] for i in tup], hemi)
            obj = VD(np.arange(len(tup)), ind, lat, lt, **kw)
            obj.set_ocb(bound, scale_func=func)
            rep.step(1, 'array')
            case = {'kind': kind, 'hemi': hemi, 'ind': ind, 'tuple': tup,
                    'func': getattr(func, '__name__', None)}
            if rep.state(case):
                compare(rep, case, obj, [alone[i] for i in tup], len(tup))
                rep.trace(case, obj.ocb_n)
        # scalar components or locations with arrays of the others
        for tup in itertools.product(SHORT, repeat=2):
            if tier == 'quick' and (sum(tup) + ind) % 2:
                continue
            lat, lt, kw = stack([POOL[i] for i in tup], hemi)
            for mask in itertools.product((0, 1), repeat=5):
                if sum(mask) == 5:
                    continue
                args = [lat, lt, kw['vect_n'], kw['vect_e'], kw['vect_z']]
                elems = []
                for q in range(2):
                    elems.append([float(a[0] if m else a[q])
                                  for a, m in zip(args, mask)])
                args = [a[0] if m else a for a, m in zip(args, mask)]
                obj = VD(np.arange(2), ind, args[0], args[1], vect_n=args[2],
                         vect_e=args[3], vect_z=args[4])
                obj.set_ocb(bound, scale_func=func)
                rep.step(1, 'mixed')
                ref = [one([hemi * el[0]] + el[1:], ind, hemi, bound, func)
                       for el in elems]
                case = {'kind': kind, 'hemi': hemi, 'ind': ind, 'tuple': tup,
                        'scalars': mask}
                rep.state(case)
                compare(rep, case, obj, ref, 2)
                if tier == 'quick' and tup[0] == tup[1]:
                    break
        rep.trace({'kind': kind, 'mixed': True}, None)


def records(params, rep):
    """One vector with several records, and a record for each vector"""
    tier, kind, hemi = params['tier'], params['kind'], params['hemi']
    bound = make(kind, hemi)
    num = 3 if tier == 'quick' else 4
    tuples = [(i,) for i in range(5)] + list(itertools.product(range(5),
                                                               repeat=num))
    for f, func in enumerate(SCALE):
        alone = {(p, i): one(POOL[p], i, hemi, bound, func)
                 for p in range(len(POOL)) for i in range(5)}
        for t, tup in enumerate(tuples):
            for p in range(len(POOL)):
                if tier == 'quick' and (t + p + f) % 3:
                    continue
                la, lt, n, e, z = POOL[p]
                obj = VD(0, np.array(tup), hemi * la, lt, vect_n=n,
                         vect_e=e, vect_z=z)
                obj.set_ocb(bound, scale_func=func)
                rep.step(1, 'records')
                case = {'kind': kind, 'hemi': hemi, 'inds': tup, 'elem': p,
                        'func': f}
                rep.state(case)
                compare(rep, case, obj, [alone[p, i] for i in tup], len(tup))
            elems = [(t * 3 + 5 * k) % len(POOL) for k in range(len(tup))]
            lat, lt, kw = stack([POOL[i] for i in elems], hemi)
            obj = VD(np.arange(len(tup)), np.array(tup), lat, lt, **kw)
            obj.set_ocb(bound, scale_func=func)
            rep.step(1, 'both')
            case = {'kind': kind, 'hemi': hemi, 'inds': tup, 'elems': elems,
                    'func': f}
            rep.state(case)
            compare(rep, case, obj, [alone[p, i] for p, i in zip(elems, tup)],
                    len(tup))
            rep.trace(case, obj.ocb_n)


def mixture(params, rep):
    """Every mixture of scalar and array arguments of the functions"""
    tier = params['tier']
    pole = [(14.0, 85.0), (2.0, 86.0)]
    pairs = list(itertools.product(range(len(POOL)), repeat=2))
    if tier == 'quick':
        pairs = [(0, 1), (2, 5), (6, 8), (9, 3), (13, 4), (12, 7), (1, 9),
                 (7, 6)]
    for tup in pairs[params['part']::params['parts']]:
        rows = []
        for k, i in enumerate(tup):
            la, lt, n, e, z = POOL[i]
            if la < 0:
                la = -la
            plt, pla = pole[k]
            rows.append([lt, la, n, e, z, plt, pla])
        for mask in itertools.product((0, 1), repeat=7):
            elems = [[rows[0][q] if m else rows[k][q]
                      for q, m in enumerate(mask)] for k in range(2)]
            args = [elems[0][q] if m else np.array([elems[0][q], elems[1][q]])
                    for q, m in enumerate(mask)]
            one_by_one = []
            for lt, la, n, e, z, plt, pla in elems:
                pang = vectors.calc_vec_pole_angle(lt, la, plt, pla)
                pq = vectors.define_pole_quadrants(lt, plt, pang)
                vq = vectors.define_vect_quadrants(n, e)
                out = vectors.adjust_vector(lt, la, n, e, z, vq, plt, pla,
                                            pang, pq)
                one_by_one.append([float(pang), float(pq), float(vq)]
                                  + [float(v) for v in out])
            lt, la, n, e, z, plt, pla = args
            pang = vectors.calc_vec_pole_angle(lt, la, plt, pla)
            pq = vectors.define_pole_quadrants(lt, plt, pang)
            vq = vectors.define_vect_quadrants(n, e)
            for full in itertools.product((0, 1), repeat=3):
                a, b, c = [np.broadcast_to(v, (2,)).copy() if f else v
                           for f, v in zip(full, (pang, pq, vq))]
                out = vectors.adjust_vector(lt, la, n, e, z, c, plt, pla, a,
                                            b)
                rep.step(1, 'mixture')
                case = {'tuple': tup, 'scalars': mask, 'full': full}
                rep.state(case)
                for k in range(2):
                    got = [float(np.broadcast_to(v, (2,))[k])
                           for v in (pang, pq, vq) + tuple(out)]
                    if not all(gen.close(g, w, 1e-9) for g, w in zip(
                            got, one_by_one[k])):
                        rep.violate(dict(case, element=k), 'mixture of '
                                    'scalars and arrays (angle, pole and '
                                    'vector quadrants, n, e, z)', got,
                                    one_by_one[k])
        rep.trace({'tuple': tup, 'mixtures': 128}, None)


# histories -----------------------------------------------------------------
def snapshot(obj):
    out = {k: np.asarray(getattr(obj, k), dtype=float)
           for k in RES + DEF + SAME + ['dat_ind', 'ocb_ind']}
    return out


def state_of(obj):
    return canon({k: v for k, v in gen.public(obj).items()
                  if not callable(v)})


STARTS = ['s-s', 'a-s', 's-a', 'a-a']


def start(name, hemi):
    d, o = name.split('-')
    la, lt, n, e, z = (POOL[0] if d == 's' else
                       [np.array([POOL[i][k] for i in (0, 5, 10)])
                        for k in range(5)])
    return VD(4 if d == 's' else np.array([0, 4, 9]),
              1 if o == 's' else np.array([1, 0, 3]), hemi * la, lt,
              vect_n=n, vect_e=e, vect_z=z)


def operations(name, hemi):
    d, o = name.split('-')
    out = [('set_ocb', None), ('set_other', None)]
    if d == 's':
        out += [('ocb_ind', 2), ('ocb_ind', 0), ('ocb_ind', [0, 1, 2]),
                ('ocb_ind', [3, 2]), ('dat_ind', 7)]
        out += [('lat', hemi * 81.0), ('lt', 17.0), ('vect_n', -6.0)]
    else:
        out += [('ocb_ind', 2), ('ocb_ind', [4, 3, 2]), ('ocb_ind', [0, 0,
                                                                     1]),
                ('dat_ind', [7, 8, 1])]
        out += [('lat', [hemi * 81.0, hemi * 72.0, hemi * 77.0]),
                ('lt', [1.0, 17.0, 8.0]), ('vect_e', [-6.0, 0.0, 2.0])]
    return out


def apply(obj, op, bounds):
    name, val = op
    if name == 'set_ocb':
        obj.set_ocb(bounds[0])
    elif name == 'set_other':
        obj.set_ocb(bounds[1])
    else:
        setattr(obj, name, np.array(val) if isinstance(val, list) else val)


def fresh(obj):
    return VD(np.array(obj.dat_ind), np.array(obj.ocb_ind), np.array(obj.lat),
              np.array(obj.lt), vect_n=np.array(obj.vect_n), vect_e=np.array(
                  obj.vect_e), vect_z=np.array(obj.vect_z))


def agree(got, want):
    if got.shape != want.shape:
        return False
    return bool(np.allclose(got, want, rtol=1e-9, atol=1e-9, equal_nan=True))


def history(params, rep):
    import copy
    name, hemi, depth = params['start'], params['hemi'], params['depth']
    bounds = (make(params['kind'], hemi), make('ampere', hemi))
    ops = operations(name, hemi)
    root = start(name, hemi)
    seen = {state_of(root)}
    frontier = [(root, ())]
    for _ in range(depth):
        new = []
        for obj, path in frontier:
            for k, op in enumerate(ops):
                if not path and k % params['parts'] != params['part']:
                    continue
                nxt = copy.deepcopy(obj)
                case = {'start': name, 'hemi': hemi, 'kind': params['kind'],
                        'path': path + (op,)}
                apply(nxt, op, bounds)
                rep.step(1, op[0])
                got = snapshot(nxt)
                if op[0] in ('ocb_ind', 'dat_ind'):
                    for key in RES + ['scaled_r', 'ocb_aacgm_lat',
                                      'ocb_aacgm_mlt']:
                        if not np.all(np.isnan(got[key])):
                            rep.violate(dict(case, key=key), 'result of the '
                                        'previous index is kept', got[key])
                            break
                    if not (np.all(got['ocb_quad'] == 0)
                            and np.all(got['vec_quad'] == 0)):
                        rep.violate(case, 'quadrants of the previous index '
                                    'are kept', [got['ocb_quad'],
                                                 got['vec_quad']])
                    if not agree(got[op[0]], np.asarray(op[1], dtype=float)):
                        rep.violate(case, 'index', got[op[0]], op[1])
                elif op[0] in ('set_ocb', 'set_other'):
                    ref = fresh(nxt)
                    apply(ref, op, bounds)
                    want = snapshot(ref)
                    for key in RES + DEF + SAME:
                        if key == 'vect_mag':
                            continue
                        if not agree(got[key], want[key]):
                            rep.violate(dict(case, key=key), 'differs from a '
                                        'fresh conversion', got[key],
                                        want[key])
                            break
                    rep.trace(case, got['ocb_n'])
                st = state_of(nxt)
                rep.state((params['kind'], hemi, st))
                if st not in seen:
                    seen.add(st)
                    new.append((nxt, path + (op,)))
        frontier = new


# Locations, vectors and poles for the methods called one by one
STEPS = [(75.0, 3.0, 3.0, -4.0, 1.0, 2.0, 86.0),
         (82.0, 14.5, -2.0, 0.5, 0.0, 20.0, 84.5),
         (70.0, 2.0, 4.0, 3.0, 1.5, 14.0, 88.0),
         (78.0, 22.0, 0.0, 0.0, 0.0, 9.0, 87.0),
         (88.0, 6.5, 1.0, 2.0, -0.5, 5.0, 85.0),
         (NAN, 3.0, 3.0, -4.0, 1.0, 2.0, 86.0),
         (75.0, NAN, 3.0, -4.0, 1.0, 2.0, 86.0),
         (75.0, 3.0, NAN, NAN, NAN, 2.0, 86.0),
         (75.0, 3.0, 3.0, -4.0, 1.0, NAN, 86.0),
         (75.0, 3.0, 3.0, -4.0, 1.0, 2.0, NAN),
         (75.0, 3.0, 3.0, -4.0, 1.0, NAN, NAN)]


def stepwise(cols, func):
    """The calculation of a vector by its methods"""
    lat, lt, nn, ee, zz, plt, plat = cols
    num = np.shape(lat)
    obj = VD(np.arange(num[0]) if num else 0, 0, lat, lt, vect_n=nn,
             vect_e=ee, vect_z=zz, scale_func=func)
    obj.ocb_aacgm_mlt, obj.ocb_aacgm_lat = plt, plat
    obj.unscaled_r, obj.scaled_r = 14.0, 16.0
    try:
        obj.calc_vec_pole_angle()
        obj.define_quadrants()
        obj.scale_vector()
    except ValueError:
        return None
    return [np.asarray(getattr(obj, key)) for key in (
        'pole_angle', 'ocb_quad', 'vec_quad', 'ocb_n', 'ocb_e', 'ocb_z',
        'ocb_mag')]


def methods(params, rep):
    """Poles that are defined for some elements"""
    first, size, scaled = params
    func = ocb_scaling.normal_evar if scaled else None
    alone = [stepwise(row, func) for row in STEPS]
    for rest in itertools.product(range(len(STEPS)), repeat=size - 1):
        pickd = (first,) + rest
        case = [pickd, scaled]
        rep.state(case)
        rep.step(1, 'methods')
        cols = [np.array([STEPS[k][c] for k in pickd]) for c in range(7)]
        got = stepwise(cols, func)
        rep.trace(case, got)
        if got is None:
            if any(alone[k] is not None for k in pickd):
                # undefined everywhere, element by element or not
                good = [k for k in pickd if alone[k] is not None
                        and alone[k][3] == alone[k][3]]
                if good:
                    rep.violate(case, 'refused', None, good)
            continue
        for i, k in enumerate(pickd):
            for j, key in enumerate(('pole_angle', 'ocb_quad', 'vec_quad',
                                     'ocb_n', 'ocb_e', 'ocb_z', 'ocb_mag')):
                val = float(np.broadcast_to(got[j], (size,))[i])
                if alone[k] is None:
                    if key in ('ocb_n', 'ocb_e', 'ocb_z', 'ocb_mag') and \
                       val == val:
                        rep.violate(case + [i, key], 'undefined element',
                                    val, NAN)
                elif not gen.close(val, float(alone[k][j]), 1e-9):
                    rep.violate(case + [i, key], 'element', val,
                                float(alone[k][j]))


def jobs(tier):
    out = []
    for kind in KINDS:
        for hemi in (1, -1):
            for ind in (0, 1, 4):
                out.append(('arrays', {'tier': tier, 'kind': kind,
                                       'hemi': hemi, 'ind': ind}))
            out.append(('records', {'tier': tier, 'kind': kind,
                                    'hemi': hemi}))
    for name in STARTS:
        for kind, hemi in (('image', 1), ('image', -1), ('dual', 1),
                           ('dual', -1)):
            for part in range(2):
                out.append(('history', {
                    'start': name, 'kind': kind, 'hemi': hemi, 'part': part,
                    'parts': 2, 'depth': 4 if tier == 'quick' else 5}))
    for first in range(len(STEPS)):
        for size, scaled in itertools.product(
                (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4), (0, 1)):
            out.append(('methods', [first, size, scaled]))
    for part in range(8):
        out.append(('mixture', {'tier': tier, 'part': part, 'parts': 8}))
    return out
