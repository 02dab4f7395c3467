"""P25: geographic input gives the same result as its magnetic equivalent."""
import datetime as dt
import itertools
import logging
import math

import aacgmv2

from mc import gen, p13, ref
from mc.gen import np
from ocbpy import ocb_scaling

TECHNIQUE = ('exhaustive exploration of coordinate system x tracing method x '
             'height (scalar and per element) x record time x boundary class x '
             'hemisphere x location x shape, and of all coordinate change '
             'sequences up to a depth, on the real conversion code, lock-step '
             'with a reference model')
ORACLE = ('one location at a time: the magnetic field model evaluated for the '
          'single location, its own height and the time of the record, '
          'followed by the scalar boundary model; vectors projected in three '
          'dimensions onto the direction of the magnetic pole')
BOUND = {'quick': '2 hemispheres x 5 boundary kinds x 2 geographic systems x 2 '
                  'tracing methods x 3 record times x 4 heights and per-point '
                  'heights x 96 locations, forward and back; every container '
                  'pair; every element pattern of length 3; vectors: every '
                  'coordinate pair, index shape, height shape and element '
                  'pattern of length 3; every coordinate sequence of 3 changes',
         'thorough': '6 record times, 6 heights, 300 locations; patterns of 4 '
                     'elements and sequences of 5 changes'}
JOB_CPU_LIMIT = 800
NAN = float('nan')
VD = ocb_scaling.VectorData
COORDS = ('geodetic', 'geocentric')


def spell(coord, case):
    """Coordinate names are accepted in any case."""
    num = sum(map(ord, repr(case)))
    return (coord, coord.upper(), coord.capitalize(), coord)[num % 4]
METHODS = ('ALLOWTRACE', 'TRACE')
TIMES = [dt.datetime(2010, 6, 1, 12, 34, 56), dt.datetime(2010, 6, 1, 21, 7, 3),
         dt.datetime(2012, 12, 21, 3, 59, 31),
         dt.datetime(2013, 3, 2, 0, 0, 0), dt.datetime(2013, 9, 29, 23, 59, 59),
         dt.datetime(2014, 2, 14, 16, 20, 1)]
AMPTIMES = [t.replace(second=0) for t in TIMES]
SHAPE = [(14.0, 30.0, 2.0), (11.5, 200.0, 4.0), (17.25, 110.0, 1.0),
         (20.0, 300.0, 3.0), (13.0, 10.0, 0.0), (16.0, 250.0, 5.0)]
KINDS = ('image', 'ampere', 'dmsp-ssj', 'eab', 'dual')
aacgmv2.logger.setLevel(logging.CRITICAL + 1)


# reference -----------------------------------------------------------------
def hours(time):
    return time.hour + time.minute / 60.0 + (
        time.second + time.microsecond * 1e-6) / 3600.0


def code(coord, method, way):
    out = method + '|' + way
    return out + '|GEOCENTRIC' if coord.lower() == 'geocentric' else out


def to_mag(lat, slt, hgt, time, coord, method='ALLOWTRACE'):
    """Magnetic latitude and local time of one location."""
    if coord == 'magnetic':
        return lat, slt
    if lat != lat or slt != slt:
        return NAN, NAN
    lon = ((slt - hours(time)) * 15.0 + 180.0) % 360.0 - 180.0
    mlat, mlon, _ = aacgmv2.convert_latlon(lat, lon, hgt, time,
                                           code(coord, method, 'G2A'))
    if not math.isfinite(mlat):
        return NAN, NAN
    mlt = aacgmv2.convert_mlt(mlon, time, m2a=False)
    return float(mlat), float(np.ravel(mlt)[0]) % 24.0


def to_geo(lat, mlt, hgt, time, coord, method='ALLOWTRACE'):
    """Geographic latitude and solar local time of one magnetic location."""
    if coord == 'magnetic':
        return lat, mlt
    if lat != lat or mlt != mlt:
        return NAN, NAN
    mlon = float(np.ravel(aacgmv2.convert_mlt(mlt, time, m2a=True))[0])
    glat, glon, _ = aacgmv2.convert_latlon(lat, mlon, hgt, time,
                                           code(coord, method, 'A2G'))
    if not math.isfinite(glat):
        return NAN, NAN
    return float(glat), (glon / 15.0 + hours(time)) % 24.0


def xyz(lat, lt):
    la, lo = math.radians(lat), lt * math.pi / 12.0
    return np.array([math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo),
                     math.sin(la)])


def vec_mag(lat, slt, vn, ve, hgt, time, coord, hemi):
    """Magnetic north and east components of a geographic vector."""
    if lat != lat or slt != slt:
        return NAN, NAN
    # tracing the field line of the pole does not end
    plat, plon, _ = aacgmv2.convert_latlon(hemi * 90.0, 0.0, hgt, time,
                                           code(coord, 'BADIDEA', 'A2G'))
    pole = hemi * xyz(plat, plon / 15.0 + hours(time))
    here = xyz(lat, slt)
    la, lo = math.radians(lat), slt * math.pi / 12.0
    north = np.array([-math.sin(la) * math.cos(lo),
                      -math.sin(la) * math.sin(lo), math.cos(la)])
    east = np.array([-math.sin(lo), math.cos(lo), 0.0])
    full = vn * north + ve * east
    way = pole - here * pole.dot(here)
    way /= math.sqrt(way.dot(way))
    return float(full.dot(way)), float(full.dot(np.cross(way, here)))


# boundaries ----------------------------------------------------------------
def make(kind, name, hemi, num):
    """-> boundary, the reference record of each index, times."""
    if kind == 'dual':
        okw, ocorr = gen.corrections(name, 'image', num + 1)
        # a poleward record without partner makes the indices differ
        recs = [(13.3, 77.0, 1.0)] + SHAPE[:num]
        orec = [gen.rec(t, r, phi=p, rc=c) for t, (r, p, c) in zip(
            [TIMES[0] - dt.timedelta(hours=2)] + TIMES, recs)]
        erec = [gen.rec(t + dt.timedelta(seconds=9), 30.0 + i, phi=350.0 - p,
                        rc=1.0)
                for i, (t, (r, p, c)) in enumerate(zip(TIMES, SHAPE[:num]))]
        obj = gen.dual('image', orec, 'dmsp-ssj', erec, hemi, 60, olat=72.0,
                       elat=61.5, okw=okw)
        assert obj.records == num
        models = [ref.Dual(
            ref.Bound(r, p, c, hemi, 72.0, ocorr[i + 1]),
            ref.Bound(30.0 + i, 350.0 - p, 1.0, hemi, 61.5))
                  for i, (r, p, c) in enumerate(SHAPE[:num])]
        return obj, models, list(obj.dtime)
    cls = 'eab' if kind == 'eab' else 'ocb'
    inst = 'image' if kind == 'eab' else kind
    times = AMPTIMES if inst == 'ampere' else TIMES
    blat = {'image': 74.0, 'ampere': 70.0, 'dmsp-ssj': 78.5, 'eab': 64.0}[kind]
    kw, corr = gen.corrections(name, inst, num, cls)
    func = gen.eab if kind == 'eab' else gen.ocb
    obj = func(inst, [gen.rec(t, r, phi=p, rc=c) for t, (r, p, c) in zip(
        times, SHAPE[:num])], hemi, boundary_lat=blat, **kw)
    return obj, [ref.Bound(r, p, c, hemi, blat, corr[i])
                 for i, (r, p, c) in enumerate(SHAPE[:num])], times[:num]


def expected(model, mlat, mlt):
    """-> bound_lat, bound_mlt, ocb_lat, r_corr, margin"""
    if isinstance(model, ref.Dual):
        out = model.normal(mlat, mlt)
        return out[0], out[1], out[2], out[3], out[5]
    out = model.normal(mlat, mlt)
    return out[0], out[1], out[0], out[2], 1.0


def same(got, want, kind):
    """Compare bound_lat, bound_mlt (, ocb_lat), r_corr of one location."""
    if want[4] < 1.0e-6:
        return True
    ok = gen.close(got[0], want[0], 2e-6)
    if ok and want[0] == want[0]:
        if abs(want[2]) < 89.999:
            ok = gen.close_mlt(got[1], want[1], 1e-5) and 0.0 <= got[1] < 24.0
        ok = ok and gen.close(got[-1], want[3], 1e-5)
        if kind == 'dual':
            ok = ok and gen.close(got[2], want[2], 2e-6)
    elif ok:
        ok = got[1] != got[1]
    return bool(ok)


def forward(obj, kind, model, time, lat, slt, hgt, coord, method, shape, rep,
            case, kw=None):
    """Convert and compare; -> output arrays, wanted values, magnetic"""
    rep.state(case)
    got = obj.normal_coord(lat, slt, coords=spell(coord, case), height=hgt,
                           **(kw or {}))
    rep.step(1, 'normal_coord')
    la, sl, hh = [gen.full(v, shape).ravel() for v in (lat, slt, hgt)]
    mags = [to_mag(a, b, c, time, coord.lower(), method)
            for a, b, c in zip(la, sl, hh)]
    wants = [expected(model, a, b) for a, b in mags]
    flat = [np.ravel(gen.full(g, np.shape(got[0]))) for g in got]
    wshape = shape if shape != () else np.shape(got[0])
    if any(np.shape(g) != wshape for g in got) or len(flat[0]) != len(wants):
        rep.violate(case, 'shape of the result', [np.shape(g) for g in got],
                    shape)
        return None
    for j, want in enumerate(wants):
        if not same([f[j] for f in flat], want, kind):
            rep.violate(list(case) + [j, la[j], sl[j], hh[j]],
                        'differs from the magnetic equivalent',
                        [f[j] for f in flat], (mags[j], want))
            return None
    rep.trace(case, [[round(v, 4) for v in w[:4]] for w in wants])
    return got, wants, mags


def backward(obj, kind, model, time, norm, mags, wants, lat, slt, hgt, coord,
             method, shape, rep, case, kw=None):
    """Revert to geographic coordinates; every normalised latitude has the
    hemisphere of the boundary"""
    kw = kw or {}
    if any(w[2] == w[2] and ref.sign(w[2]) != obj.hemisphere for w in wants):
        return
    if all(w[0] != w[0] for w in wants):
        return
    if kind == 'dual':
        mmlt = np.array([m[1] for m in mags]).reshape(shape)
        out = obj.revert_coord(norm[0], norm[1], r_corr=norm[3], is_ocb=False,
                               aacgm_mlt=mmlt, coords=spell(coord, case),
                               height=hgt, **kw)
    else:
        out = obj.revert_coord(norm[0], norm[1], r_corr=norm[2],
                               coords=spell(coord, case), height=hgt, **kw)
    rep.step(1, 'revert_coord')
    la, sl, hh = [gen.full(v, shape).ravel() for v in (lat, slt, hgt)]
    wshape = shape if shape != () else np.shape(out[0])
    if any(np.shape(g) != wshape for g in out):
        rep.violate(case, 'shape of the reverted result',
                    [np.shape(g) for g in out], shape)
        return
    flat = [np.ravel(g) for g in out]
    for j, (mlat, mlt) in enumerate(mags):
        if wants[j][0] != wants[j][0]:
            want, ok = (NAN, NAN), flat[0][j] != flat[0][j]
        else:
            if wants[j][4] < 1e-6:
                continue
            want = to_geo(mlat, mlt, hh[j], time, coord.lower(), method)
            # the latitude and distance from the geographic location
            # the end of a traced field line depends on the rounding of its
            # start
            tol = 2e-5 if method == 'ALLOWTRACE' and hh[j] <= 2000 else 0.06
            ok = gen.close(flat[0][j], want[0], tol)
            if ok and want[0] == want[0]:
                far = max(math.cos(math.radians(want[0])), 1e-4)
                ok = gen.close_mlt(flat[1][j], want[1], tol / far)
                if abs(mlat) > 45.0:
                    ok = ok and abs(flat[0][j] - la[j]) < 0.3
                    ok = ok and gen.close_mlt(flat[1][j], sl[j], 0.03 / far)
        if not ok:
            rep.violate(list(case) + ['back', j, la[j], sl[j], hh[j]],
                        'does not revert to the geographic location',
                        [f[j] for f in flat], (want, la[j], sl[j]))
            return
    rep.trace(list(case) + ['back'], [round(v, 3) for v in flat[0]])


def heights(tier):
    out = [350.0, 100.0, 851.5, 0.0]
    if tier == 'thorough':
        out += [35.0, 1500.25]
    return out


def locs(params, rep):
    tier, kind, hemi, coord, method = params
    num = 3 if tier == 'quick' else 6
    lats = [89.0, 83.5, 77.0, 70.5, 63.0, 50.0, 32.0, -20.0]
    slts = [0.3 + 2.0 * i for i in range(12)]
    if tier == 'thorough':
        lats += [87.0, 80.0, 74.0, 66.0]
        slts = [0.3 + 0.96 * i for i in range(25)]
    if method == 'TRACE' and tier == 'quick':
        slts = slts[::3]
    grid = [(hemi * a, b) for a in lats for b in slts]
    for name in ('default', 'bump', 'array')[:2 if tier == 'quick' else 3]:
        obj, models, times = make(kind, name, hemi, num)
        for irec in range(num):
            obj.rec_ind = irec
            hgts = heights(tier)
            if method == 'TRACE':
                hgts = hgts[:2]
            if method == 'ALLOWTRACE' and irec == 0:
                # traced by the same method
                hgts = hgts + [2400.0]
            hgts = hgts + [[90.0 + 37.5 * (i % 17) for i in range(len(grid))]]
            for ih, hgt in enumerate(hgts):
                pts = grid
                if hgt == 2400.0:
                    pts = grid[::7]
                lat = np.array([g[0] for g in pts])
                slt = np.array([g[1] for g in pts])
                case = [kind, hemi, coord, method, name, irec, ih]
                kw = {'method': method}
                if method == 'ALLOWTRACE' and ih % 2:
                    kw = {}
                out = forward(obj, kind, models[irec], times[irec], lat, slt,
                              hgt, coord, method, lat.shape, rep, case, kw)
                if out is None:
                    break
                # those that can be reverted
                keep = [j for j, w in enumerate(out[1]) if w[2] != w[2]
                        or ref.sign(w[2]) == hemi]
                norm = [gen.full(o, lat.shape)[keep] for o in out[0]]
                hh = np.asarray(hgt)[keep] if isinstance(hgt, list) else hgt
                backward(obj, kind, models[irec], times[irec], norm,
                         [out[2][j] for j in keep], [out[1][j] for j in keep],
                         lat[keep], slt[keep], hh, coord, method,
                         (len(keep),), rep, case, kw)


PLACES = [(80.0, 1.0, 350.0), (68.0, 13.0, 120.0), (55.0, 20.5, 700.0),
          (86.0, 6.0, 250.0), (NAN, 8.0, 350.0), (-70.0, 3.0, 350.0),
          (75.0, NAN, 500.0)]


def shapes(params, rep):
    """Containers, scalars and mixes of scalar and array inputs."""
    tier, kind, hemi, coord = params
    obj, models, times = make(kind, 'default', hemi, 3)
    method = 'ALLOWTRACE'

    def both(lat, slt, hgt, shape, case):
        out = forward(obj, kind, models[irec], times[irec], lat, slt, hgt,
                      coord, method, shape, rep, case)
        if out is not None:
            backward(obj, kind, models[irec], times[irec], out[0], out[2],
                     out[1], lat, slt, hgt, coord, method, shape, rep, case)

    for irec in (0, 2):
        obj.rec_ind = irec
        for ipat, pick in enumerate(((0, 1, 2, 3), (4, 1, 5, 0), (4, 4, 5, 5),
                                     (3, 6, 1, 2))):
            lat = [hemi * PLACES[i][0] for i in pick]
            slt = [PLACES[i][1] for i in pick]
            hgt = [PLACES[i][2] for i in pick]
            # NaN local times are not accepted by the magnetic field model
            if 6 in pick:
                slt = [3.0 if v != v else v for v in slt]
            base = [kind, hemi, coord, irec, ipat]
            for (n1, a), (n2, b) in itertools.product(gen.containers(lat),
                                                      gen.containers(slt)):
                both(a, b, 350.0, (4,), base + [n1, n2])
            for (n1, a), (n2, b) in itertools.product(gen.containers(lat),
                                                      gen.containers(hgt)):
                both(a, np.array(slt), b, (4,), base + ['h', n1, n2])
            for shape in ((2, 2), (1, 4), (4, 1), (1, 2, 2)):
                both(np.reshape(lat, shape), np.reshape(slt, shape), 350.0,
                     shape, base + [shape])
                both(np.reshape(lat, shape), np.reshape(slt, shape),
                     np.reshape(hgt, shape), shape, base + [shape, 'h'])
            for j in range(4):
                for (n1, a), (n2, b), (n3, c) in itertools.product(
                        gen.scalars(lat[j]), gen.scalars(slt[j]),
                        gen.scalars(hgt[j])):
                    both(a, b, c, (), base + [j, n1, n2, n3])
                both([lat[j]], [slt[j]], [hgt[j]], (1,), base + [j, 'one'])
                both([lat[j]], [slt[j]], hgt[j], (1,), base + [j, 'oneh'])
                # every mask of scalar and array inputs
                for mask in itertools.product((0, 1), repeat=3):
                    if sum(mask) in (0, 3):
                        continue
                    args = [np.array(v) if m else v[j]
                            for m, v in zip(mask, (lat, slt, hgt))]
                    both(args[0], args[1], args[2], (4,), base + [j, mask])
    # no record selected
    for ind in (-1, 3, 9):
        obj.rec_ind = ind
        for lat in (hemi * 80.0, [hemi * 80.0, hemi * 60.0]):
            got = obj.normal_coord(lat, 4.0, coords=coord)
            back = obj.revert_coord(lat, 4.0, coords=coord)
            rep.step(2, 'no record')
            rep.state([kind, hemi, coord, ind, np.shape(lat)])
            if not all(np.isnan(v).all() for v in got + back) or any(
                    np.shape(v) != np.shape(lat) for v in got + back):
                rep.violate([kind, hemi, coord, ind], 'result without record',
                            got + back, NAN)


def patterns(params, rep):
    """Every pattern of elements, with each own height."""
    tier, kind, hemi = params
    num = 3 if tier == 'quick' else 4
    obj, models, times = make(kind, 'default', hemi, 2)
    for irec, coord in ((0, 'geocentric'), (1, 'geodetic')):
        obj.rec_ind = irec
        time, model = times[irec], models[irec]
        base = {}
        for length in range(1, num + 1):
            for pat in itertools.product(range(6), repeat=length):
                lat = np.array([hemi * PLACES[p][0] for p in pat])
                slt = np.array([PLACES[p][1] for p in pat])
                hgt = np.array([PLACES[p][2] for p in pat])
                case = [kind, hemi, irec, pat]
                rep.state(case)
                got = obj.normal_coord(lat, slt, coords=coord, height=hgt)
                rep.step(1, 'normal_coord')
                for j, p in enumerate(pat):
                    if p not in base:
                        base[p] = expected(model, *to_mag(
                            lat[j], slt[j], hgt[j], time, coord))
                    if not same([g[j] for g in got], base[p], kind):
                        rep.violate(case + [j], 'differs from the magnetic '
                                    'equivalent', [g[j] for g in got], base[p])
                        break
                rep.trace(case, [round(float(v), 4) for v in got[0]])


# vectors -------------------------------------------------------------------
def judge(obj, kind, models, times, elems, irecs, loc, vco, method, func, rep,
          case):
    """Compare a converted vector object with each element alone."""
    hemi = obj_hemi = case[1]
    num = len(elems)
    keys = ['lat', 'lt', 'vect_n', 'vect_e', 'vect_z', 'ocb_lat', 'ocb_mlt',
            'ocb_n', 'ocb_e']
    vals = {}
    for key in keys:
        val = np.asarray(getattr(obj, key), dtype=float)
        if val.shape not in ((), (num,), (1,)):
            rep.violate(case + [key], 'shape', val.shape, (num,))
            return
        vals[key] = np.broadcast_to(val, (num,))
    # Vectors without any location are left as they are
    if obj.loc_coord != 'magnetic' or (obj.vect_coord != 'magnetic' and
                                       np.isfinite(vals['lat']).any()):
        rep.violate(case, 'not magnetic', (obj.loc_coord, obj.vect_coord),
                    'magnetic')
        return
    outs = []
    for j, (el, irec) in enumerate(zip(elems, irecs)):
        lat, lt, hgt, vn, ve, vz = el
        time, model = times[irec], models[irec]
        mag = to_mag(lat, lt, hgt, time, loc, method)
        here = [lat, lt] if loc != 'magnetic' else to_geo(lat, lt, hgt, time,
                                                          vco, method)
        if vco == 'magnetic':
            mn, me = vn, ve
        elif mag[0] != mag[0]:
            mn, me = NAN, NAN
        else:
            mn, me = vec_mag(here[0], here[1], vn, ve, hgt, time, vco, hemi)
        want = expected(model, *mag)
        got = {key: float(vals[key][j]) for key in keys}
        ok = gen.close(got['lat'], mag[0], 2e-6) and (
            mag[0] != mag[0] or gen.close_mlt(got['lt'], mag[1], 1e-5))
        if not ok:
            rep.violate(case + [j], 'magnetic location', got, mag)
            return
        tol = 1e-4 if loc != 'magnetic' or method != 'TRACE' else 0.5
        if mag[0] == mag[0] and mn == mn and not (
                gen.close(got['vect_n'], mn, tol) and
                gen.close(got['vect_e'], me, tol) and
                gen.close(got['vect_z'], vz, 1e-9)):
            rep.violate(case + [j], 'magnetic components', got, (mn, me, vz))
            return
        if mag[0] == mag[0] and mn != mn and got['vect_n'] == got['vect_n']:
            rep.violate(case + [j], 'magnetic components of an undefined '
                        'location', got, (mn, me))
            return
        if not same([got['ocb_lat'], got['ocb_mlt'], want[2], want[3]], want,
                    'single'):
            rep.violate(case + [j], 'boundary location', got, want)
            return
        outs.append([round(v, 4) for v in (mag[0], mn, me, want[0])])
        if hemi < 0 or want[0] != want[0] or mn != mn:
            if (want[0] != want[0] or mn != mn) and \
                    got['ocb_n'] == got['ocb_n']:
                rep.violate(case + [j], 'boundary vector is defined', got, NAN)
                return
            continue
        bnd = model.ob if kind == 'dual' else model
        wn, we, _, dist = p13.sphere(mag[1], mag[0], mn, me, bnd.phi / 15.0,
                                     90.0 - bnd.rc)
        if dist < 1e-3:
            continue
        if bnd.rc == 0.0:
            wn, we = mn, me
        if func is not None:
            fac = (bnd.r + want[3]) / (90.0 - abs(bnd.blat))
            wn, we = wn * fac, we * fac
        if not (gen.close(got['ocb_n'], float(wn), 2 * tol) and
                gen.close(got['ocb_e'], float(we), 2 * tol)):
            rep.violate(case + [j], 'boundary vector', got, (wn, we))
            return
    rep.trace(case, outs)


ELEMS = [(80.0, 1.0, 350.0, 50.0, 20.0, 1.0),
         (68.0, 13.0, 120.0, -30.0, 45.0, 2.0),
         (55.0, 20.5, 700.0, -10.0, -70.0, -3.0),
         (86.0, 6.0, 250.0, 33.0, -12.0, 0.0),
         (2.0, 8.0, 350.0, 5.0, 4.0, 1.0),
         (NAN, 9.0, 350.0, 10.0, 10.0, 0.5)]
PAIRS = [('geodetic', 'geodetic'), ('geocentric', 'geocentric'),
         ('magnetic', 'geodetic'), ('magnetic', 'geocentric'),
         ('geodetic', 'magnetic'), ('geocentric', 'magnetic')]


def lists(elems, hemi):
    cols = [list(c) for c in zip(*elems)]
    cols[0] = [hemi * v for v in cols[0]]
    return cols


def vectors(params, rep):
    """Every coordinate pair, index shape, height shape and pattern"""
    tier, kind, hemi, loc, vco = params
    bound, models, times = make(kind, 'default', hemi, 3)
    num = 3 if tier == 'quick' else 4
    for length in range(1, num + 1):
        pats = list(itertools.product(range(6), repeat=length))
        if tier == 'quick' and length == 3:
            pats = [p for i, p in enumerate(pats) if i % 2 == sum(p) % 2]
        for pat in pats:
            elems = [(hemi * e[0],) + e[1:] for e in (ELEMS[p] for p in pat)]
            lat, lt, hgt, vn, ve, vz = [list(c) for c in zip(*elems)]
            base = [kind, hemi, loc, vco, pat]
            forms = []
            for irec in (0, 2):
                # one record
                forms.append(([irec] * length, irec, hgt, hgt))
                forms.append(([irec] * length, irec, 350.0, [350.0] * length))
            irecs = [(i + 1) % 3 for i in range(length)]
            forms.append((irecs, irecs, hgt, hgt))
            forms.append((irecs, irecs, 200.0, [200.0] * length))
            for ifo, (irecs, ind, hin, hh) in enumerate(forms):
                method = 'TRACE' if ifo == 1 and pat == (0, 1) else 'ALLOWTRACE'
                func = (ocb_scaling.normal_evar if ifo % 2 else None)
                case = base + [ifo]
                rep.state(case)
                kw = {} if method == 'ALLOWTRACE' else {'trace_method': method}
                obj = VD(list(range(length)), ind, np.array(lat), np.array(lt),
                         height=np.array(hin) if isinstance(hin, list) else hin,
                         loc_coord=spell(loc, case), vect_coord=spell(vco, case),
                         vect_n=np.array(vn),
                         vect_e=np.array(ve), vect_z=np.array(vz),
                         scale_func=func)
                obj.set_ocb(bound, **kw)
                rep.step(1, 'set_ocb')
                judge(obj, kind, models, times,
                      [(a, b, h, c, d, e) for a, b, h, c, d, e in zip(
                          lat, lt, hh, vn, ve, vz)], irecs, loc, vco, method,
                      func, rep, case)


def single(params, rep):
    """One vector: all scalars; one location at several times; scalar
    latitude, local time, height or components within arrays."""
    tier, kind, hemi, loc, vco = params
    bound, models, times = make(kind, 'bump', hemi, 3)
    lts = [1.5 * i for i in range(16)]
    for ip, (lat, lt) in enumerate(itertools.product(
            (84.0, 71.0, 58.0, 20.0, 2.0), lts)):
        vec = [(50.0, 20.0, 1.0), (0.0, 30.0, 0.0), (-30.0, 0.0, 2.0),
               (-12.0, -55.0, -1.0)][ip % 4]
        hgt = [350.0, 110.0, 600.0][ip % 3]
        la = hemi * lat
        irec = ip % 3
        method = 'TRACE' if ip % 7 == 3 else 'ALLOWTRACE'
        func = ocb_scaling.normal_evar if ip % 5 == 2 else None
        for ifo, (dat, ind, num) in enumerate((
                (0, irec, 1), ([0], irec, 1), (0, [0, 1, 2], 3),
                (0, [2, 0], 2), ([0], [1], 1))):
            case = [kind, hemi, loc, vco, lat, lt, ifo]
            rep.state(case)
            args = (la, lt) if np.ndim(dat) == 0 else ([la], [lt])
            obj = VD(dat, ind, args[0], args[1], height=hgt, loc_coord=loc,
                     vect_coord=vco, vect_n=vec[0], vect_e=vec[1],
                     vect_z=vec[2], scale_func=func)
            obj.set_ocb(bound, trace_method=method)
            rep.step(1, 'set_ocb')
            irecs = ind if isinstance(ind, list) else [ind]
            judge(obj, kind, models, times, [(la, lt, hgt) + vec] * num, irecs,
                  loc, vco, method, func, rep, case)
    # scalar members of arrays
    cols = lists(ELEMS[:4], hemi)
    for j, mask in itertools.product(range(4), itertools.product(
            (0, 1), repeat=6)):
        if mask[0] == 0 and mask[1] == 0 and 1 not in mask[3:]:
            continue
        for ind in (1, [0, 1, 2, 1]):
            args = [np.array(c) if m else c[j] for m, c in zip(mask, cols)]
            elems = list(zip(*[c if m else [c[j]] * 4
                               for m, c in zip(mask, cols)]))
            case = [kind, hemi, loc, vco, 'mask', j, mask,
                    'a' if isinstance(ind, list) else 's']
            if mask[2] and not (mask[0] or mask[1]):
                continue
            rep.state(case)
            obj = VD([0, 1, 2, 3], ind, args[0], args[1], height=args[2],
                     loc_coord=loc, vect_coord=vco, vect_n=args[3],
                     vect_e=args[4], vect_z=args[5])
            obj.set_ocb(bound)
            rep.step(1, 'set_ocb')
            judge(obj, kind, models, times, elems,
                  ind if isinstance(ind, list) else [ind] * 4, loc, vco,
                  'ALLOWTRACE', None, rep, case)


def moves(params, rep):
    """Every sequence of coordinate changes of a location."""
    tier, start, hemi = params
    depth = 3 if tier == 'quick' else 5
    names = ('magnetic', 'geodetic', 'geocentric')
    lats = [80.0, 66.0, 48.0]
    for seq in itertools.product(names, repeat=depth):
        for form in ('scalar', 'array', 'times', 'both', 'square'):
            for method in (METHODS if tier == 'thorough' and seq[0] !=
                           seq[1] else METHODS[:1]):
                if form in ('scalar', 'times'):
                    lat, lt, hgt, dat = hemi * lats[0], 13.4, 420.0, 0
                else:
                    lat = [hemi * v for v in lats]
                    lt, hgt, dat = [2.0, 9.0, 22.0], [100., 350., 800.], [0, 1,
                                                                          2]
                time = TIMES[1] if form in ('scalar', 'array',
                                            'square') else TIMES[:3]
                ind = [0, 1, 2] if isinstance(time, list) else 0
                if form == 'square':
                    lat, lt, hgt = [np.reshape(v + v[:1], (2, 2))
                                    for v in (lat, lt, hgt)]
                    dat = [[0, 1], [2, 3]]
                case = [start, hemi, seq, form, method]
                rep.state(case)
                obj = VD(dat, ind, lat, lt, height=hgt, loc_coord=start,
                         vect_coord='magnetic' if start == 'magnetic'
                         else start, vect_n=1.0 + np.zeros(np.shape(dat)),
                         vect_e=2.0 + np.zeros(np.shape(dat)))
                tt = time if isinstance(time, list) else None
                num = 3 if form in ('times', 'both', 'array') else (
                    4 if form == 'square' else 1)
                cur = list(zip(*[np.ravel(np.broadcast_to(
                    v, (num,) if form != 'square' else (2, 2)))
                    for v in (lat, lt, hgt)]))
                was = start
                for istep, name in enumerate(seq):
                    obj.update_loc_coords(time, coord=spell(name,
                                                            case + [istep]),
                                          trace_method=method)
                    rep.step(1, 'update_loc_coords')
                    new = []
                    for j, (a, b, h) in enumerate(cur):
                        t = tt[j] if tt else time
                        if name != was:
                            if was != 'magnetic':
                                a, b = to_mag(a, b, h, t, was, method)
                            a, b = to_geo(a, b, h, t, name, method)
                        new.append((a, b, h))
                    cur, was = new, name
                    tol = 1e-4 if method == 'ALLOWTRACE' else 0.1
                    la = np.ravel(np.broadcast_to(obj.lat, (num,)
                                                  if form != 'square'
                                                  else (2, 2)))
                    lo = np.ravel(np.broadcast_to(obj.lt, (num,)
                                                  if form != 'square'
                                                  else (2, 2)))
                    if obj.loc_coord != name or not all(
                            gen.close(la[j], cur[j][0], tol) and
                            gen.close_mlt(lo[j], cur[j][1], tol)
                            for j in range(num)):
                        rep.violate(case + [istep], 'location after a change '
                                    'of coordinates',
                                    (obj.loc_coord, la, lo), (name, cur))
                        break
                rep.trace(case, [round(c[0], 3) for c in cur])


def jobs(tier):
    out = []
    for kind, hemi, coord in itertools.product(KINDS, (1, -1), COORDS):
        for method in METHODS:
            out.append(('locs', [tier, kind, hemi, coord, method]))
        if kind in ('image', 'dual', 'eab') or tier == 'thorough':
            out.append(('shapes', [tier, kind, hemi, coord]))
    for kind, hemi in itertools.product(('image', 'dual', 'ampere'), (1, -1)):
        out.append(('patterns', [tier, kind, hemi]))
        for loc, vco in PAIRS:
            if kind != 'ampere' or tier == 'thorough':
                out.append(('vectors', [tier, kind, hemi, loc, vco]))
            out.append(('single', [tier, kind, hemi, loc, vco]))
    for start, hemi in itertools.product(('magnetic', 'geodetic',
                                          'geocentric'), (1, -1)):
        out.append(('moves', [tier, start, hemi]))
    return out
