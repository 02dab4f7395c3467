"""P13: vectors are turned by exactly the angle between the two poles."""
import itertools
import math

from mc import gen, ref
from mc.gen import np
from ocbpy import ocb_scaling, vectors

TECHNIQUE = ('exhaustive enumeration of relative positions of pole and '
             'location x vector directions (aligned, opposite, on and next '
             'to every axis, meridian and quadrant edge) on the real '
             'functions, scalars and arrays, and on vector objects with '
             'single and dual boundaries, against vector algebra on the '
             'sphere')
ORACLE = ('projections of the Cartesian vector on the direction to the '
          'boundary pole and on the direction 90 degrees clockwise of it')
BOUND = {'quick': 'quadrants given, left out or given in part; 11 local '
                  'times x 27 offsets of the pole x 9 latitudes x 6 '
                  'pole latitudes x 32 directions (pipeline of functions); '
                  '16 quadrant pairs x 13 x 13 angles; 2 hemispheres x 5 '
                  'boundary kinds x 8 boundary positions x 96 locations x 17 '
                  'vectors (vector objects)',
         'thorough': '25 local times, 51 offsets, 15 latitudes, 72 '
                     'directions; 37 x 37 angles; 480 locations'}
ASSUMPTIONS = ['locations at the magnetic or boundary pole, where directions '
               'are undefined, are not explored']
VD = ocb_scaling.VectorData


def directions(num):
    out = []
    for k in range(num):
        a = 360.0 * k / num
        if a % 90.0 == 0.0:
            out.append((float(round(math.cos(math.radians(a)))),
                        float(round(math.sin(math.radians(a))))))
        else:
            out.append((math.cos(math.radians(a)), math.sin(math.radians(a))))
    for eps in (1.0e-12, 1.0e-6):
        out += [(1.0, eps), (1.0, -eps), (-1.0, eps), (-1.0, -eps),
                (eps, 1.0), (-eps, 1.0), (eps, -1.0), (-eps, -1.0)]
    return out + [(0.0, 0.0), (300.0, -400.0), (-1.0e-3, 2.0e-3)]


def sphere(lt, lat, vn, ve, plt, plat):
    """Vectorised reference -> north, east, angle, distance to the pole"""
    la, lo = np.radians(lat), lt * np.pi / 12.0
    pa, po = np.radians(plat), plt * np.pi / 12.0
    dl = po - lo
    # components of the pole direction along local north and east
    pn = np.cos(la) * np.sin(pa) - np.sin(la) * np.cos(pa) * np.cos(dl)
    pe = np.cos(pa) * np.sin(dl)
    nn = np.hypot(pn, pe)
    un, ue = pn / nn, pe / nn
    return (vn * un + ve * ue, ve * un - vn * ue,
            np.degrees(np.arctan2(np.abs(ue), un)), nn)


LATS = {'quick': [5.0, 50.0, 75.0, 84.0, 85.0, 86.0, 88.0, 89.9, 70.5],
        'thorough': [0.5, 5.0, 30.0, 50.0, 65.0, 70.5, 75.0, 80.0, 84.0,
                     84.9, 85.0, 85.1, 88.0, 89.0, 89.9]}
PLATS = [85.0, 88.0, 70.5, 89.99, 60.0, 45.0]


def offsets(tier):
    base = [0.0, 1e-13, 1e-9, 1e-6, 1e-3, 0.1, 3.0, 5.5, 6.0, 9.0, 11.9,
            12.0 - 1e-6, 12.0 - 1e-9, 12.0 - 1e-13, 12.0, 12.0 + 1e-13,
            12.0 + 1e-9, 12.0 + 1e-6, 12.1, 15.0, 18.0, 20.3, 23.9,
            24.0 - 1e-6, 24.0 - 1e-9, 24.0 - 1e-13, 36.0]
    if tier == 'thorough':
        base += [i + 0.37 for i in range(24)]
    return base


def lts(tier):
    if tier == 'quick':
        return [0.0, 0.1, 3.3, 5.7, 6.0, 7.1, 12.0, 13.7, 15.3, 18.0, 23.9]
    return [i * 24.0 / 25.0 for i in range(25)]


def chain(lt, lat, vn, ve, vz, plt, plat):
    """The functions in the order in which they are meant to be used"""
    pang = vectors.calc_vec_pole_angle(lt, lat, plt, plat)
    pquad = vectors.define_pole_quadrants(lt, plt, pang)
    vquad = vectors.define_vect_quadrants(vn, ve)
    return (pang, pquad, vquad) + tuple(vectors.adjust_vector(
        lt, lat, vn, ve, vz, vquad, plt, plat, pang, pquad))


def pipeline(params, rep):
    tier = params['tier']
    dirs = directions(16 if tier == 'quick' else 72)
    vn = np.array([d[0] for d in dirs])
    ve = np.array([d[1] for d in dirs])
    vz = np.array([[0.0, 1.5, -2.0, -0.0][i % 4] for i in range(len(dirs))])
    lt = params['lt']
    num = len(dirs)
    count = 0
    for off, lat, plat in itertools.product(offsets(tier), LATS[tier], PLATS):
        plt = lt + off
        if off < 24.0:
            plt = plt % 24.0
        wn, we, wang, dist = sphere(lt, lat, vn, ve, plt, plat)
        if dist < 1.0e-4 or abs(off % 24.0) < 1e-6 and lat == plat:
            continue
        full = np.full(num, 1.0)
        out = chain(full * lt, full * lat, vn, ve, vz, full * plt,
                    full * plat)
        count += 1
        rep.step(1, 'chain array')
        rep.state((lt, off, lat, plat))
        case = {'lt': lt, 'lat': lat, 'pole_lt': plt, 'pole_lat': plat}
        tol = 1.0e-5 / max(dist, 0.01) * 0.05 + 1.0e-6
        mag = np.hypot(vn, ve)
        # the angle (the opposite meridian is reported as aligned, in either
        # of two ways)
        pang = float(out[0][0])
        aligned = min(off % 12.0, 12.0 - off % 12.0) < 1.0e-5
        if not aligned and abs(pang - wang) > 1.0e-4:
            rep.violate(case, 'pole angle', pang, wang)
        err = np.maximum(np.abs(out[3] - wn), np.abs(out[4] - we))
        bad = ~(err <= tol * np.maximum(mag, 1e-3))
        bad |= ~(np.abs(out[5] - vz) <= 1e-9)
        bad |= ~(np.abs(np.hypot(out[3], out[4]) - mag)
                 <= 1e-9 * np.maximum(mag, 1.0))
        if np.any(bad):
            b = np.where(bad)[0][0]
            rep.violate(dict(case, n=vn[b], e=ve[b], z=vz[b]),
                        'rotated vector', [out[3][b], out[4][b], out[5][b]],
                        [wn[b], we[b], vz[b]])
        # quadrants given for none or some of the vectors
        if count % 7 == 0 or tier != 'quick':
            sel = np.arange(num)
            for i, (pmask, vmask) in enumerate([
                    (sel % 2 == 0, sel < 0), (sel < 0, sel % 3 == 1),
                    (sel % 3 != 0, sel % 2 == 1), (sel >= 0, sel >= 0),
                    (sel == 0, sel == num - 1)]):
                part = vectors.adjust_vector(
                    full * lt, full * lat, vn, ve, vz,
                    np.where(vmask, 0, out[2]), full * plt, full * plat,
                    out[0], np.where(pmask, 0, out[1]))
                rep.step(1, 'chain, some quadrants')
                for one, two in zip(part, out[3:]):
                    if not np.allclose(one, two, rtol=1e-12, atol=1e-12,
                                       equal_nan=True):
                        rep.violate(dict(case, quadrants_left_out=i),
                                    'rotated vector', one, two)
                        break
        # one vector of each call alone
        for b in ([count % num] if tier == 'quick'
                  else [count % num, (count * 7 + 3) % num]):
            one = chain(lt, lat, vn[b], ve[b], vz[b], plt, plat)
            rep.step(1, 'chain scalar')
            if not (abs(float(one[3]) - wn[b]) <= tol * max(mag[b], 1e-3)
                    and abs(float(one[4]) - we[b]) <= tol * max(mag[b], 1e-3)
                    and abs(float(one[5]) - vz[b]) <= 1e-9):
                rep.violate(dict(case, n=vn[b], e=ve[b], z=vz[b], alone=True),
                            'rotated vector', one[3:], [wn[b], we[b], vz[b]])
        if count % 50 == 0:
            rep.trace(case, out[3:5])
    # the pole of the southern hemisphere mirrors that of the northern one
    for off, lat, plat in itertools.product(offsets(tier), LATS[tier], PLATS):
        if min(off % 12.0, 12.0 - off % 12.0) < 1.0e-5:
            continue
        north = vectors.calc_vec_pole_angle(lt, lat, lt + off, plat)
        south = vectors.calc_vec_pole_angle(lt, -lat, lt + off, -plat)
        mixed = float(vectors.calc_vec_pole_angle(lt, -lat, lt + off, plat))
        want = sphere(lt, -lat, 1.0, 0.0, lt + off, plat)
        rep.step(3, 'mirror')
        if not abs(float(north) - float(south)) <= 1e-6:
            rep.violate({'lt': lt, 'lat': -lat, 'pole_lt': lt + off,
                         'pole_lat': -plat}, 'southern pole angle', south,
                        north)
        if want[3] > 1e-4 and not abs(mixed - float(want[2])) <= 1e-4:
            rep.violate({'lt': lt, 'lat': -lat, 'pole_lt': lt + off,
                         'pole_lat': plat}, 'pole angle', mixed, want[2])
    rep.trace({'lt': lt, 'mirror': True}, None)


def naz(quad, ang):
    """Signed azimuth of a direction at an angle in a quadrant"""
    return ang if quad in (1, 4) else -ang


def wrap(ang):
    return (ang + 180.0) % 360.0 - 180.0


def angles(params, rep):
    """Azimuth and signs relative to the boundary pole for every pair of
    quadrants"""
    num = 13 if params['tier'] == 'quick' else 37
    step = 180.0 / (num - 1)
    quads = [1, 2, 3, 4]
    rows = []
    for pq, vq in itertools.product(quads, repeat=2):
        for i, j in itertools.product(range(num), repeat=2):
            pa, ba = i * step, j * step
            if (pa < 90.0) != (pq in (1, 2)):
                continue
            if (ba <= 90.0) if vq in (3, 4) else (ba > 90.0):
                continue
            rows.append((pq, vq, ba, pa))
    rel = [wrap(naz(v, b) - naz(p, a)) for p, v, b, a in rows]
    pqs, vqs, bas, pas = [np.array(c) for c in zip(*rows)]
    arr = vectors.calc_dest_polar_angle(pqs, vqs, bas, pas)
    sgn = vectors.calc_dest_vec_sign(pqs, vqs, bas, pas, north=True,
                                     east=True)
    only = {k: vectors.calc_dest_vec_sign(pqs, vqs, bas, pas, **{k: True})
            for k in ('north', 'east')}
    rep.step(4, 'angles')
    for k, row in enumerate(rows):
        pq, vq, ba, pa = row
        case = {'pole_quad': pq, 'vect_quad': vq, 'naz': ba, 'pole_angle': pa}
        rep.state(row)
        one = float(vectors.calc_dest_polar_angle(pq, vq, ba, pa))
        rep.step(2, 'angles')
        for kind, got in (('alone', one), ('array', float(arr[k]))):
            if not abs(got - abs(rel[k])) <= 1e-9:
                rep.violate(dict(case, kind=kind), 'azimuth from the boundary '
                            'pole', got, abs(rel[k]))
        s1 = vectors.calc_dest_vec_sign(pq, vq, ba, pa, north=True, east=True)
        for name, comp in (('north', math.cos(math.radians(rel[k]))),
                           ('east', math.sin(math.radians(rel[k])))):
            for kind, got in (('alone', float(s1[name])),
                              ('array', float(sgn[name][k])),
                              ('only', float(only[name][name][k]))):
                if got not in (1.0, -1.0) or abs(comp) > 1e-9 and \
                   got != math.copysign(1.0, comp):
                    rep.violate(dict(case, kind=kind), 'sign of the %s '
                                'component' % name, got, comp)
    rep.trace({'rows': len(rows)}, arr[:20])
    # mixtures of scalars and arrays
    for pq, vq in itertools.product(quads, repeat=2):
        sel = [k for k, r in enumerate(rows) if r[0] == pq and r[1] == vq]
        for k in sel[::3]:
            pa, ba = rows[k][3], rows[k][2]
            same_p = [m for m in sel if rows[m][3] == pa]
            same_b = [m for m in sel if rows[m][2] == ba]
            for inds, args in (
                    (same_p, (np.full(len(same_p), pq), np.full(
                        len(same_p), vq), bas[same_p], pa)),
                    (same_b, (np.full(len(same_b), pq), np.full(
                        len(same_b), vq), ba, pas[same_b])),
                    (same_p, (pq, np.full(len(same_p), vq), bas[same_p],
                              pa)),
                    (same_b, (np.full(len(same_b), pq), vq, ba,
                              pas[same_b]))):
                got = vectors.calc_dest_polar_angle(*args)
                sg = vectors.calc_dest_vec_sign(*args, north=True, east=True)
                rep.step(2, 'mixtures')
                if not np.allclose(got, arr[inds], atol=1e-9, rtol=0) or \
                   not np.array_equal(sg['north'], sgn['north'][inds]) or \
                   not np.array_equal(sg['east'], sgn['east'][inds]):
                    rep.violate({'pole_quad': pq, 'vect_quad': vq, 'naz': ba,
                                 'pole_angle': pa}, 'mixture of scalars and '
                                'arrays', got, arr[inds])
    rep.trace({'mixtures': True}, None)
    # undefined quadrants and angles
    for func, kw in ((vectors.calc_dest_polar_angle, {}),
                     (vectors.calc_dest_vec_sign, {'north': True})):
        for pq, vq in ((0, 1), (1, 0), (0, 0), (5, 1), (1, -1),
                       ([0, 0], [1, 2]), ([1, 2], [0, 0])):
            try:
                func(np.asarray(pq), np.asarray(vq), np.asarray(pq) * 0.0
                     + 10.0, np.asarray(pq) * 0.0 + 10.0, **kw)
                rep.violate({'quads': [pq, vq], 'func': func.__name__},
                            'undefined quadrant is accepted')
            except ValueError:
                pass
            rep.step(1, 'undefined')
    for pat in itertools.product([(1, 1, 30.0, 40.0), (1, 2, 30.0, 40.0),
                                  (4, 3, 100.0, 110.0), (0, 1, 10.0, 10.0),
                                  (1, 1, float('nan'), 10.0),
                                  (1, 1, 10.0, float('nan'))], repeat=2):
        cols = [np.array(c) for c in zip(*pat)]
        if not (np.any(cols[0] > 0) and np.any(cols[1] > 0)):
            continue
        got = vectors.calc_dest_polar_angle(*cols)
        rep.step(1, 'undefined')
        for g, (pq, vq, ba, pa) in zip(got, pat):
            want = (abs(wrap(naz(vq, ba) - naz(pq, pa))) if pq > 0
                    else float('nan'))
            if not gen.close(float(g), want, 1e-9):
                rep.violate({'rows': pat}, 'undefined element', got, want)
    rep.trace({'undefined': True}, None)


def quadrants(params, rep):
    """Quadrants of vectors and poles, and the location of the pole"""
    eps = [0.0, -0.0, 1e-300, -1e-300, 1e-12, -1e-12, 1.0, -1.0, 500.0,
           -3.0, float('nan')]
    pts = list(itertools.product(eps, repeat=2))

    def vwant(n, e):
        if n != n or e != e:
            return 0
        return (1 if e >= 0 else 2) if n >= 0 else (3 if e < 0 else 4)

    arr = vectors.define_vect_quadrants(np.array([p[0] for p in pts]),
                                        np.array([p[1] for p in pts]))
    for (n, e), g in zip(pts, arr):
        one = vectors.define_vect_quadrants(n, e)
        rep.step(1, 'vector quadrant')
        rep.state(('v', n, e))
        if not int(g) == int(one) == vwant(n, e):
            rep.violate({'n': n, 'e': e}, 'vector quadrant', [g, one],
                        vwant(n, e))
    rep.trace({'vector quadrants': len(pts)}, arr)

    def pwant(dl, ang):
        if dl != dl or ang != ang:
            return (0,)
        east = dl % 24.0 < 12.0
        return (1 if ang < 90.0 else 4) if east else (2 if ang < 90.0 else 3)

    angs = [0.0, 1e-9, 45.0, 89.999999, 90.0, 90.000001, 135.0, 180.0,
            float('nan')]
    lt0 = [0.0, 3.5, 11.0, 12.0, 18.25, 23.0]
    dls = [0.0, 1.0, 5.75, 11.5, 12.0, 12.5, 18.0, 23.5, -1.0, -12.0, -13.0,
           24.0, 25.0, 36.0, 50.0, -30.0, float('nan')]
    pts = list(itertools.product(lt0, dls, angs))
    a = [np.array([p[0] for p in pts]), np.array([p[0] + p[1] for p in pts]),
         np.array([p[2] for p in pts])]
    arr = vectors.define_pole_quadrants(*a)
    for (lt, dl, ang), g in zip(pts, arr):
        one = vectors.define_pole_quadrants(lt, lt + dl, ang)
        rep.step(1, 'pole quadrant')
        rep.state(('p', lt, dl, ang))
        want = pwant(dl, ang)
        want = want if isinstance(want, int) else 0
        if not int(g) == int(one) == want:
            rep.violate({'lt': lt, 'pole_lt': lt + dl, 'angle': ang},
                        'pole quadrant', [g, one], want)
    rep.trace({'pole quadrants': len(pts)}, arr[:10])
    phis = [0.0, 15.0, 90.0, 179.9, 180.0, 270.0, 359.9, 360.0, -15.0, 400.0]
    rcs = [0.0, 1.0, 5.5, 20.0]
    for phi, rc in itertools.product(phis, rcs):
        for mk in (float, int, np.float64, np.array):
            if mk is int and (phi % 1 or rc % 1):
                continue
            lt, lat = vectors.get_pole_loc(mk(phi), mk(rc))
            rep.step(1, 'pole location')
            if not (gen.close_mlt(float(lt), phi / 15.0 % 24.0, 1e-9)
                    and 0 <= lt < 24 and abs(float(lat) - 90.0 + rc) < 1e-9):
                rep.violate({'phi': phi, 'r': rc}, 'pole location',
                            [lt, lat])
    pts = list(itertools.product(phis, rcs))
    for cont in (list, tuple, np.array):
        lt, lat = vectors.get_pole_loc(cont([p[0] for p in pts]),
                                       cont([p[1] for p in pts]))
        rep.step(1, 'pole location')
        if not (np.allclose(lt, [p[0] / 15.0 % 24.0 for p in pts])
                and np.allclose(lat, [90.0 - p[1] for p in pts])):
            rep.violate({'container': cont.__name__}, 'pole locations',
                        [lt, lat])
    rep.trace({'pole location': True}, None)


CENT = [(0.0, 3.0), (40.0, 2.0), (90.0, 4.0), (135.0, 6.0), (180.0, 1.0),
        (225.0, 5.0), (270.0, 3.5), (315.0, 0.5)]


def make(kind, hemi):
    """-> boundary, list of (index, phi, rc) of its centres"""
    if kind in ('image', 'ampere', 'dmsp-ssj'):
        recs = [gen.rec(60 * i, 15.0 + i, phi=p, rc=c)
                for i, (p, c) in enumerate(CENT)]
        return gen.ocb(kind, recs, hemi), [(i, p, c) for i, (p, c)
                                           in enumerate(CENT)]
    if kind == 'eab':
        recs = [gen.rec(60 * i, 25.0 + i, phi=p, rc=c)
                for i, (p, c) in enumerate(CENT)]
        return gen.eab('image', recs, hemi), [(i, p, c) for i, (p, c)
                                              in enumerate(CENT)]
    # dual: the first and fourth poleward records have no partner
    orec = [gen.rec(600 * i, 14.0 + i % 3, phi=p, rc=c)
            for i, (p, c) in enumerate(CENT)]
    erec = [gen.rec(600 * i + 5, 28.0, phi=200.0 - p, rc=1.0)
            for i, (p, c) in enumerate(CENT) if i not in (0, 3)]
    obj = gen.dual('image', orec, 'ampere', erec, hemi, 60,
                   ekw={'rfunc': gen.ocbcor.circular})
    return obj, [(k, CENT[i][0], CENT[i][1]) for k, i in enumerate(
        [1, 2, 4, 5, 6, 7])]


def objects(params, rep):
    """Vector objects"""
    tier, kind, hemi = params['tier'], params['kind'], params['hemi']
    bound, cents = make(kind, hemi)
    dirs = directions(8)[:8] + [(0.0, 0.0), (3.0, -4.0), (-3.0, 4.0),
                                (-5.0, -12.0), (1e-9, 1.0), (1.0, -1e-9),
                                (100.0, 1.0), (1.0, 100.0), (-1.0, 100.0)]
    if tier == 'quick':
        locs = [(la, mt) for la in (50.0, 66.0, 75.0, 82.0, 86.5, 89.5)
                for mt in [1.5 * i for i in range(16)]]
    else:
        locs = [(la, mt) for la in (30.0, 50.0, 60.0, 66.0, 70.0, 75.0, 80.0,
                                    84.0, 86.5, 89.5)
                for mt in [0.5 * i for i in range(48)]]
    la = np.array([v[0] for v in locs])
    mt = np.array([v[1] for v in locs])
    for ind, phi, rc in cents:
        plt, plat = phi / 15.0, 90.0 - rc
        for d, (n, e) in enumerate(dirs):
            z = [0.0, 2.0, -1.5][d % 3]
            vec = VD(np.arange(len(locs)), ind, hemi * la, mt,
                     vect_n=np.full(len(locs), n), vect_e=np.full(
                         len(locs), e), vect_z=np.full(len(locs), z))
            vec.set_ocb(bound)
            rep.step(1, 'object')
            rep.state((kind, hemi, ind, n, e))
            # north is the direction towards the northern boundary pole, or
            # away from the southern one
            if hemi > 0:
                wn, we, wang, dist = sphere(mt, la, n, e, plt, plat)
            else:
                wn, we, wang, dist = sphere(mt, -la, -n, -e, plt, -plat)
            got = [vec.ocb_n, vec.ocb_e, vec.ocb_z, vec.ocb_mag]
            mag = math.sqrt(n * n + e * e)
            okay = (dist > 1e-3) & (np.sqrt(
                (la - plat)**2 + 0 * la) + np.abs((mt - plt) % 24) > 1e-6)
            tol = 2.0e-5 * max(mag, 1e-3)
            bad = okay & ~(
                (np.abs(got[0] - wn) <= tol) & (np.abs(got[1] - we) <= tol)
                & (np.abs(got[2] - z) <= 1e-9)
                & (np.abs(got[3] - math.hypot(mag, z)) <= 1e-8 * max(mag,
                                                                    1.0)))
            case = {'kind': kind, 'hemi': hemi, 'ind': ind, 'n': n, 'e': e,
                    'z': z}
            if hemi < 0 and np.any(bad):
                # listed finding: the boundary pole is taken to be at its
                # mirror location in the northern hemisphere
                fn, fe, fang, fdist = sphere(mt, -la, n, e, plt, plat)
                same = bad & (
                    (np.abs(got[0] - fn) <= tol) & (np.abs(got[1] - fe) <= tol)
                    & (np.abs(got[2] - z) <= 1e-9)
                    & (np.abs(got[3] - math.hypot(mag, z)) <= 1e-8 * max(
                        mag, 1.0)))
                if np.any(same):
                    rep.know('southern-pole', 'vectors at southern magnetic '
                             'locations are turned towards the mirror image '
                             'of the boundary pole in the northern hemisphere')
                bad &= ~same
            if np.any(bad):
                b = np.where(bad)[0][0]
                rep.violate(dict(case, lat=hemi * la[b], mlt=mt[b]),
                            'rotated vector', [float(v[b]) for v in got],
                            [wn[b], we[b], z, math.hypot(mag, z)])
            # the pole used and the angle
            if not (np.allclose(vec.ocb_aacgm_mlt, plt)
                    and np.allclose(vec.ocb_aacgm_lat, plat)):
                rep.violate(case, 'location of the boundary pole',
                            [vec.ocb_aacgm_mlt, vec.ocb_aacgm_lat],
                            [plt, plat])
            if d in (0, 9):
                # each alone
                for b in range(0, len(locs), 5):
                    if not okay[b]:
                        continue
                    one = VD(0, ind, hemi * la[b], mt[b], vect_n=n, vect_e=e,
                             vect_z=z)
                    one.set_ocb(bound)
                    rep.step(1, 'object alone')
                    vals = [float(one.ocb_n), float(one.ocb_e),
                            float(one.ocb_z), float(one.ocb_mag)]
                    if not np.allclose(vals, [v[b] for v in got], atol=1e-9,
                                       equal_nan=True):
                        rep.violate(dict(case, lat=hemi * la[b], mlt=mt[b]),
                                    'vector alone differs', vals,
                                    [v[b] for v in got])
            rep.trace(case, got[0][:5])


def jobs(tier):
    out = [('objects', {'tier': tier, 'kind': k, 'hemi': h})
           for k in ('image', 'ampere', 'dmsp-ssj', 'eab', 'dual')
           for h in (1, -1)]
    out += [('pipeline', {'tier': tier, 'lt': lt}) for lt in lts(tier)]
    out += [('angles', {'tier': tier}), ('quadrants', {'tier': tier})]
    return out
