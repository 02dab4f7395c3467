"""P23: the satellite track mask selects exactly the points on the track."""
import itertools
import math

from mc import gen
from mc.gen import np
from ocbpy import cycle_boundary

TECHNIQUE = ('exhaustive enumeration of pairs of crossings x offsets x '
             'equatorward allowance x hemisphere x locations on the real '
             'code, each location alone and with others, against the '
             'geometric definition')
ORACLE = ('signed distance from the line through both crossings no larger '
          'than that of the displaced lines, and latitude no lower than that '
          'of the nearer crossing less the allowance, one location at a time')
BOUND = {'quick': '40 crossings (20 directions x 2 radii), all ordered pairs, '
                  '6 offset pairs, 5 allowances, 2 hemispheres, 216 '
                  'locations (27 local times x 8 latitudes); exact edges for '
                  'axis-aligned tracks; all pairs of 12 locations; 6 shapes',
         'thorough': '108 crossings, 13 offset pairs, 9 allowances, 1,500 '
                     'locations'}
ASSUMPTIONS = ['locations within 1e-7 of a line or limit are decided only '
               'where floating point arithmetic is exact']
NAN = float('nan')
track = cycle_boundary.satellite_track


def crossings(tier):
    if tier == 'quick':
        angs, rads = range(0, 360, 18), (11.0, 22.0)
    else:
        angs, rads = range(0, 360, 10), (4.0, 14.0, 25.0)
    return [(r * math.cos(math.radians(a)), r * math.sin(math.radians(a)))
            for a in angs for r in rads]


def places(tier):
    if tier == 'quick':
        mlts = [i * 24.0 / 25.0 + 0.11 for i in range(25)] + [-3.3, 30.7]
        lats = [89.5, 84.0, 78.5, 76.0, 70.5, 66.0, 61.0, 40.0]
    else:
        mlts = [i * 24.0 / 49.0 + 0.11 for i in range(48)] + [-3.3, 30.7]
        lats = [90.0 - 2.0 * i - 0.2 for i in range(29)] + [0.5]
    return [(la, mt) for la in lats for mt in mlts]


OFFS = {'quick': [(1.0, 1.0), (0.5, 3.0), (3.0, 0.5), (0.0, 2.0), (2.0, 0.0),
                  (6.0, 5.0)],
        'thorough': [(1.0, 1.0), (0.5, 3.0), (3.0, 0.5), (0.0, 2.0),
                     (2.0, 0.0), (6.0, 5.0), (0.0, 0.0), (0.1, 0.1),
                     (10.0, 1.0), (1.0, 10.0), (20.0, 20.0), (0.0, 15.0),
                     (15.0, 0.0)]}
PAST = {'quick': [0.0, 2.0, 5.0, 11.0, 40.0],
        'thorough': [0.0, 0.5, 2.0, 5.0, 8.0, 11.0, 25.0, 40.0, 90.0]}


def decide(lat, mlt, c1, c2, hemi, dx, dy, past, eps=1.0e-7):
    """True, False or None when too close to call"""
    if lat != lat or mlt != mlt:
        return False
    rad = 90.0 - hemi * lat
    ang = (mlt - 6.0) * math.pi / 12.0
    px, py = rad * math.cos(ang), rad * math.sin(ang)
    tx, ty = c2[0] - c1[0], c2[1] - c1[1]
    # signed distance to the line is (offset) x (direction)
    cross = (px - c1[0]) * ty - (py - c1[1]) * tx
    lim = abs(dx * ty - dy * tx)
    d1 = math.hypot(px - c1[0], py - c1[1])
    d2 = math.hypot(px - c2[0], py - c2[1])
    low1 = 90.0 - past - math.hypot(*c1)
    low2 = 90.0 - past - math.hypot(*c2)
    if abs(d1 - d2) < eps and abs(low1 - low2) > eps:
        return None
    low = low1 if d1 <= d2 else low2
    band = None if abs(abs(cross) - lim) < eps * 10 else abs(cross) < lim
    high = None if abs(hemi * lat - low) < eps else hemi * lat > low
    if band is False or high is False:
        return False
    if band is None or high is None:
        return None
    return True


def grid(params, rep):
    tier = params['tier']
    cross = crossings(tier)
    locs = places(tier)
    plat = np.array([v[0] for v in locs])
    pmlt = np.array([v[1] for v in locs])
    ang = (pmlt - 6.0) * math.pi / 12.0
    num = 0
    for i, c1 in enumerate(cross):
        if i % params['parts'] != params['part']:
            continue
        for j, c2 in enumerate(cross):
            if i == j:
                continue
            for k, (dx, dy) in enumerate(OFFS[tier]):
                for q, past in enumerate(PAST[tier]):
                    if tier == 'quick' and (i + 2 * j + k + q) % 5:
                        continue
                    for hemi in (1, -1):
                        got = track(hemi * plat, pmlt, c1[0], c1[1], c2[0],
                                    c2[1], hemi, del_x=dx, del_y=dy,
                                    past_bound=past)
                        num += 1
                        rep.step(1, 'track')
                        case = {'c1': c1, 'c2': c2, 'hemi': hemi, 'del':
                                [dx, dy], 'past': past}
                        if np.shape(got) != plat.shape:
                            rep.violate(case, 'shape', np.shape(got))
                            continue
                        # vectorised form of decide
                        eps = 1.0e-7
                        px = (90.0 - plat) * np.cos(ang)
                        py = (90.0 - plat) * np.sin(ang)
                        tx, ty = c2[0] - c1[0], c2[1] - c1[1]
                        crs = np.abs((px - c1[0]) * ty - (py - c1[1]) * tx)
                        lim = abs(dx * ty - dy * tx)
                        d1 = np.hypot(px - c1[0], py - c1[1])
                        d2 = np.hypot(px - c2[0], py - c2[1])
                        l1 = 90.0 - past - math.hypot(*c1)
                        l2 = 90.0 - past - math.hypot(*c2)
                        low = np.where(d1 <= d2, l1, l2)
                        want = (crs < lim) & (plat > low)
                        sure = np.ones(len(want), dtype=bool)
                        if abs(l1 - l2) > eps:
                            sure &= np.abs(d1 - d2) > eps
                        off = (crs > lim + eps * 10) | (plat < low - eps)
                        inn = (crs < lim - eps * 10) & (plat > low + eps)
                        sure &= off | inn
                        bad = sure & (np.asarray(got, dtype=bool) != want)
                        if np.any(bad):
                            b = np.where(bad)[0][0]
                            rep.violate(dict(case, lat=hemi * plat[b],
                                             mlt=pmlt[b]), 'location',
                                        bool(got[b]), bool(want[b]))
                        rep.state((c1, c2, dx, dy, past, hemi))
                        rep.outcome(tuple(np.where(want)[0].tolist()))
        rep.trace({'c1': c1, 'calls': num}, None)


def edges(params, rep):
    """Exact limits, where the arithmetic is exact: tracks along the axes and
    locations at 6 MLT"""
    for hemi in (1, -1):
        # track along x through y = c, point on the x axis
        for c in (-3.0, -1.0, 0.0, 1.0, 3.0):
            for x1, x2 in ((-4.0, 4.0), (4.0, -4.0), (-20.0, 20.0)):
                for dy in (0.0, 1.0, 3.0, 3.5, 1.0 - 2**-30, 1.0 + 2**-30):
                    for dx in (0.0, 1.0):
                        for rad in (0.0, 1.0, 4.0, 5.0, 21.0):
                            lat = hemi * (90.0 - rad)
                            got = track(np.array([lat]), np.array([6.0]), x1,
                                        c, x2, c, hemi, dx, dy, 30.0)
                            want = abs(c) <= dy
                            rep.step(1, 'edge')
                            rep.state((hemi, c, x1, dy, dx, rad))
                            if bool(got[0]) != want:
                                rep.violate({'along': 'x', 'c': c, 'x1': x1,
                                             'del': [dx, dy], 'lat': lat,
                                             'hemi': hemi}, 'edge of the '
                                            'band', bool(got[0]), want)
        rep.trace({'edge': 'band x', 'hemi': hemi}, None)
        # track along y through x = c
        for c in (-3.0, 0.0, 2.0, 7.0):
            for y1, y2 in ((-8.0, 8.0), (8.0, -8.0), (-20.0, 4.0)):
                for dx in (0.0, 1.0, 3.0, 2.0 - 2**-30, 2.0 + 2**-30):
                    for dy in (0.0, 1.0):
                        for rad in (0.0, 1.0, 2.0, 3.0, 4.0, 8.0, 10.0):
                            lat = hemi * (90.0 - rad)
                            got = track(np.array([lat]), np.array([6.0]), c,
                                        y1, c, y2, hemi, dx, dy, 40.0)
                            want = abs(rad - c) <= dx
                            rep.step(1, 'edge')
                            rep.state((hemi, c, y1, dy, dx, rad, 'y'))
                            if bool(got[0]) != want:
                                rep.violate({'along': 'y', 'c': c, 'y1': y1,
                                             'del': [dx, dy], 'lat': lat,
                                             'hemi': hemi}, 'edge of the '
                                            'band', bool(got[0]), want)
        rep.trace({'edge': 'band y', 'hemi': hemi}, None)
        # equatorward limit of the nearer crossing
        for c1, c2 in itertools.permutations([(3.0, 4.0), (-6.0, -8.0),
                                              (5.0, 0.0), (-13.0, 0.0),
                                              (9.0, -12.0)], 2):
            for past in (0.0, 1.0, 5.0, 7.5):
                for rad in (0.0, 1.0, 4.0, 5.0, 6.0, 10.0, 12.5, 13.0, 14.0,
                            15.0, 17.5, 20.0, 20.5):
                    for tiny in (-2.0**-30, 0.0, 2.0**-30):
                        lat = 90.0 - rad + tiny
                        rr = 90.0 - lat
                        d1 = math.hypot(rr - c1[0], c1[1])
                        d2 = math.hypot(rr - c2[0], c2[1])
                        near = c1 if d1 < d2 else c2
                        if abs(d1 - d2) < 1e-7:
                            continue
                        want = lat >= 90.0 - past - math.hypot(*near)
                        got = track(np.array([hemi * lat]), np.array([6.0]),
                                    c1[0], c1[1], c2[0], c2[1], hemi, 500.0,
                                    400.0, past)
                        rep.step(1, 'edge')
                        rep.state((hemi, c1, c2, past, rad, tiny))
                        if bool(got[0]) != want:
                            rep.violate({'c1': c1, 'c2': c2, 'past': past,
                                         'lat': hemi * lat, 'hemi': hemi},
                                        'equatorward limit', bool(got[0]),
                                        want)
        rep.trace({'edge': 'equatorward', 'hemi': hemi}, None)
        # equally close crossings at the same distance from the pole
        for past in (0.0, 1.0):
            for rad in (4.0, 5.0, 6.0, 7.0):
                got = track(hemi * (90.0 - rad), 6.0, 3.0, 4.0, 3.0, -4.0,
                            hemi, 50.0, 50.0, past)
                if bool(got) != (rad <= 5.0 + past):
                    rep.violate({'tie': rad, 'past': past, 'hemi': hemi},
                                'equally close crossings', bool(got))
                rep.step(1, 'edge')


def together(params, rep):
    """The answer for a location does not depend on the others in the call"""
    tier = params['tier']
    base = [(85.0, 3.3), (75.0, 7.1), (75.0, 19.0), (65.0, 6.2), (88.0, 20.1),
            (50.0, 5.9), (NAN, 6.0), (80.0, NAN), (-75.0, 7.1), (71.0, 12.2),
            (71.0, 0.4), (89.9, 12.1)]
    tracks = [((14.0, 1.0), (-15.0, -2.0)), ((3.0, 16.0), (-1.0, -20.0)),
              ((12.0, 12.0), (-11.0, -9.0)), ((-5.0, 18.0), (16.0, -2.0)),
              ((14.0, 1.0), (14.0, -9.0))]
    num = 2 if tier == 'quick' else 3
    for c1, c2 in tracks:
        for hemi in (1, -1):
            for past in (2.0, 20.0):
                def call(lat, mlt):
                    return track(lat, mlt, c1[0], c1[1], c2[0], c2[1], hemi,
                                 2.0, 3.0, past)
                alone = []
                for la, mt in base:
                    res = call(hemi * la, mt)
                    rep.step(1, 'alone')
                    want = decide(hemi * la, mt, c1, c2, hemi, 2.0, 3.0, past)
                    if np.ndim(res) != 0:
                        rep.violate({'lat': la, 'mlt': mt}, 'scalar', res)
                    alone.append(bool(res))
                    if want is not None and bool(res) != want:
                        rep.violate({'lat': hemi * la, 'mlt': mt, 'c1': c1,
                                     'c2': c2, 'hemi': hemi, 'past': past},
                                    'single location', bool(res), want)
                for inds in itertools.product(range(len(base)), repeat=num):
                    res = call(np.array([hemi * base[i][0] for i in inds]),
                               np.array([base[i][1] for i in inds]))
                    rep.step(1, 'pairs')
                    if [bool(v) for v in res] != [alone[i] for i in inds]:
                        rep.violate({'places': [base[i] for i in inds],
                                     'c1': c1, 'c2': c2, 'hemi': hemi},
                                    'locations affect each other', res,
                                    [alone[i] for i in inds])
                lats = [hemi * v[0] for v in base]
                mlts = [v[1] for v in base]
                for shape in ((12, 1), (1, 12), (3, 4), (2, 3, 2)):
                    res = call(np.array(lats).reshape(shape),
                               np.array(mlts).reshape(shape))
                    rep.step(1, 'shape')
                    if np.shape(res) != shape or [
                            bool(v) for v in np.ravel(res)] != alone:
                        rep.violate({'shape': shape, 'c1': c1, 'hemi': hemi},
                                    'shape changes the answer', res, alone)
                for (k1, v1), (k2, v2) in itertools.product(
                        gen.containers(lats), gen.containers(mlts)):
                    res = call(v1, v2)
                    rep.step(1, 'container')
                    if [bool(v) for v in res] != alone:
                        rep.violate({'containers': [k1, k2]}, 'container '
                                    'changes the answer', res, alone)
                # crossings in the other order
                res = track(np.array(lats), np.array(mlts), c2[0], c2[1],
                            c1[0], c1[1], hemi, 2.0, 3.0, past)
                rep.step(1, 'swap')
                if [bool(v) for v in res] != alone:
                    rep.violate({'c1': c1, 'c2': c2}, 'order of the crossings '
                                'changes the answer', res, alone)
                res = call(np.array([]), np.array([]))
                if np.shape(res) != (0,):
                    rep.violate({'empty': True}, 'empty input', res)
                rep.trace({'c1': c1, 'c2': c2, 'hemi': hemi, 'past': past},
                          alone)
    # defaults: one degree in each direction, five degrees equatorward
    lat = np.array([v[0] for v in places('quick')])
    mlt = np.array([v[1] for v in places('quick')])
    for c1, c2 in tracks:
        for hemi in (1, -1):
            for h in (hemi, float(hemi), np.int64(hemi)):
                one = track(hemi * lat, mlt, c1[0], c1[1], c2[0], c2[1], h)
                two = track(hemi * lat, mlt, c1[0], c1[1], c2[0], c2[1],
                            hemi, 1.0, 1.0, 5.0)
                rep.step(2, 'default')
                if not np.array_equal(one, two):
                    rep.violate({'c1': c1, 'c2': c2, 'hemi': hemi},
                                'defaults')


def reject(params, rep):
    good = dict(hemisphere=1, del_x=1.0, del_y=1.0, past_bound=5.0)
    bad = {'hemisphere': [0, 2, -2, 0.5, 1.5, -0.5, 90, NAN],
           'del_x': [-1.0, -1.0e-9, -5], 'del_y': [-1.0, -1.0e-9, -5],
           'past_bound': [-1.0, -1.0e-9, -5]}
    locs = [(75.0, 6.0), ([75.0, 80.0], [6.0, 7.0]), ([], [])]
    for n in (1, 2, 3):
        for keys in itertools.combinations(sorted(bad), n):
            for vals in itertools.product(*[bad[k] for k in keys]):
                for la, mt in locs:
                    kw = dict(good)
                    kw.update(zip(keys, vals))
                    rep.step(1, 'reject')
                    rep.state((keys, vals, np.shape(la)))
                    try:
                        res = track(np.array(la), np.array(mt), 14.0, 1.0,
                                    -15.0, -2.0, **kw)
                        rep.violate({'args': kw}, 'invalid value accepted',
                                    res)
                    except ValueError:
                        pass
    for dx, dy, past in itertools.product((0, 0.0, 1), repeat=3):
        for hemi in (1, -1, 1.0, -1.0):
            track(np.array([75.0 * hemi]), np.array([6.0]), 14.0, 1.0, -15.0,
                  -2.0, hemi, dx, dy, past)
            rep.step(1, 'accept')
    rep.trace({'reject': True}, None)


def jobs(tier):
    parts = 10 if tier == 'quick' else 54
    return [('grid', {'tier': tier, 'part': i, 'parts': parts})
            for i in range(parts)] + [
        (n, {'tier': tier}) for n in ('edges', 'together', 'reject')]
