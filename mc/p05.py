"""P05: single-boundary coordinates are correct and invert exactly."""
import itertools

from mc import gen, ref
from mc.gen import np

TECHNIQUE = ('exhaustive exploration of boundary record x correction x '
             'hemisphere x location x container shape on the real conversion '
             'code, lock-step with a scalar reference model')
ORACLE = ('planar scaling and its inverse, one location at a time in plain '
          'Python')
BOUND = {'quick': 'every (2 hemispheres x 2 classes x 3 instruments x 11 '
                  'corrections x 18 records) on a 14 x 25 latitude/local '
                  'time grid, forward and back; every container pair on 8 '
                  'location patterns; every NaN/other hemisphere pattern of 4 '
                  'elements; every call pair at every cursor',
         'thorough': 'the same on a 41 x 97 grid with 60 records and '
                     'patterns of 5 elements'}
JOB_CPU_LIMIT = 800
NAN = float('nan')


def records(tier, hemi):
    rads = [10.0, 14.5, 25.0]
    cents = [(0.0, 0.0), (30.0, 2.0), (135.0, 5.0), (180.0, 1.0),
             (270.0, 8.5), (359.5, 4.0)]
    if tier == 'thorough':
        rads = [9.5, 12.0, 16.0, 21.0, 30.0]
        cents += [(90.0, 3.0), (45.0, 9.0), (201.0, 6.0), (225.0, 0.5),
                  (300.0, 7.0), (1.0, 10.0)]
    out = []
    for r in rads:
        for phi, rc in cents:
            out.append(gen.rec(60 * len(out), r, phi=phi, rc=rc))
    return out


LATS = {'quick': [90.0, 89.5, 88.0, 85.0, 80.0, 76.0, 74.0, 71.0, 65.0, 60.0,
                  45.0, 30.0, 10.0, 0.5],
        'thorough': [90.0] + [90.0 - 2.2 * i - 0.1 for i in range(40)]}
MLTS = {'quick': [float(i) for i in range(24)] + [23.99],
        'thorough': [0.25 * i for i in range(97)]}
BLAT = {'ocb': [74.0, 70.0, 60.5], 'eab': [64.0, 58.0, 70.5]}


def jobs(tier):
    out = []
    for cls, inst, name in itertools.product(
            ('ocb', 'eab'), gen.LIMITS, gen.CORRS):
        out.append(('grid', [tier, cls, inst, name]))
    for hemi in (1, -1):
        for k in range(4):
            out.append(('shapes', [tier, hemi, k]))
        out.append(('patterns', [tier, hemi]))
        out.append(('cursor', [tier, hemi]))
    out.append(('constructor', []))
    return out


def build(tier, cls, inst, name, hemi, recs):
    kw, corr = gen.corrections(name, inst, len(recs), cls)
    kind = gen.LIMITS and list(gen.LIMITS).index(inst)
    blat = BLAT[cls][(kind + gen.CORRS.index(name)) % 3]
    # the sign of the supplied latitude does not matter
    sgn = -1.0 if (kind + len(name)) % 2 else 1.0
    obj = gen.ocb(inst, recs, hemi, cls=(gen.ocbpy.EABoundary
                                         if cls == 'eab' else None),
                  boundary_lat=sgn * blat, **kw)
    models = [ref.Bound(float(obj.r[i]), float(obj.phi_cent[i]),
                        float(obj.r_cent[i]), hemi, blat, corr[i])
              for i in range(len(recs))]
    for i, rr in enumerate(recs):
        if not (gen.close(obj.r[i], rr['r'], 1e-9) and
                gen.close(obj.r_cent[i], rr['rc'], 1e-9) and
                (rr['rc'] == 0.0 or gen.close_mlt(obj.phi_cent[i], rr['phi'],
                                                  1e-9, 360.0))):
            raise RuntimeError('loaded record differs from the file')
    return obj, models


def tol_lat(model, olat):
    return 1.0e-8


def cmp_norm(got, want, lat, rep, case):
    """One location; local time is undefined at the boundary pole."""
    glat, gmlt, gcor = got
    wlat, wmlt, wcor = want
    ok = gen.close(glat, wlat, 1e-8)
    if ok and wlat == wlat:
        if abs(wlat) < 90.0 - 1.0e-6:
            ok = gen.close_mlt(gmlt, wmlt, 1e-7) and 0.0 <= gmlt < 24.0
        ok = ok and gen.close(gcor, wcor, 1e-8)
    elif ok:
        ok = gmlt != gmlt
    if not ok:
        rep.violate(case, 'wrong normalised coordinates', got, want)
    return ok


def grid(params, rep):
    tier, cls, inst, name = params
    lats, mlts = LATS[tier], MLTS[tier]
    glat = np.repeat(lats, len(mlts))
    gmlt = np.tile(mlts, len(lats))
    for hemi in (1, -1):
        recs = records(tier, hemi)
        obj, models = build(tier, cls, inst, name, hemi, recs)
        for irec in range(len(recs)):
            obj.rec_ind = irec
            case = [cls, inst, name, hemi, irec]
            rep.state(case)
            lat, mlt, corr = obj.normal_coord(hemi * glat, gmlt)
            rep.step(len(glat), 'normal_coord')
            corr = gen.full(corr, lat.shape)
            nbad = 0
            outs = []
            for j in range(len(glat)):
                want = models[irec].normal(hemi * glat[j], gmlt[j])
                outs.append(want)
                if not cmp_norm((lat[j], mlt[j], corr[j]), want, glat[j], rep,
                                case + [hemi * glat[j], gmlt[j]]):
                    nbad += 1
                    if nbad > 2:
                        break
            # back with the returned correction
            blat, bmlt = obj.revert_coord(lat, mlt, r_corr=corr)
            rep.step(len(glat), 'revert_coord')
            for j in range(len(glat)):
                if np.sign(lat[j]) != hemi:
                    continue
                ok = gen.close(blat[j], hemi * glat[j], 1e-8)
                if ok and glat[j] < 90.0 - 1e-6:
                    ok = gen.close_mlt(bmlt[j], gmlt[j], 1e-6) and \
                        0.0 <= bmlt[j] < 24.0
                if not ok:
                    rep.violate(case + [hemi * glat[j], gmlt[j], 'back'],
                                'reverting does not recover the location',
                                (blat[j], bmlt[j]), (hemi * glat[j], gmlt[j]))
                    break
            # direct reversion with other corrections
            for cor in (0.0, -1.5, 2.25):
                rlat, rmlt = obj.revert_coord(hemi * glat, gmlt, r_corr=cor)
                rep.step(len(glat), 'revert_coord')
                for j in range(0, len(glat), 3):
                    want = models[irec].revert(hemi * glat[j], gmlt[j], cor)
                    ok = gen.close(rlat[j], want[0], 1e-8)
                    if ok and abs(want[0]) < 90.0 - 1e-6:
                        ok = gen.close_mlt(rmlt[j], want[1], 1e-6)
                    if not ok:
                        rep.violate(case + [hemi * glat[j], gmlt[j], cor],
                                    'wrong reverted location',
                                    (rlat[j], rmlt[j]), want)
                        break
            # a location on a circular boundary is at the reference latitude
            if models[irec].rc == 0.0:
                for m in mlts:
                    on = hemi * (90.0 - models[irec].r
                                 - models[irec].corr(m))
                    got = obj.normal_coord(on, m)
                    rep.step()
                    if not (gen.close(float(got[0]), obj.boundary_lat, 1e-8)
                            and gen.close_mlt(float(got[1]), m, 1e-6)):
                        rep.violate(case + [on, m], 'boundary location not at '
                                    'the reference latitude', got,
                                    obj.boundary_lat)
            rep.trace(case, outs[::37])


PATS = [([80.0, 70.0, 60.0, 75.0], [1.0, 7.0, 13.0, 23.0]),
        ([80.5, NAN, 60.0, -75.0], [1.0, 7.0, 13.5, 23.0]),
        ([-80.0, -70.0, 66.0, -75.0], [0.0, 24.0, -3.0, 27.0]),
        ([-80.0, -70.0, -66.0, -75.0], [0.0, 6.0, 12.0, 18.0]),
        ([NAN, NAN, NAN, NAN], [0.0, 6.0, 12.0, 18.0]),
        ([89.0, 88.0, 87.0, 86.0], [0.0, NAN, 12.0, 18.0]),
        ([81.0, 75.0, 70.0, 65.0], [5.0, 5.0, 5.0, 5.0]),
        ([72.0, 72.0, 72.0, 72.0], [0.0, 5.5, 12.0, 23.5])]


def shapes(params, rep):
    """Every container pair gives the element-wise result."""
    tier, hemi, part = params
    recs = records('quick', hemi)[1:9]
    for inst, name in (('image', 'default'), ('ampere', 'default'),
                       ('dmsp-ssj', 'bump'), ('image', 'array')):
        obj, models = build(tier, 'ocb', inst, name, hemi, recs)
        for irec in range(part, len(recs), 4):
            obj.rec_ind = irec
            model = models[irec]
            for ipat, (plat, pmlt) in enumerate(PATS):
                plat = [hemi * v for v in plat]
                want = [model.normal(a, b) for a, b in zip(plat, pmlt)]
                combos = list(itertools.product(gen.containers(plat),
                                                gen.containers(pmlt)))
                for (n1, a), (n2, b) in combos:
                    judge(obj, a, b, want, (4,), rep,
                          [hemi, inst, name, irec, ipat, n1, n2])
                # higher dimensions
                for shape in ((2, 2), (1, 4), (4, 1), (1, 2, 2), (1, 1, 4)):
                    judge(obj, np.reshape(plat, shape),
                          np.reshape(pmlt, shape), want, shape, rep,
                          [hemi, inst, name, irec, ipat, shape])
                # single elements and mixtures
                for j in range(4):
                    for (n1, a), (n2, b) in itertools.product(
                            gen.scalars(plat[j]), gen.scalars(pmlt[j])):
                        judge(obj, a, b, [want[j]], (), rep,
                              [hemi, inst, name, irec, ipat, j, n1, n2])
                    judge(obj, [plat[j]], [pmlt[j]], [want[j]], (1,), rep,
                          [hemi, inst, name, irec, ipat, j, 'one'])
                    for n2, b in gen.containers(pmlt):
                        judge(obj, plat[j], b, [model.normal(plat[j], m)
                                                for m in pmlt], (4,), rep,
                              [hemi, inst, name, irec, ipat, j, 'lat', n2])
                    for n1, a in gen.containers(plat):
                        judge(obj, a, pmlt[j], [model.normal(v, pmlt[j])
                                                for v in plat], (4,), rep,
                              [hemi, inst, name, irec, ipat, j, 'mlt', n1])


def judge(obj, lat, mlt, want, shape, rep, case):
    rep.state(case)
    got = obj.normal_coord(lat, mlt)
    rep.step(1, 'normal_coord')
    if np.shape(got[0]) != shape or np.shape(got[1]) != shape:
        rep.violate(case, 'shape of the result', [np.shape(g) for g in got],
                    shape)
        return
    flat = [gen.full(g, shape).ravel() for g in got]
    for j in range(len(want)):
        if not cmp_norm([f[j] for f in flat], want[j], None, rep,
                        case + [j]):
            return
    # and back, where it is defined
    if shape == () and np.sign(float(got[0])) != obj.hemisphere:
        rep.trace(case, want)
        return
    if any(w[0] == w[0] and np.sign(w[0]) != obj.hemisphere for w in want):
        return
    back = obj.revert_coord(*got)
    rep.step(1, 'revert_coord')
    if np.shape(back[0]) != shape or np.shape(back[1]) != shape:
        rep.violate(case, 'shape of the reverted result',
                    [np.shape(g) for g in back], shape)
        return
    a = gen.full(lat, shape).ravel()
    b = gen.full(mlt, shape).ravel()
    bl, bm = [np.asarray(v).ravel() for v in back]
    for j in range(len(want)):
        if want[j][0] != want[j][0]:
            ok = bl[j] != bl[j]
        else:
            ok = gen.close(bl[j], a[j], 1e-8) and gen.close_mlt(bm[j], b[j],
                                                                1e-6)
        if not ok:
            rep.violate(case + [j, 'back'], 'reverting does not recover the '
                        'location', (bl[j], bm[j]), (a[j], b[j]))
            return
    rep.trace(case, want)


def patterns(params, rep):
    """Every pattern of usable, NaN and other-hemisphere elements."""
    tier, hemi = params
    num = 4 if tier == 'quick' else 5
    alpha = [(77.0, 3.0), (68.0, 16.5), (NAN, 8.0), (-70.0, 20.0), (75.0, NAN),
             (-60.0, NAN)]
    recs = records('quick', hemi)[:6]
    for inst, name in (('image', 'default'), ('ampere', 'default'),
                       ('image', 'kwarray')):
        obj, models = build(tier, 'ocb', inst, name, hemi, recs)
        for irec in (1, 4):
            obj.rec_ind = irec
            base = [models[irec].normal(hemi * a, b) for a, b in alpha]
            for length in range(1, num + 1):
                for pat in itertools.product(range(len(alpha)),
                                             repeat=length):
                    case = [hemi, inst, name, irec, pat]
                    judge(obj, [hemi * alpha[p][0] for p in pat],
                          [alpha[p][1] for p in pat], [base[p] for p in pat],
                          (length,), rep, case)
            # arrays longer than any usual block
            idx = [(3 * i * i + i) % len(alpha) for i in range(3001)]
            judge(obj, np.array([hemi * alpha[p][0] for p in idx]),
                  np.array([alpha[p][1] for p in idx]),
                  [base[p] for p in idx], (3001,), rep,
                  [hemi, inst, name, irec, 'long'])


def cursor(params, rep):
    """No selected record: everything is undefined.  Conversions at every
    cursor after every other cursor."""
    tier, hemi = params
    recs = records('quick', hemi)[:5]
    for inst, name, cls in (('image', 'default', 'ocb'),
                            ('ampere', 'default', 'ocb'),
                            ('dmsp-ssj', 'array', 'ocb'),
                            ('image', 'kwarray', 'eab')):
        obj, models = build(tier, cls, inst, name, hemi, recs)
        cursors = [-7, -1, 0, 1, 2, 3, 4, 5, 6, 11, np.int64(2), np.int64(-1),
                   np.int64(5)]
        for first, second in itertools.product(cursors, cursors):
            for lat, mlt, shape in ((hemi * 75.0, 5.0, ()),
                                    ([hemi * 75.0, hemi * 66.0], [5.0, 17.0],
                                     (2,)),
                                    (hemi * 70.0, [5.0, 17.0, 20.0], (3,)),
                                    ([[hemi * 70.0, hemi * 50.0]], 3.0,
                                     (1, 2))):
                case = [hemi, inst, name, int(first), int(second), shape]
                rep.state(case)
                obj.rec_ind = first
                obj.normal_coord(lat, mlt)
                obj.rec_ind = second
                got = obj.normal_coord(lat, mlt)
                rep.step(2, 'normal_coord')
                if obj.rec_ind != second:
                    rep.violate(case, 'conversion moved the cursor',
                                obj.rec_ind, second)
                flat = [gen.full(g, shape).ravel() for g in got]
                a = gen.full(lat, shape).ravel()
                b = gen.full(mlt, shape).ravel()
                if 0 <= second < 5:
                    for j in range(len(a)):
                        cmp_norm([f[j] for f in flat],
                                 models[second].normal(a[j], b[j]), None, rep,
                                 case + [j])
                else:
                    if np.shape(got[0]) != shape or not all(
                            np.isnan(f).all() for f in flat):
                        rep.violate(case, 'not undefined without a record',
                                    got, 'NaN')
                    back = obj.revert_coord(lat, mlt)
                    rep.step(1, 'revert_coord')
                    if np.shape(back[0]) != shape or not (
                            np.isnan(back[0]).all()
                            and np.isnan(back[1]).all()):
                        rep.violate(case, 'reverted without a record', back,
                                    'NaN')
                rep.trace(case, flat)
        # nothing in the other hemisphere
        for irec in range(5):
            obj.rec_ind = irec
            for lat in (-hemi * 75.0, [-hemi * 75.0, -hemi * 60.0]):
                back = obj.revert_coord(lat, 3.0)
                rep.step(1, 'revert_coord')
                rep.trace([hemi, inst, 'other', irec], None)
                if not (np.isnan(back[0]).all() and np.isnan(back[1]).all()):
                    rep.violate([hemi, inst, irec, lat], 'other hemisphere '
                                'reverted', back, 'NaN')


def constructor(params, rep):
    """Reference latitude has the sign of the hemisphere; no data, no
    result."""
    for hemi, blat, cls in itertools.product(
            (1, -1), (74, -74, 74.0, -60.5, 45.0, 80, np.float64(66.0)),
            (gen.ocbpy.OCBoundary, gen.ocbpy.EABoundary)):
        case = [hemi, blat, cls.__name__]
        rep.state(case)
        obj = gen.ocb('image', [gen.rec(0, 12.0, 2.0, -1.0)], hemi, 0,
                      cls=cls, boundary_lat=blat)
        if obj.boundary_lat != hemi * abs(blat):
            rep.violate(case, 'sign of the reference latitude',
                        obj.boundary_lat, hemi * abs(blat))
        model = ref.Bound(12.0, float(obj.phi_cent[0]), float(obj.r_cent[0]),
                          hemi, abs(blat))
        got = obj.normal_coord(hemi * 70.0, 9.0)
        cmp_norm([float(g) for g in got], model.normal(hemi * 70.0, 9.0),
                 None, rep, case)
        back = obj.revert_coord(*got)
        if not gen.close(float(back[0]), hemi * 70.0, 1e-8):
            rep.violate(case, 'not reverted', back, hemi * 70.0)
        rep.step(3)
        rep.trace(case, got)
        empty = cls(filename=None, hemisphere=hemi, boundary_lat=blat)
        for lat in (70.0, [70.0, -60.0]):
            got = empty.normal_coord(lat, 4.0) + empty.revert_coord(lat, 4.0)
            rep.step(2)
            if not all(np.isnan(g).all() for g in got):
                rep.violate(case, 'result without data', got, 'NaN')
