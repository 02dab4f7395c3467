"""P06: dual-boundary coordinates: three regions, continuous, invertible."""
import itertools

from mc import gen, ref
from mc.gen import np

TECHNIQUE = ('exhaustive exploration of boundary pair x hemisphere x '
             'correction x location (region interiors and both sides of each '
             'edge) x container shape on the real conversion code, lock-step '
             'with a scalar reference model')
ORACLE = ('region-by-region linear map, its inverse and radii, one location '
          'at a time in plain Python')
BOUND = {'quick': '2 hemispheres x 8 correction pairs x 3 reference latitude '
                  'pairs x 6 boundary pairs x 24 local times x 20 latitudes '
                  'including each edge and +-1e-6 beside it; every container '
                  'pair; every region pattern of 4 elements',
         'thorough': '14 correction pairs, 12 boundary pairs, 48 local times, '
                     '44 latitudes; patterns of 5 elements'}
JOB_CPU_LIMIT = 800
NAN = float('nan')
REFL = [(74.0, 64.0), (80.0, 60.5), (70.0, 69.0)]
PAIRS = [('default', 'default'), ('circ', 'default'), ('default', 'circ'),
         ('ell', 'bump'), ('harm', 'default'), ('si12', 'si12'),
         ('array', 'kwarray'), ('bump', 'array'), ('wic', 'wic'),
         ('si13', 'si13'), ('harmg', 'circ'), ('kwarray', 'bump'),
         ('bump', 'si12'), ('ell', 'ell')]
INST = [('image', 'image'), ('ampere', 'image'), ('dmsp-ssj', 'dmsp-ssj'),
        ('ampere', 'ampere'), ('image', 'dmsp-ssj')]


def records(tier):
    # OCB and EAB both contain the magnetic pole and do not cross
    orec = [(14.0, 0.0, 0.0), (13.0, 200.0, 3.0), (16.0, 45.0, 2.0),
            (12.0, 330.0, 1.5), (15.0, 100.0, 4.0), (13.5, 270.0, 2.5)]
    erec = [(26.0, 0.0, 0.0), (30.0, 100.0, 4.0), (28.0, 225.0, 1.0),
            (33.0, 180.0, 6.0), (31.0, 330.0, 2.0), (29.0, 10.0, 3.0)]
    if tier == 'thorough':
        orec += [(11.5, 10.0, 1.0), (17.0, 140.0, 3.0), (14.2, 180.0, 0.5),
                 (12.5, 250.0, 2.0), (16.5, 300.0, 4.0), (15.5, 359.0, 1.0)]
        erec += [(30.0, 190.0, 5.0), (35.0, 20.0, 3.0), (27.0, 60.0, 1.0),
                 (32.0, 250.0, 2.0), (36.0, 120.0, 6.0), (29.5, 315.0, 0.1)]
    return ([gen.rec(120 * i, r, phi=p, rc=c)
             for i, (r, p, c) in enumerate(orec)],
            [gen.rec(120 * i, r, phi=p, rc=c)
             for i, (r, p, c) in enumerate(erec)])


def jobs(tier):
    out = []
    npair = 8 if tier == 'quick' else len(PAIRS)
    for ip in range(npair):
        for il in range(len(REFL)):
            for hemi in (1, -1):
                out.append(('grid', [tier, ip, il, hemi]))
    for hemi in (1, -1):
        for k in range(3):
            out.append(('shapes', [tier, hemi, k]))
            out.append(('patterns', [tier, hemi, k]))
        out.append(('mixes', [tier, hemi]))
        out.append(('cursor', [tier, hemi]))
    return out


def build(tier, ip, il, hemi):
    oinst, einst = INST[(ip + il) % len(INST)]
    orec, erec = records(tier)
    okw, ocorr = gen.corrections(PAIRS[ip][0], oinst, len(orec), 'ocb')
    ekw, ecorr = gen.corrections(PAIRS[ip][1], einst, len(erec), 'eab')
    olat, elat = REFL[il]
    # an additional bad poleward record makes the member and pair indices
    # differ
    orec = [gen.rec(-120, 13.0, 1.0, 2.0, fom=gen.BAD[oinst])] + orec
    if 'rfunc' in okw and hasattr(okw['rfunc'], 'shape'):
        okw['rfunc'] = np.append(okw['rfunc'][:1], okw['rfunc'])
    if 'rfunc_kwargs' in okw and hasattr(okw['rfunc_kwargs'], 'shape'):
        okw['rfunc_kwargs'] = np.append(okw['rfunc_kwargs'][:1],
                                        okw['rfunc_kwargs'])
    obj = gen.dual(oinst, orec, einst, erec, hemi, 60, None, olat, elat, okw,
                   ekw)
    models = []
    for i in range(len(erec)):
        oo, ee = orec[i + 1], erec[i]
        models.append(ref.Dual(
            ref.Bound(oo['r'], oo['phi'], oo['rc'], hemi, olat, ocorr[i]),
            ref.Bound(ee['r'], ee['phi'], ee['rc'], hemi, elat, ecorr[i])))
    assert obj.records == len(erec), 'records not paired'
    return obj, models


def usable(model, mlt):
    o, e = abs(model.ob.edge(mlt)), abs(model.eb.edge(mlt))
    return o == o and e == e and o > e + 0.1 and o < 89.5


def lats(model, mlt, tier):
    """Latitudes of each region and at each side of each edge."""
    o, e = abs(model.ob.edge(mlt)), abs(model.eb.edge(mlt))
    out = [o + (90.0 - o) * f for f in (0.25, 0.5, 0.9)]
    out += [e + (o - e) * f for f in (0.1, 0.5, 0.75, 0.999)]
    out += [e * f for f in (0.02, 0.3, 0.6, 0.9, 0.999)]
    for edge in (o, e):
        out += [edge - 1e-6, edge, edge + 1e-6]
    out += [90.0, 89.9]
    if tier == 'thorough':
        out += [o + (90.0 - o) * f / 9.0 for f in range(1, 9)]
        out += [e + (o - e) * f / 9.0 for f in range(1, 9)]
        out += [e * f / 9.0 for f in range(1, 9)]
    return out


def cmp_one(model, lat, mlt, got, rep, case):
    """Compare the four outputs; on an edge both regions agree."""
    want = model.normal(lat, mlt)
    blat, bmlt, olat, corr = got
    # at an edge the two maps agree when the OCB circle and the planar edge
    # do, otherwise accept either region
    ok = gen.close(olat, want[2], 1e-8)
    ok = ok and (gen.close(corr, want[3], 1e-8) or want[0] != want[0])
    cands = [want[0]]
    if want[5] < 1.0e-9:
        for dlat in (1.0e-9, -1.0e-9):
            cands.append(model.normal(lat + dlat, mlt)[0])
    ok = ok and any(gen.close(blat, c, 1e-6) for c in cands)
    if ok and want[0] == want[0] and abs(want[2]) < 90.0 - 1e-6:
        ok = gen.close_mlt(bmlt, want[1], 1e-7) and 0.0 <= bmlt < 24.0
    if not ok:
        rep.violate(case, 'wrong dual-boundary coordinates', got, want)
    return ok, want


def grid(params, rep):
    tier, ip, il, hemi = params
    obj, models = build(tier, ip, il, hemi)
    nm = 24 if tier == 'quick' else 48
    for irec, model in enumerate(models):
        obj.rec_ind = irec
        glat, gmlt = [], []
        for im in range(nm):
            mlt = 24.0 * im / nm + 0.013
            if not usable(model, mlt):
                continue
            for lat in lats(model, mlt, tier):
                glat.append(hemi * lat)
                gmlt.append(mlt)
        case = [ip, il, hemi, irec]
        rep.state(case)
        if not glat:
            continue
        got = obj.normal_coord(np.array(glat), np.array(gmlt))
        rep.step(len(glat), 'normal_coord')
        bad = 0
        for j in range(len(glat)):
            ok, want = cmp_one(model, glat[j], gmlt[j],
                               [float(g[j]) for g in got], rep,
                               case + [glat[j], gmlt[j]])
            bad += not ok
            rep.trace(case + [glat[j], gmlt[j]], want[:4])
            if bad > 2:
                return
        # Continuity at both edges
        for j in range(len(glat) - 1):
            if gmlt[j] == gmlt[j + 1] and abs(glat[j] - glat[j + 1]) < 2e-6 \
               and abs(got[0][j] - got[0][j + 1]) > 1e-4:
                # is the reference continuous here?
                w1 = model.normal(glat[j], gmlt[j])[0]
                w2 = model.normal(glat[j + 1], gmlt[j + 1])[0]
                if abs(w1 - w2) < 1e-4:
                    rep.violate(case + [glat[j], gmlt[j]], 'not continuous',
                                (got[0][j], got[0][j + 1]), (w1, w2))
        # invert
        back = obj.revert_coord(got[0], got[1], r_corr=got[3], is_ocb=False,
                                aacgm_mlt=np.array(gmlt))
        bocb = obj.revert_coord(got[2], got[1], r_corr=got[3], is_ocb=True)
        scaled, unscaled = obj.calc_r(got[0], got[1], np.array(gmlt), got[3])
        rep.step(3 * len(glat), 'revert_coord')
        for j in range(len(glat)):
            want = model.normal(glat[j], gmlt[j])
            here = case + [glat[j], gmlt[j]]
            if want[0] != want[0]:
                continue
            ok = gen.close(back[0][j], glat[j], 1e-6)
            if ok and abs(glat[j]) < 90.0 - 1e-6:
                ok = gen.close_mlt(back[1][j], gmlt[j], 1e-6)
            if not ok:
                rep.violate(here, 'dual coordinates do not invert',
                            (back[0][j], back[1][j]), (glat[j], gmlt[j]))
                return
            if np.sign(want[2]) == hemi and not gen.close(bocb[0][j], glat[j],
                                                          1e-6):
                rep.violate(here, 'OCB coordinates do not invert',
                            (bocb[0][j], bocb[1][j]), (glat[j], gmlt[j]))
                return
            bo, be = abs(model.ob.blat), abs(model.eb.blat)
            if min(abs(abs(got[0][j]) - bo), abs(abs(got[0][j]) - be)) > 1e-7:
                ws, wu = model.radii(want[0], gmlt[j], want[3])
                if not (gen.close(scaled[j], ws, 1e-7)
                        and gen.close(unscaled[j], wu, 1e-6)):
                    rep.violate(here, 'wrong radii of the region',
                                (scaled[j], unscaled[j]), (ws, wu))
                    return


def pts(model, hemi):
    """Locations of every kind at one local time each."""
    out = []
    for mlt, kind in ((3.0, 'cap'), (9.25, 'mid'), (14.5, 'out'),
                      (20.0, 'nan'), (22.0, 'other'), (6.0, 'cap2'),
                      (18.0, 'mid2')):
        o, e = abs(model.ob.edge(mlt)), abs(model.eb.edge(mlt))
        lat = {'cap': o + 3.0, 'mid': 0.5 * (o + e), 'out': e - 6.0,
               'nan': NAN, 'other': -70.0, 'cap2': 88.0,
               'mid2': e + 0.2 * (o - e)}[kind]
        out.append((hemi * lat, mlt))
    return out


def judge(obj, model, lat, mlt, shape, rep, case):
    rep.state(case)
    alat = gen.full(lat, shape).ravel()
    amlt = gen.full(mlt, shape).ravel()
    got = obj.normal_coord(lat, mlt)
    rep.step(1, 'normal_coord')
    if any(np.shape(g) != shape for g in got[:3]):
        rep.violate(case, 'shape of the result', [np.shape(g) for g in got],
                    shape)
        return
    flat = [gen.full(g, shape).ravel() for g in got]
    wants = []
    for j in range(len(alat)):
        ok, want = cmp_one(model, alat[j], amlt[j], [f[j] for f in flat], rep,
                           case + [j])
        wants.append(want)
        if not ok:
            return
    if all(w[0] != w[0] for w in wants):
        rep.trace(case, wants)
        return
    if any(w[0] == w[0] and np.sign(w[2]) != obj.hemisphere for w in wants):
        return
    back = obj.revert_coord(got[0], got[1], r_corr=got[3], is_ocb=False,
                            aacgm_mlt=mlt)
    rad = obj.calc_r(got[0], got[1], mlt if shape == () else amlt.reshape(
        shape), got[3])
    rep.step(2, 'revert_coord')
    if any(np.shape(g) != shape for g in back) or any(
            np.shape(g) != shape for g in rad):
        rep.violate(case, 'shape of the inverse or radii',
                    [np.shape(g) for g in tuple(back) + tuple(rad)], shape)
        return
    back = [np.asarray(b).ravel() for b in back]
    rad = [np.asarray(b).ravel() for b in rad]
    for j in range(len(alat)):
        if wants[j][0] != wants[j][0]:
            ok = back[0][j] != back[0][j]
        else:
            ws, wu = model.radii(wants[j][0], amlt[j], wants[j][3])
            ok = gen.close(back[0][j], alat[j], 1e-6) and gen.close_mlt(
                back[1][j], amlt[j], 1e-6) and gen.close(
                    rad[0][j], ws, 1e-6) and gen.close(rad[1][j], wu, 1e-6)
        if not ok:
            rep.violate(case + [j], 'inverse or radii',
                        [b[j] for b in back + rad], [alat[j], amlt[j]])
            return
    rep.trace(case, [w[:4] for w in wants])


def shapes(params, rep):
    tier, hemi, part = params
    for ip in ((0, 6) if tier == 'quick' else (0, 3, 5, 6)):
        obj, models = build('quick', ip, ip % 3, hemi)
        for irec in range(part, len(models), 3):
            obj.rec_ind = irec
            model = models[irec]
            pp = pts(model, hemi)
            for ipat, pick in enumerate(((0, 1, 2, 5), (0, 5, 0, 5),
                                         (1, 6, 1, 6), (2, 2, 2, 2),
                                         (3, 4, 1, 0), (3, 4, 3, 4))):
                plat = [pp[i][0] for i in pick]
                pmlt = [pp[i][1] for i in pick]
                if ipat == 1:
                    plat = [hemi * 85.0, hemi * 60.0, hemi * 89.0,
                            hemi * 12.0]
                    pmlt = [0.0, 6.0, 12.0, 18.0]
                for (n1, a), (n2, b) in itertools.product(
                        gen.containers(plat), gen.containers(pmlt)):
                    judge(obj, model, a, b, (4,), rep,
                          [hemi, ip, irec, ipat, n1, n2])
                for shape in ((2, 2), (1, 4), (4, 1), (1, 2, 2), (1, 1, 4)):
                    judge(obj, model, np.reshape(plat, shape),
                          np.reshape(pmlt, shape), shape, rep,
                          [hemi, ip, irec, ipat, shape])
                    judge(obj, model, np.reshape(plat, shape), pmlt[0], shape,
                          rep, [hemi, ip, irec, ipat, shape, 'mlt'])
                    judge(obj, model, plat[0], np.reshape(pmlt, shape), shape,
                          rep, [hemi, ip, irec, ipat, shape, 'lat'])
                for j in range(4):
                    for (n1, a), (n2, b) in itertools.product(
                            gen.scalars(plat[j]), gen.scalars(pmlt[j])):
                        judge(obj, model, a, b, (), rep,
                              [hemi, ip, irec, ipat, j, n1, n2])
                    judge(obj, model, [plat[j]], [pmlt[j]], (1,), rep,
                          [hemi, ip, irec, ipat, j, 'one'])
                    for n2, b in gen.containers(pmlt):
                        judge(obj, model, plat[j], b, (4,), rep,
                              [hemi, ip, irec, ipat, j, 'lat', n2])
                    for n1, a in gen.containers(plat):
                        judge(obj, model, a, pmlt[j], (4,), rep,
                              [hemi, ip, irec, ipat, j, 'mlt', n1])


def mixes(params, rep):
    """Radii for every scalar or array mix of the four inputs."""
    tier, hemi = params
    for ip, shape in itertools.product((0, 6, 3), ((3,), (2, 2), (1,))):
        obj, models = build('quick', ip, ip % 3, hemi)
        num = int(np.prod(shape))
        for irec in range(len(models)):
            obj.rec_ind = irec
            model = models[irec]
            bo, be = abs(model.ob.blat), abs(model.eb.blat)
            full = [[bo + 2.0, 0.5 * (bo + be), be - 7.0, bo + 5.0][:num],
                    [2.0, 7.0, 15.0, 21.0][:num], [1.0, 9.0, 14.0, 20.0][:num],
                    [0.0, 0.5, -0.25, 1.0][:num]]
            full[0] = [hemi * v for v in full[0]]
            for mask in itertools.product((False, True), repeat=4):
                for first in range(num):
                    args = [np.reshape(v, shape) if m else v[first]
                            for m, v in zip(mask, full)]
                    flat = [np.ravel(gen.full(a, shape)) for a in args]
                    want = [model.radii(flat[0][j], flat[2][j], flat[3][j])
                            for j in range(num)]
                    wshape = shape if any(mask) else ()
                    case = [hemi, ip, irec, shape, mask, first]
                    rep.state(case)
                    got = obj.calc_r(*args)
                    rep.step(1, 'calc_r')
                    if any(np.shape(g) != wshape for g in got):
                        rep.violate(case, 'shape of the radii',
                                    [np.shape(g) for g in got], wshape)
                        continue
                    got = [np.ravel(g) for g in got]
                    for j in range(len(got[0])):
                        if not (gen.close(got[0][j], want[j][0], 1e-7) and
                                gen.close(got[1][j], want[j][1], 1e-6)):
                            rep.violate(case + [j], 'wrong radii of the '
                                        'region', [g[j] for g in got], want[j])
                            break
                    rep.trace(case, want)


def patterns(params, rep):
    """Every pattern of regions, undefined and other-hemisphere elements."""
    tier, hemi, part = params
    num = 4 if tier == 'quick' else 5
    for ip in (0, 6, 3)[part:part + 1]:
        obj, models = build('quick', ip, (ip + 1) % 3, hemi)
        irec = 3
        obj.rec_ind = irec
        pp = pts(models[irec], hemi)[:5]
        for length in range(1, num + 1):
            for pat in itertools.product(range(5), repeat=length):
                judge(obj, models[irec], np.array([pp[p][0] for p in pat]),
                      np.array([pp[p][1] for p in pat]), (length,), rep,
                      [hemi, ip, irec, pat])
        idx = [(3 * i * i + i) % 5 for i in range(1500)]
        judge(obj, models[irec], np.array([pp[p][0] for p in idx]),
              np.array([pp[p][1] for p in idx]), (1500,), rep,
              [hemi, ip, irec, 'long'])


def cursor(params, rep):
    """Every ordered pair of cursors; undefined without a record."""
    tier, hemi = params
    for ip in (0, 6):
        obj, models = build('quick', ip, 0, hemi)
        num = obj.records
        cursors = [-3, -1, 0, 1, 2, 3, 4, 5, num, num + 1, num + 5]
        for first, second in itertools.product(cursors, cursors):
            for lat, mlt, shape in ((hemi * 80.0, 5.0, ()),
                                    ([hemi * 85.0, hemi * 66.0, hemi * 20.0],
                                     [5.0, 17.0, 1.0], (3,)),
                                    (hemi * 68.0, [5.0, 17.0, 20.0], (3,))):
                case = [hemi, ip, first, second, shape]
                rep.state(case)
                obj.rec_ind = first
                obj.normal_coord(lat, mlt)
                obj.rec_ind = second
                if 0 <= second < num:
                    judge(obj, models[second], lat, mlt, shape, rep, case)
                    continue
                got = obj.normal_coord(lat, mlt)
                back = obj.revert_coord(lat, mlt)
                back2 = obj.revert_coord(lat, mlt, is_ocb=False,
                                         aacgm_mlt=mlt)
                rep.step(3)
                rep.trace(case, 'nan')
                for res in (got, back, back2):
                    if any(np.shape(g) != shape for g in res) or not all(
                            np.isnan(g).all() for g in res):
                        rep.violate(case, 'defined without a record', res,
                                    'NaN')
        # scalar inversion of non-polar-cap locations needs the local time
        obj.rec_ind = 0
        try:
            obj.revert_coord(hemi * 66.0, 5.0, is_ocb=False)
            rep.violate([hemi, ip], 'reverted without the local time')
        except ValueError:
            rep.trace([hemi, ip], 'rejected')
