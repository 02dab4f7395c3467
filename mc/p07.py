"""P07: boundary locations lie on the boundary; stored locations change only
on request."""
import copy
import itertools

from mc import gen, ref
from mc.core import canon
from mc.gen import np
import aacgmv2

TECHNIQUE = ('exhaustive boundary geometry x local time grid, and '
             'breadth-first explicit-state exploration of every sequence of '
             'boundary calculations and conversions over the stored locations '
             'of the real objects, each transition checked against the model '
             'of what may change')
ORACLE = ('positive intersection of the local-time ray with the corrected '
          'circle; a stored location changes only first time or on overwrite')
BOUND = {'quick': 'geometry: 2 hemispheres x 2 classes x 11 corrections x 33 '
                  'circles (with and without the pole inside) x 97 local '
                  'times; sequences: every sequence of 3 out of 44 (single) '
                  'and 2 out of 42 (dual) operations, deduplicated by state',
         'thorough': 'geometry with 129 circles and 577 local times; '
                     'sequences of 4 (single) and 3 (dual) operations'}
JOB_CPU_LIMIT = 840
NAN = float('nan')


def jobs(tier):
    out = []
    for cls, name in itertools.product(('ocb', 'eab'), gen.CORRS):
        out.append(('geometry', [tier, cls, name]))
    nops = len(single_ops())
    for inst, name in (('image', 'bump'), ('ampere', 'default')):
        for hemi in (1, -1):
            for first in range(0, nops, 6):
                out.append(('single', [inst, name, hemi,
                                       3 if tier == 'quick' else 4, first]))
    nops = len(dual_ops(1))
    for hemi in (1, -1):
        for ip in range(2):
            for first in range(0, nops, 5):
                out.append(('dual', [hemi, ip, 2 if tier == 'quick' else 3,
                                     first]))
    return out


def circles(tier):
    out = []
    rads = (1.5, 9.0, 14.0, 22.0) if tier == 'quick' else (
        1.0, 3.0, 8.0, 12.0, 16.0, 19.0, 25.0, 32.0)
    cents = (0.0, 3.0, 10.0)
    phis = (0.0, 60.0, 190.0, 359.0)
    if tier == 'thorough':
        phis += (90.0, 270.0, 135.0, 30.0)
    for r, rc in itertools.product(rads, cents):
        for phi in (phis if rc > 0 else (0.0,)):
            out.append(gen.rec(60 * len(out), r, phi=phi, rc=rc))
    return out


def on_edge(model, mlt, lat):
    """Is this the right boundary latitude (or right to be undefined)?"""
    want = model.edge(mlt)
    if gen.close(lat, want, 1e-7):
        return True
    # tangent: rounding decides whether there is an intersection
    dm = ref.ang(mlt) - np.radians(model.phi)
    sr = model.r + model.corr(mlt)
    disc = sr * sr - (model.rc * np.sin(dm))**2
    rad = model.rc * np.cos(dm) + np.sqrt(max(disc, 0.0))
    if abs(disc) < 1e-9 or abs(rad) < 1e-7:
        return lat != lat or gen.close(lat, model.hemi * (90.0 - rad), 1e-4)
    return False


def geometry(params, rep):
    tier, cls, name = params
    num = 96 if tier == 'quick' else 576
    mlts = np.array([24.0 * i / num for i in range(num)] + [24.0])
    for inst, hemi in itertools.product(gen.LIMITS, (1, -1)):
        if (tier == 'quick' and name != 'default' and
                (gen.CORRS.index(name) + hemi) % 3 !=
                list(gen.LIMITS).index(inst)):
            continue
        recs = circles(tier)
        kw, corr = gen.corrections(name, inst, len(recs), cls)
        obj = gen.ocb(inst, recs, hemi, cls=gen.ocbpy.EABoundary
                      if cls == 'eab' else None, **kw)
        obj.get_aacgm_boundary_lat(mlts)
        for i, rr in enumerate(recs):
            case = [cls, name, inst, hemi, i]
            rep.state(case)
            rep.step(len(mlts), 'boundary')
            model = ref.Bound(rr['r'], rr['phi'], rr['rc'], hemi, 74.0,
                              corr[i])
            lats = obj.aacgm_boundary_lat[i]
            if np.shape(lats) != mlts.shape:
                rep.violate(case, 'shape', np.shape(lats), mlts.shape)
                continue
            for j, mlt in enumerate(mlts):
                ok = on_edge(model, mlt, lats[j])
                if ok and lats[j] == lats[j]:
                    # independent of the model's root: the distance
                    rad = 90.0 - hemi * lats[j]
                    x = rad * np.cos(ref.ang(mlt)) - model.xc
                    y = rad * np.sin(ref.ang(mlt)) - model.yc
                    ok = abs(np.hypot(x, y) - abs(model.r + model.corr(
                        mlt))) < 1e-6
                if not ok:
                    rep.violate(case + [mlt], 'not on the boundary', lats[j],
                                model.edge(mlt))
                    break
                if not gen.close_mlt(obj.aacgm_boundary_mlt[i][j], mlt, 1e-9):
                    rep.violate(case + [mlt], 'stored local time',
                                obj.aacgm_boundary_mlt[i][j], mlt)
                    break
            rep.trace(case, lats)
            # the mask of a scalar request is the same
            for j in range(0, len(mlts), 11):
                one = gen.ocbpy.OCBoundary.get_aacgm_boundary_lat
                one(obj, float(mlts[j]), rec_ind=i, overwrite=True,
                    set_lon=False)
                rep.step(1, 'boundary')
                if not (np.shape(obj.aacgm_boundary_lat[i]) == ()
                        and gen.close(float(obj.aacgm_boundary_lat[i]),
                                      float(lats[j]), 1e-9)):
                    rep.violate(case + [mlts[j], 'scalar'],
                                'scalar differs from array',
                                obj.aacgm_boundary_lat[i], lats[j])
                    break


# --------------------------------------------------------------------------
SETS = {'A': [1.0, 13.5, 22.0], 'B': [4.0, 30.0], 's': 9.0, 'i': 27,
        'n': [-2.0, 5, 40.0, 11.0]}


def single_ops():
    out = []
    for key, over, lon in itertools.product('ABs', (False, True),
                                            (True, False)):
        for rind in ((None, 1, (0, 2)) if key != 's' else (None, 0)):
            out.append(('get', key, rind, over, lon))
    out += [('get', 'i', 2, True, True), ('get', 'n', None, False, True),
            ('get', 'n', (1,), True, True), ('normal', 75.0, 3.0),
            ('normal', (75.0, 60.0), (3.0, 9.0)), ('revert', 75.0, 3.0),
            ('next',), ('cursor', -1), ('cursor', 2), ('repr',), ('str',),
            ('vector',)]
    return out


def snap(obj):
    """Stored locations of every record."""
    out = []
    for i in range(obj.records):
        item = []
        for key in ('lat', 'mlt', 'lon'):
            val = getattr(obj, 'aacgm_boundary_' + key, None)
            if val is not None and len(val) != obj.records:
                item.append('length %d' % len(val))
                continue
            val = None if val is None else val[i]
            item.append(None if val is None else np.array(val, dtype=float))
        out.append(item)
    return out


def same(one, two):
    return canon(one) == canon(two)


def consistent(item, model, dtime, lon):
    """A stored location belongs to the boundary (lon: True must be there,
    False must not, None either)."""
    lat, mlt, slon = item
    if lat is None and mlt is None and slon is None:
        return True
    if lat is None or mlt is None or isinstance(lat, str):
        return False
    if np.shape(lat) != np.shape(mlt):
        return False
    for a, m in zip(np.ravel(lat), np.ravel(mlt)):
        if not (0.0 <= m < 24.0 and on_edge(model, float(m), float(a))):
            return False
    if slon is None:
        return lon is not True
    if lon is False or np.size(slon) != np.size(mlt):
        return False
    want = np.ravel(aacgmv2.convert_mlt(np.ravel(mlt), dtime, m2a=True))
    return all(gen.close_mlt(g, w, 1e-6, 360.0) for g, w in
               zip(np.ravel(slon), want))


def has_input(item, key):
    want = [v % 24.0 for v in np.ravel(SETS[key])]
    return (item[1] is not None and np.shape(item[1]) == np.shape(SETS[key])
            and all(gen.close_mlt(g, w, 1e-9) for g, w in
                    zip(np.ravel(item[1]), want)))


def run_single(obj, op, hemi):
    if op[0] == 'get':
        rind = list(op[2]) if isinstance(op[2], tuple) else op[2]
        obj.get_aacgm_boundary_lat(SETS[op[1]], rec_ind=rind,
                                   overwrite=op[3], set_lon=op[4])
    elif op[0] == 'normal':
        obj.normal_coord(hemi * np.asarray(op[1]), np.asarray(op[2]))
    elif op[0] == 'revert':
        obj.revert_coord(hemi * op[1], op[2])
    elif op[0] == 'next':
        obj.get_next_good_ocb_ind()
    elif op[0] == 'cursor':
        obj.rec_ind = op[1]
    elif op[0] == 'repr':
        repr(obj)
    elif op[0] == 'str':
        str(obj)
    elif op[0] == 'vector':
        vect = gen.ocbpy.ocb_scaling.VectorData(
            0, 1, hemi * 76.0, 4.0, vect_n=30.0, vect_e=10.0, vect_z=3.0)
        vect.set_ocb(obj)


def judge(op, before, after, models, dtimes, target, rep, case):
    """target: record indices whose location the operation computes."""
    for i, item in enumerate(after):
        stored = before[i][0] is not None
        if op[0] == 'get' and i in target and (not stored or op[3]):
            good = (has_input(item, op[1]) and consistent(
                item, models[i], dtimes[i], op[4]))
            text = 'computed location is wrong'
        elif op[0] != 'get' and i in target and (not stored or op[-1]):
            # a conversion may store, or not, what it computed
            good = consistent(item, models[i], dtimes[i], None)
            text = 'location stored by a conversion is wrong'
        else:
            good = same(item, before[i])
            text = 'stored location of another record or without request ' \
                'changed'
        if not good:
            rep.violate(case + [i], text, item, before[i])
            return False
    return True


def single(params, rep):
    inst, name, hemi, depth, first = params
    ops = single_ops()
    recs = [gen.rec(0, 14.0, phi=30.0, rc=3.0),
            gen.rec(60, 12.0, phi=200.0, rc=5.0),
            gen.rec(120, 4.0, phi=100.0, rc=9.0)]
    kw, corr = gen.corrections(name, inst, 3)
    start = gen.ocb(inst, recs, hemi, 1, **kw)
    models = [ref.Bound(rr['r'], rr['phi'], rr['rc'], hemi, 74.0, c)
              for rr, c in zip(recs, corr)]
    front = [(start, [])]
    seen = set()
    for level in range(depth):
        new = []
        for obj, hist in front:
            todo = ops if level else ops[first:first + 6]
            before = snap(obj)
            for op in todo:
                nxt = copy.deepcopy(obj)
                case = [inst, name, hemi, hist + [op]]
                run_single(nxt, op, hemi)
                rep.step(1, op[0])
                after = snap(nxt)
                rind = op[2] if op[0] == 'get' else None
                target = [] if op[0] != 'get' else (
                    range(3) if rind is None else np.atleast_1d(rind))
                if op[0] == 'get' and nxt.rec_ind != obj.rec_ind:
                    rep.violate(case, 'cursor moved', nxt.rec_ind,
                                obj.rec_ind)
                judge(op, before, after, models, nxt.dtime, target, rep, case)
                rep.trace(case, after)
                state = canon([int(nxt.rec_ind), after, [hasattr(
                    nxt, 'aacgm_boundary_' + k) for k in ('lat', 'lon')]])
                rep.state(state)
                if state not in seen:
                    seen.add(state)
                    new.append((nxt, hist + [op]))
        front = new


def dual_ops(hemi):
    out = []
    for key, over, lon in itertools.product('As', (False, True),
                                            (True, False)):
        for rind in (None, 1):
            out.append(('get', key, rind, over, lon))
    for key, who in itertools.product('A', ('ocb', 'eab')):
        out += [('getm', key, who, None, False), ('getm', key, who, 1, True)]
    for over in (False, True):
        out += [('normal', 85.0, 3.0, over), ('normal', 66.0, 3.0, over),
                ('normal', (85.0, 68.0, 20.0), (3.0, 4.0, 5.0), over),
                ('revert', 85.0, 3.0, over), ('revert', 66.0, 3.0, over),
                ('revert', (80.0, 70.0, 20.0), (3.0, 4.0, 5.0), over),
                ('calc', 70.0, 3.0, over),
                ('calc', (80.0, 70.0, 20.0), (3.0, 4.0, 5.0), over)]
    out += [('cursor', 0), ('cursor', 2), ('next',), ('vector',),
            ('sel', 1.0), ('sel', None)]
    return out


def run_dual(obj, op, hemi):
    if op[0] == 'get':
        obj.get_aacgm_boundary_lats(SETS[op[1]], rec_ind=op[2],
                                    overwrite=op[3], set_lon=op[4])
    elif op[0] == 'getm':
        getattr(obj, op[2]).get_aacgm_boundary_lat(
            SETS[op[1]], rec_ind=op[3], overwrite=op[4])
    elif op[0] == 'normal':
        obj.normal_coord(hemi * np.asarray(op[1]), np.asarray(op[2]),
                         overwrite=op[3])
    elif op[0] == 'revert':
        obj.revert_coord(hemi * np.asarray(op[1]), np.asarray(op[2]),
                         is_ocb=False, aacgm_mlt=np.asarray(op[2]),
                         overwrite=op[3])
    elif op[0] == 'calc':
        obj.calc_r(hemi * np.asarray(op[1]), np.asarray(op[2]),
                   np.asarray(op[2]), 0.0 * np.asarray(op[2]),
                   overwrite=op[3])
    elif op[0] == 'cursor':
        obj.rec_ind = op[1]
    elif op[0] == 'next':
        obj.get_next_good_ind()
    elif op[0] == 'sel':
        obj.set_good_ind(ocb_max_merit=op[1])
    elif op[0] == 'vector':
        vect = gen.ocbpy.ocb_scaling.VectorData(
            0, 1, hemi * 76.0, 4.0, vect_n=30.0, vect_e=10.0, vect_z=3.0)
        vect.set_ocb(obj, scale_func=gen.ocbpy.ocb_scaling.normal_evar)


def dual(params, rep):
    hemi, ip, depth, first = params
    ops = dual_ops(hemi)
    orec = [gen.rec(-60, 13.0, phi=10.0, rc=1.0, fom=9.0),
            gen.rec(0, 14.0, phi=30.0, rc=3.0, fom=2.0),
            gen.rec(60, 12.0, phi=200.0, rc=4.0, fom=0.5),
            gen.rec(120, 15.0, phi=100.0, rc=2.0, fom=0.5)]
    erec = [gen.rec(0, 26.0, phi=50.0, rc=3.0),
            gen.rec(60, 29.0, phi=250.0, rc=4.0),
            gen.rec(120, 31.0, phi=170.0, rc=2.0)]
    names = [('default', 'default'), ('bump', 'circ')][ip]
    okw, ocorr = gen.corrections(names[0], 'image', 4)
    ekw, ecorr = gen.corrections(names[1], 'image', 3, 'eab')
    start = gen.dual('image', orec, 'image', erec, hemi, 60, 1, okw=okw,
                     ekw=ekw)
    om = [ref.Bound(rr['r'], rr['phi'], rr['rc'], hemi, 74.0, c)
          for rr, c in zip(orec, ocorr)]
    em = [ref.Bound(rr['r'], rr['phi'], rr['rc'], hemi, 64.0, c)
          for rr, c in zip(erec, ecorr)]
    front = [(start, [])]
    seen = set()
    for level in range(depth + 1):
        new = []
        for obj, hist in front:
            todo = ops if level else ops[first:first + 5]
            before = (snap(obj.ocb), snap(obj.eab))
            for op in todo:
                nxt = copy.deepcopy(obj)
                case = [hemi, names, hist + [op]]
                run_dual(nxt, op, hemi)
                rep.step(1, op[0])
                after = (snap(nxt.ocb), snap(nxt.eab))
                otar, etar, jop = [], [], op
                if op[0] == 'get':
                    otar = range(4) if op[2] is None else [obj.ocb_ind[op[2]]]
                    etar = range(3) if op[2] is None else [obj.eab_ind[op[2]]]
                elif op[0] == 'getm':
                    jop = ('get', op[1], None, op[4], True)
                    if op[2] == 'ocb':
                        otar = range(4) if op[3] is None else [op[3]]
                    else:
                        etar = range(3) if op[3] is None else [op[3]]
                elif op[0] in ('normal', 'revert', 'calc'):
                    if 0 <= obj.rec_ind < obj.records:
                        otar = [obj.ocb_ind[obj.rec_ind]]
                        etar = [obj.eab_ind[obj.rec_ind]]
                elif op[0] == 'vector' and obj.records > 1:
                    jop = op + (False,)
                    otar, etar = [obj.ocb_ind[1]], [obj.eab_ind[1]]
                judge(jop, before[0], after[0], om, obj.ocb.dtime,
                      [int(i) for i in otar], rep, case + ['ocb'])
                judge(jop, before[1], after[1], em, obj.eab.dtime,
                      [int(i) for i in etar], rep, case + ['eab'])
                rep.trace(case, after)
                state = canon([int(nxt.rec_ind), nxt.ocb_ind, after])
                rep.state(state)
                if state not in seen and level + 1 < depth + 1:
                    seen.add(state)
                    new.append((nxt, hist + [op]))
        front = new
