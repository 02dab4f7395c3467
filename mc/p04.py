"""P04: the dual cursor moves both boundaries; results depend only on it."""
import copy
import datetime as dt

from mc import gen, ref
from mc.core import canon
from mc.gen import np

TECHNIQUE = ('breadth-first explicit-state exploration of every sequence of '
             'public operations on the real boundary objects up to a depth, '
             'deduplicated on the complete object state; in every reached '
             'state the cursors are compared with a cursor model and a battery '
             'of conversions with the results of a fresh object at the same '
             'record and with the reference model')
ORACLE = ('cursor model (pair list + position) and reference coordinate model '
          'of the record the model says is current; fresh-object results for '
          'vectors and reversions')
BOUND = {'quick': 'dual: 2 hemispheres x 2 boundary-shape sets, 40 operations, '
                  'every sequence of 3; single (OCB and EAB): 2 hemispheres '
                  'x 2 shapes, 26 operations, every sequence of 3',
         'thorough': 'sequences of 4'}
JOB_CPU_LIMIT = 840
DAT = [-3600, -50, 10, 65, 130, 3600]


def jobs(tier):
    deep = 3 if tier == 'quick' else 4
    out = []
    for hemi in (1, -1):
        for shape in range(2):
            for first in range(0, len(dual_ops()), 4 if deep == 3 else 2):
                out.append(('dual', [hemi, shape, deep, first,
                                     4 if deep == 3 else 2]))
            for cls in ('ocb', 'eab'):
                for first in range(0, len(single_ops()), 7):
                    out.append(('single', [hemi, shape, cls, deep, first, 7]))
    return out


PTS = [(84.0, 3.0), (71.0, 14.0), (66.0, 3.0), (30.0, 9.5), (-70.0, 1.0)]


def parts(shape, cls='ocb', num=4):
    name = ('default', 'kwarray')[shape]
    return gen.corrections(name, 'image', num, cls)


OREC = [gen.rec(-60, 13.0, phi=10.0, rc=1.0, fom=9.0),
        gen.rec(0, 14.0, phi=30.0, rc=3.0, fom=2.0),
        gen.rec(60, 12.0, phi=200.0, rc=4.0, fom=0.5),
        gen.rec(120, 15.0, phi=100.0, rc=2.0, fom=4.0)]
EREC = [gen.rec(2, 26.0, phi=50.0, rc=3.0, fom=1.0),
        gen.rec(60, 29.0, phi=250.0, rc=4.0, fom=3.0),
        gen.rec(90, 25.0, phi=100.0, rc=4.0, fom=8.0),
        gen.rec(120, 31.0, phi=170.0, rc=2.0, fom=1.0)]
LATE = [gen.rec(900 + 60 * k, 26.0, phi=80.0, rc=2.0, fom=1.0)
        for k in range(3)]
# (arguments of the selection, pairs it must give)
SELS = [({}, [(1, 0), (2, 1), (3, 3)]),
        ({'ocb_max_merit': 1.0}, [(2, 1)]),
        ({'eab_max_merit': 2.0}, [(1, 0), (3, 3)]),
        ({'ocb_kwargs': {'r': ('max', 14.5)}, 'eab_kwargs': {
            'r': ('min', 25.5)}}, [(1, 0), (2, 1)]),
        ({'ocb_max_merit': 20.0, 'eab_max_merit': 20.0},
         [(1, 0), (2, 1), (3, 3)]),
        ({'ocb_min_merit': 100.0}, [])]


def dual_ops():
    out = [('next',)]
    out += [('cursor', k) for k in (-1, 0, 1, 2, 'records', 'past')]
    out += [('sel', k) for k in range(len(SELS))]
    out += [('match', k) for k in (0, 2, 3, 4, 5)]
    out += [('matchsel', 3)]
    for over in (False, True):
        out += [('normal', over), ('normalone', over), ('revert', over),
                ('calc', over)]
    out += [('revertocb',), ('lats', None), ('lats', 0), ('lats', 'one'),
            ('vector', 0), ('vector', 'last'), ('vectors',), ('member',),
            ('memberlat',), ('retrieve',), ('repr',), ('str',), ('geo',)]
    return out


class Model(object):
    """Pairs and cursor."""

    def __init__(self, pairs, pos=0):
        self.pairs, self.pos = pairs, pos

    def copy(self):
        return Model(self.pairs, self.pos)

    def get(self):
        if 0 <= self.pos < len(self.pairs):
            return self.pairs[self.pos]
        return None


def apply_dual(obj, op, hemi, mod):
    """Run on the object and move the model."""
    lat = hemi * np.array([p[0] for p in PTS])
    mlt = np.array([p[1] for p in PTS])
    num = len(mod.pairs)
    if op[0] == 'next':
        obj.get_next_good_ind()
        if mod.pos < num:
            mod.pos += 1
    elif op[0] == 'cursor':
        val = {'records': num, 'past': num + 2}.get(op[1], op[1])
        obj.rec_ind = val
        mod.pos = val
    elif op[0] == 'sel':
        obj.set_good_ind(**copy.deepcopy(SELS[op[1]][0]))
        mod.pairs, mod.pos = SELS[op[1]][1], 0
    elif op[0] in ('match', 'matchsel'):
        times = [gen.T0 + dt.timedelta(seconds=s) for s in DAT]
        kw = {} if op[0] == 'match' else {'max_merit': 2.0}
        if kw and mod.pos < num:
            # both members are selected again with the same limit
            mod.pairs, mod.pos = [(1, 0)], 0
        idat = gen.ocbpy.match_data_ocb(obj, times, idat=op[1], max_tol=60,
                                        **kw)
        # The cursor position is P02's concern, the members' is ours
        mod.pos = int(obj.rec_ind)
        return idat
    elif op[0] == 'normal':
        obj.normal_coord(lat, mlt, overwrite=op[1])
    elif op[0] == 'normalone':
        obj.normal_coord(lat[1], mlt[1], overwrite=op[1])
    elif op[0] == 'geo':
        obj.normal_coord(lat[:4], mlt[:4], coords='geodetic', height=300.0)
    elif op[0] == 'revert':
        obj.revert_coord(hemi * np.array([80.0, 70.0, 20.0]),
                         np.array([3.0, 4.0, 5.0]), is_ocb=False,
                         aacgm_mlt=np.array([3.0, 4.0, 5.0]),
                         overwrite=op[1])
    elif op[0] == 'revertocb':
        obj.revert_coord(lat, mlt, 0.5)
    elif op[0] == 'calc':
        obj.calc_r(hemi * np.array([80.0, 70.0, 20.0]),
                   np.array([3.0, 4.0, 5.0]), np.array([3.0, 4.0, 5.0]),
                   np.zeros(3), overwrite=op[1])
    elif op[0] == 'lats':
        if op[1] is None or num > 0:
            obj.get_aacgm_boundary_lats(
                np.array([0.5, 13.0]) if op[1] != 'one' else 4.5,
                rec_ind=None if op[1] is None else (
                    num - 1 if op[1] == 'one' else op[1]),
                overwrite=op[1] is None)
    elif op[0] == 'vector':
        if num > 0:
            ind = num - 1 if op[1] == 'last' else op[1]
            vec = gen.ocbpy.ocb_scaling.VectorData(
                0, ind, hemi * 76.0, 4.0, vect_n=30.0, vect_e=10.0)
            vec.set_ocb(obj)
            mod.pos = int(obj.rec_ind)
    elif op[0] == 'vectors':
        if num > 0:
            vec = gen.ocbpy.ocb_scaling.VectorData(
                np.arange(3), 0, hemi * np.array([76.0, 84.0, 60.0]),
                np.array([4.0, 9.0, 20.0]), vect_n=np.array([1., 2., 3.]),
                vect_e=np.array([3.0, -4.0, 5.0]))
            vec.set_ocb(obj, scale_func=gen.ocbpy.ocb_scaling.normal_evar)
            mod.pos = int(obj.rec_ind)
    elif op[0] == 'member':
        obj.ocb.normal_coord(lat, mlt)
        obj.eab.normal_coord(lat, mlt)
        obj.ocb.revert_coord(lat, mlt, 0.0)
    elif op[0] == 'memberlat':
        obj.ocb.get_aacgm_boundary_lat(np.array([3.0, 7.0]))
        obj.eab.get_aacgm_boundary_lat(np.array([3.0, 7.0]),
                                       overwrite=True)
    elif op[0] == 'retrieve':
        gen.ocbpy.cycle_boundary.retrieve_all_good_indices(obj.ocb)
        gen.ocbpy.cycle_boundary.retrieve_all_good_indices(
            obj.eab, max_merit=2.0)
    elif op[0] == 'repr':
        repr(obj)
    elif op[0] == 'str':
        str(obj)


def snap_one(obj):
    out = [int(obj.rec_ind)]
    for key in ('lat', 'mlt', 'lon'):
        val = getattr(obj, 'aacgm_boundary_' + key, None)
        out.append(None if val is None else [
            None if v is None else np.array(v, dtype=float) for v in val])
    for key in ('r', 'phi_cent', 'r_cent', 'fom'):
        out.append(getattr(obj, key))
    out += [float(obj.boundary_lat), obj.hemisphere]
    return out


def snap_dual(obj):
    return [int(obj.rec_ind), int(obj.records), obj.ocb_ind, obj.eab_ind,
            list(obj.dtime), snap_one(obj.ocb), snap_one(obj.eab)]


def probe_dual(obj, hemi):
    """The answers a user gets in this state."""
    obj = copy.deepcopy(obj)
    lat = hemi * np.array([p[0] for p in PTS])
    mlt = np.array([p[1] for p in PTS])
    out = {}
    out['normal'] = [np.array(v) for v in obj.normal_coord(lat, mlt)]
    out['one'] = [[float(v) for v in obj.normal_coord(a, m)]
                  for a, m in zip(lat, mlt)]
    out['revert'] = obj.revert_coord(
        hemi * np.array([80.0, 70.0, 20.0]), np.array([3.0, 4.0, 5.0]),
        is_ocb=False, aacgm_mlt=np.array([3.0, 4.0, 5.0]))
    out['calc'] = obj.calc_r(
        hemi * np.array([80.0, 70.0, 20.0]), np.array([3.0, 4.0, 5.0]),
        np.array([3.0, 4.0, 5.0]), np.zeros(3))
    for key in ('ocb', 'eab'):
        memb = getattr(obj, key)
        out[key] = [memb.normal_coord(lat, mlt),
                    memb.revert_coord(lat, mlt, 0.25)]
    out['cursor'] = [int(obj.rec_ind), int(obj.ocb.rec_ind),
                     int(obj.eab.rec_ind)]
    if 0 <= obj.rec_ind < obj.records:
        vec = gen.ocbpy.ocb_scaling.VectorData(
            np.arange(3), int(obj.rec_ind), hemi * np.array([76., 84., 60.]),
            np.array([4.0, 9.0, 20.0]), vect_n=np.array([1.0, 2.0, 3.0]),
            vect_e=np.array([3.0, -4.0, 5.0]))
        vec.set_ocb(obj, scale_func=gen.ocbpy.ocb_scaling.normal_evar)
        out['vec'] = [vec.ocb_n, vec.ocb_e, vec.ocb_lat, vec.ocb_mlt]
    return out


def check_cursor(obj, mod, rep, case):
    got = [int(obj.rec_ind), int(obj.records), int(obj.ocb.rec_ind),
           int(obj.eab.rec_ind)]
    pair = mod.get()
    if pair is not None:
        good = got == [mod.pos, len(mod.pairs), pair[0], pair[1]]
    else:
        good = got[:2] == [mod.pos, len(mod.pairs)] and not (
            0 <= got[2] < obj.ocb.records) and not (
                0 <= got[3] < obj.eab.records)
        if mod.pos < 0:
            good = good and got[2] < 0 and got[3] < 0
    if good:
        good = [(int(o), int(e)) for o, e in zip(obj.ocb_ind, obj.eab_ind)
                ] == list(mod.pairs) and len(obj.dtime) == len(mod.pairs)
    if not good:
        rep.violate(case, 'cursors or pairs differ from the model', got +
                    [obj.ocb_ind, obj.eab_ind], [mod.pos, mod.pairs])
    return good


def dual_start(hemi, shape):
    # One of the boundaries has later records without a partner, so that the
    # members run off their ends at different positions
    orec = OREC + [] if shape == 0 else OREC + LATE
    erec = EREC + LATE if shape == 0 else EREC + []
    okw, ocorr = parts(shape, num=len(orec))
    ekw, ecorr = parts(0, 'eab', num=len(erec))
    obj = gen.dual('image', orec, 'image', erec, hemi, 40, okw=okw, ekw=ekw)
    om = [ref.Bound(rr['r'], rr['phi'], rr['rc'], hemi, 74.0, c)
          for rr, c in zip(orec, ocorr)]
    em = [ref.Bound(rr['r'], rr['phi'], rr['rc'], hemi, 64.0, c)
          for rr, c in zip(erec, ecorr)]
    return obj, om, em


def expected(start, pair, om, em, hemi, rep, cache):
    """Answers of a fresh object at this pair, checked with the model."""
    if pair in cache:
        return cache[pair]
    fresh = copy.deepcopy(start)
    if pair is None:
        fresh.rec_ind = -1
    else:
        fresh.rec_ind = SELS[0][1].index(pair)
    got = probe_dual(fresh, hemi)
    # against the reference
    for i, (a, m) in enumerate(PTS):
        if pair is None:
            want = [ref.NAN] * 4
        else:
            model = ref.Dual(om[pair[0]], em[pair[1]])
            want = model.normal(hemi * a, m)[:4]
        for j, name in enumerate(('lat', 'mlt', 'ocb_lat', 'r_corr')):
            if name == 'r_corr' and want[2] != want[2]:
                # not defined: whatever, as long as it is the same
                continue
            good = (gen.close_mlt if name == 'mlt' else gen.close)(
                float(got['normal'][j][i]), want[j], 1e-6)
            if not good:
                rep.violate(['fresh', hemi, pair, i, name],
                            'fresh object differs from the reference',
                            got['normal'][j][i], want[j])
    cache[pair] = got
    return got


def near(one, two):
    if one is None or two is None:
        return one is two
    if isinstance(one, (list, tuple)):
        return len(one) == len(two) and all(near(a, b) for a, b in
                                            zip(one, two))
    one, two = np.asarray(one, dtype=float), np.asarray(two, dtype=float)
    return one.shape == two.shape and np.allclose(one, two, rtol=1e-7,
                                                  atol=1e-6, equal_nan=True)


def same_probe(got, want, keys):
    for key in keys:
        if not near(got.get(key), want.get(key)):
            return key
    return None


def dual(params, rep):
    hemi, shape, depth, first, width = params
    start, om, em = dual_start(hemi, shape)
    ops = dual_ops()
    cache = {}
    front = [(start, Model(SELS[0][1]), [])]
    if first == 0:
        check_cursor(start, front[0][1], rep, [hemi, shape, 'start'])
    seen = set()
    for level in range(depth):
        new = []
        for obj, mod, hist in front:
            for op in (ops if level else ops[first:first + width]):
                nxt, nmod = copy.deepcopy(obj), mod.copy()
                case = [hemi, shape, hist + [op]]
                try:
                    apply_dual(nxt, op, hemi, nmod)
                except Exception as exc:
                    rep.violate(case, 'operation failed: %r' % exc)
                    continue
                rep.step(1, op[0])
                if not check_cursor(nxt, nmod, rep, case):
                    continue
                state = canon(snap_dual(nxt))
                rep.state(state)
                if state in seen:
                    continue
                seen.add(state)
                want = expected(start, nmod.get(), om, em, hemi, rep, cache)
                try:
                    got = probe_dual(nxt, hemi)
                except Exception as exc:
                    rep.violate(case, 'conversion failed: %r' % exc)
                    continue
                key = same_probe(got, want, ('normal', 'one', 'revert',
                                             'calc', 'ocb', 'eab', 'vec'))
                if key is not None:
                    rep.violate(case, 'result depends on what was called '
                                'before: ' + key, got.get(key),
                                want.get(key))
                if got['cursor'] != [nmod.pos, int(nxt.ocb.rec_ind),
                                     int(nxt.eab.rec_ind)]:
                    rep.violate(case, 'conversions moved the cursor',
                                got['cursor'], nmod.pos)
                rep.trace(case, got)
                if level + 1 < depth:
                    new.append((nxt, nmod, hist + [op]))
        front = new


# --------------------------------------------------------------------------
def single_ops():
    out = [('next', None), ('next', 'max'), ('next', 'kw')]
    out += [('cursor', k) for k in (-1, 0, 2, 3, 4, 6)]
    out += [('match', k) for k in (0, 2, 4)]
    out += [('normal',), ('normalone',), ('geo',), ('revert',), ('revertone',),
            ('lat', None, False), ('lat', None, True), ('lat', 1, True),
            ('lat', (0, 2), False), ('latone',), ('vector', 0),
            ('vector', 2), ('vectors',), ('retrieve', None),
            ('retrieve', 'max'), ('repr',), ('str',)]
    return out


def apply_single(obj, op, hemi, pos, foms):
    """-> position the model expects, or None when it is not this property's
    concern (matching)."""
    lat = hemi * np.array([p[0] for p in PTS])
    mlt = np.array([p[1] for p in PTS])
    num = len(foms)
    if op[0] == 'next':
        kw = {None: {}, 'max': {'max_merit': 1.5},
              'kw': {'r_cent': ('max', 2.5)}}[op[1]]
        obj.get_next_good_ocb_ind(**kw)
        test = {None: lambda i: foms[i][0] <= 5.0,
                'max': lambda i: foms[i][0] <= 1.5,
                'kw': lambda i: foms[i][0] <= 5.0 and foms[i][1] < 2.5}[op[1]]
        if pos >= num:
            return max(int(obj.rec_ind), num)
        for i in range(max(pos + 1, 0), num):
            if test(i):
                return i
        return num
    if op[0] == 'cursor':
        obj.rec_ind = op[1]
        return op[1]
    if op[0] == 'match':
        times = [gen.T0 + dt.timedelta(seconds=s) for s in DAT]
        gen.ocbpy.match_data_ocb(obj, times, idat=op[1], max_tol=60)
        return None
    if op[0] == 'normal':
        obj.normal_coord(lat, mlt)
    elif op[0] == 'normalone':
        obj.normal_coord(lat[1], mlt[1])
    elif op[0] == 'geo':
        obj.normal_coord(lat[:4], mlt[:4], coords='geocentric', height=300.0)
    elif op[0] == 'revert':
        obj.revert_coord(lat, mlt, 0.5)
    elif op[0] == 'revertone':
        obj.revert_coord(lat[0], mlt[0], 0.5, coords='geodetic')
    elif op[0] == 'lat':
        obj.get_aacgm_boundary_lat(
            np.array([0.5, 13.0]), overwrite=op[2],
            rec_ind=list(op[1]) if isinstance(op[1], tuple) else op[1])
    elif op[0] == 'latone':
        obj.get_aacgm_boundary_lat(7.0, rec_ind=0, set_lon=False)
    elif op[0] == 'vector':
        gen.ocbpy.ocb_scaling.VectorData(
            0, op[1], hemi * 76.0, 4.0, vect_n=30.0,
            vect_e=10.0).set_ocb(obj)
        return None
    elif op[0] == 'vectors':
        gen.ocbpy.ocb_scaling.VectorData(
            np.arange(3), np.array([2, 0, 1]), hemi * np.array([76., 84, 60]),
            np.array([4.0, 9.0, 20.0]), vect_n=np.array([1., 2., 3.]),
            vect_e=np.array([3.0, -4.0, 5.0])).set_ocb(obj)
        return None
    elif op[0] == 'retrieve':
        gen.ocbpy.cycle_boundary.retrieve_all_good_indices(
            obj, **({} if op[1] is None else {'max_merit': 1.5}))
    elif op[0] == 'repr':
        repr(obj)
    elif op[0] == 'str':
        str(obj)
    return pos


def probe_single(obj, hemi):
    obj = copy.deepcopy(obj)
    lat = hemi * np.array([p[0] for p in PTS])
    mlt = np.array([p[1] for p in PTS])
    out = {'normal': obj.normal_coord(lat, mlt),
           'one': [[float(v) for v in obj.normal_coord(a, m)]
                   for a, m in zip(lat, mlt)],
           'revert': obj.revert_coord(lat, mlt, np.full(lat.shape, 0.25)),
           'cursor': int(obj.rec_ind)}
    if 0 <= obj.rec_ind < obj.records:
        out['geo'] = obj.normal_coord(lat[:1], mlt[:1], coords='geodetic')
        vec = gen.ocbpy.ocb_scaling.VectorData(
            np.arange(3), int(obj.rec_ind), hemi * np.array([76., 84., 60.]),
            np.array([4.0, 9.0, 20.0]), vect_n=np.array([1.0, 2.0, 3.0]),
            vect_e=np.array([3.0, -4.0, 5.0]))
        vec.set_ocb(obj, scale_func=gen.ocbpy.ocb_scaling.normal_evar)
        out['vec'] = [vec.ocb_n, vec.ocb_e, vec.ocb_lat, vec.ocb_mlt]
    return out


def single(params, rep):
    hemi, shape, cls, depth, first, width = params
    recs = OREC if cls == 'ocb' else EREC
    kw, corr = parts(shape, cls)
    blat = 74.0 if cls == 'ocb' else 64.0
    start = gen.ocb('image', recs, hemi, cls=gen.ocbpy.EABoundary
                    if cls == 'eab' else None, **kw)
    foms = [(rr['fom'], rr['rc']) for rr in recs]
    models = [ref.Bound(rr['r'], rr['phi'], rr['rc'], hemi, blat, c)
              for rr, c in zip(recs, corr)]
    ops = single_ops()
    cache = {}
    front = [(start, -1, [])]
    if int(start.rec_ind) not in (-1, 0, 1):
        rep.violate([hemi, cls, 'start'], 'initial cursor', start.rec_ind, 0)
    front = [(start, int(start.rec_ind), [])]
    seen = set()
    for level in range(depth):
        new = []
        for obj, pos, hist in front:
            for op in (ops if level else ops[first:first + width]):
                nxt = copy.deepcopy(obj)
                case = [hemi, shape, cls, hist + [op]]
                try:
                    npos = apply_single(nxt, op, hemi, pos, foms)
                except Exception as exc:
                    rep.violate(case, 'operation failed: %r' % exc)
                    continue
                rep.step(1, op[0])
                if npos is None:
                    npos = int(nxt.rec_ind)
                if int(nxt.rec_ind) != npos:
                    rep.violate(case, 'cursor', nxt.rec_ind, npos)
                    continue
                state = canon(snap_one(nxt))
                rep.state(state)
                if state in seen:
                    continue
                seen.add(state)
                key = npos if 0 <= npos < len(recs) else None
                if key not in cache:
                    fresh = copy.deepcopy(start)
                    fresh.rec_ind = -1 if key is None else key
                    cache[key] = probe_single(fresh, hemi)
                    for i, (a, m) in enumerate(PTS):
                        want = ([ref.NAN] * 3 if key is None else
                                models[key].normal(hemi * a, m))
                        for j in range(3):
                            if j == 2 and want[0] != want[0]:
                                continue
                            if not (gen.close_mlt if j == 1 else gen.close)(
                                    float(cache[key]['normal'][j][i]),
                                    want[j], 1e-6):
                                rep.violate(
                                    ['fresh', hemi, cls, key, i, j],
                                    'fresh object differs from reference',
                                    cache[key]['normal'][j][i], want[j])
                want = cache[key]
                try:
                    got = probe_single(nxt, hemi)
                except Exception as exc:
                    rep.violate(case, 'conversion failed: %r' % exc)
                    continue
                bad = same_probe(got, want, ('normal', 'one', 'revert', 'geo',
                                             'vec'))
                if bad is not None:
                    rep.violate(case, 'result depends on what was called '
                                'before: ' + bad, got.get(bad), want.get(bad))
                if got['cursor'] != npos:
                    rep.violate(case, 'conversions moved the cursor',
                                got['cursor'], npos)
                rep.trace(case, got)
                if level + 1 < depth:
                    new.append((nxt, npos, hist + [op]))
        front = new
