"""P02: data times are matched to the nearest good boundary in tolerance."""
import bisect
import datetime as dt
import itertools

from mc import gen, ref
from mc.core import Hang, limit
from mc.gen import np

TECHNIQUE = ('exhaustive exploration of boundary/data time patterns x '
             'tolerance x start cursor on the real matching code; every scan '
             'is walked to its end and compared with a brute-force nearest '
             'neighbour model')
ORACLE = 'brute-force nearest good boundary for every data time'
BOUND = {'quick': 'boundaries: every none/good/bad pattern on 5 slots (243), '
                  'data: every subset of up to 3 of 11 half slots, 5 '
                  'tolerances, single and dual boundaries, every start; 8 boundary '
                  'and 12 data times hours to years apart; 300 boundaries and '
                  'up to 1,000 data with runs of bad ones and gaps',
         'thorough': '6 boundary slots (729), subsets of up to 4 of 13 half '
                     'slots, 7 tolerances'}
JOB_CPU_LIMIT = 600
ASSUMPTIONS = ['data and boundary times are in ascending order, as documented',
               'between two equally near boundaries either may be chosen',
               'a start cursor inside the records is on a good record']
STEP = 60


def jobs(tier):
    nslot = 5 if tier == 'quick' else 6
    out = []
    for pat in itertools.product('-GB', repeat=2):
        for kind in ('single', 'dual'):
            out.append(('grid', [kind, ''.join(pat), nslot, tier]))
    for inst in ('image', 'dmsp-ssj', 'ampere'):
        out.append(('edges', [inst]))
        out.append(('duplicates', [inst]))
        out.append(('select', [inst]))
    out.append(('starts', [tier]))
    out.append(('nothing', []))
    for part in range(4):
        out.append(('spread', [part, 4, tier]))
        out.append(('long', [part, tier]))
    return out


DAY = 86400.0


def spread(params, rep):
    """Boundaries and data hours, days and years apart."""
    part, parts, tier = params
    bpos = [0, 60, 3600, DAY, DAY + 60, 2 * DAY, 31 * DAY, 366 * DAY]
    dpos = [-DAY, 0, 30, 3630, DAY - 20, DAY + 25, 2 * DAY, 3 * DAY,
            31 * DAY + 10, 365 * DAY, 366 * DAY + 30, 700 * DAY]
    for n, bsub in enumerate(subsets(len(bpos), 3 if tier == 'quick' else 4)):
        if n % parts != part or not bsub:
            continue
        for bad in [None] + list(range(len(bsub))):
            recs = [gen.rec(bpos[i], 14.0, 1.0, 1.0, fom=(
                gen.BAD if bad == k else gen.GOOD)['image'])
                for k, i in enumerate(bsub)]
            obj = gen.ocb('image', recs)
            good = [k != bad for k in range(len(bsub))]
            for dsub in subsets(len(dpos), 3):
                data = [at(dpos[i]) for i in dsub]
                for tol in (60, 3600, DAY):
                    case = ['spread', bsub, bad, dsub, tol]
                    rep.state(case)
                    try:
                        pairs = walk(obj, data, tol, rep, case)
                    except Hang:
                        rep.violate(case, 'matching does not terminate')
                        return
                    judge(pairs, [rr['t'] for rr in recs], good, data, tol,
                          rep, case)


def long(params, rep):
    """Hundreds of boundaries and data, with runs of bad ones and gaps."""
    part, tier = params
    num = 300 if tier == 'quick' else 1500
    for run, gap, shift, step in itertools.product(
            (0, 1, 40, 150), (0, 60, 200), (0, 20, 30), (17, 60, 200)):
        if (run + gap + shift + step) % 4 != part:
            continue
        pos = [60 * i + (30000 if gap and i >= gap else 0)
               for i in range(num)]
        good = [not (100 <= i < 100 + run) for i in range(num)]
        recs = [gen.rec(t, 14.0, 1.0, 1.0, fom=(
            gen.GOOD if g else gen.BAD)['image']) for t, g in zip(pos, good)]
        obj = gen.ocb('image', recs)
        data = [at(shift - 600 + step * i) for i in range(
            int((pos[-1] + 1200) / step) + 1)]
        for tol in (30, 60, 600):
            case = ['long', run, gap, shift, step, tol]
            rep.state(case)
            try:
                with limit(120):
                    pairs = walk(obj, data, tol, rep, case, most=120)
            except Hang:
                rep.violate(case, 'matching does not terminate')
                return
            judge_long(pairs, pos, good, [shift - 600 + step * i for i in
                                          range(len(data))], tol, rep, case)


def judge_long(pairs, pos, good, data, tol, rep, case):
    gpos = [p for p, g in zip(pos, good) if g]
    want = []
    for i, d in enumerate(data):
        k = bisect.bisect_left(gpos, d)
        diff = min([abs(gpos[j] - d) for j in (k - 1, k)
                    if 0 <= j < len(gpos)])
        if diff <= tol:
            want.append((i, diff))
    have = [(i, abs(pos[j] - data[i]) if good[j] else -1) for i, j in pairs]
    if have != want:
        bad = [k for k, (a, b) in enumerate(zip(have, want)) if a != b][:3]
        rep.violate(case, 'wrong pairs', [len(have), have[bad[0]] if bad
                                          else 0],
                    [len(want), want[bad[0]] if bad else 0])
    rep.trace(case, len(have))


def walk(obj, data, tol, rep, case, idat=0, kwargs=None, cursor=-1,
         most=20):
    """The documented scan: restart after every pair until it runs out."""
    kwargs = kwargs or {}
    obj.rec_ind = cursor
    pairs = []
    ndat = len(data)
    with limit(most):
        for _ in range(ndat + 3):
            got = gen.ocbpy.cycle_boundary.match_data_ocb(
                obj, data, idat=idat, max_tol=tol, **kwargs)
            rep.step()
            if got is None or got >= ndat or obj.rec_ind >= obj.records:
                return pairs
            if obj.rec_ind < 0 or got < idat:
                rep.violate(case, 'matching went backwards', [got, idat,
                                                              obj.rec_ind])
                return pairs
            pairs.append((int(got), int(obj.rec_ind)))
            idat = got + 1
    rep.violate(case, 'scan does not end', pairs)
    return pairs


def judge(pairs, btimes, good, data, tol, rep, case, idat=0, first=0):
    """btimes: time of each record; good: flags; compare with brute force."""
    want = []
    for i in range(idat, len(data)):
        diffs = [abs((btimes[j] - data[i]).total_seconds())
                 for j in range(first, len(btimes)) if good[j]]
        if diffs and min(diffs) <= tol:
            want.append((i, min(diffs)))
    have = []
    for i, j in pairs:
        if not (0 <= j < len(btimes)) or not good[j]:
            rep.violate(case, 'paired with a boundary that is not good',
                        pairs, want)
            return
        have.append((i, abs((btimes[j] - data[i]).total_seconds())))
    if have != want:
        rep.violate(case, 'wrong pairs (data index, seconds to boundary)',
                    have, want)
    rep.trace(case, have)


def subsets(n, most):
    for k in range(most + 1):
        for sub in itertools.combinations(range(n), k):
            yield sub


def at(sec):
    return gen.T0 + dt.timedelta(seconds=sec)


def grid(params, rep):
    kind, head, nslot, tier = params
    tols = [0, 30, 59.5, 60, 150] if tier == 'quick' else \
        [0, 29, 30, 59.5, 60, 90, 150]
    npos = 2 * nslot + 1
    subs = list(subsets(npos, 3 if tier == 'quick' else 4))
    for rest in itertools.product('-GB', repeat=nslot - 2):
        pat = head + ''.join(rest)
        slots = [i for i, c in enumerate(pat) if c != '-']
        if not slots:
            continue
        insts = ['image', 'dmsp-ssj', 'ampere']
        inst = insts[sum(slots) % 3]
        recs = [gen.rec(STEP * i, 14.0, 1.0, 1.0,
                        fom=(gen.GOOD if pat[i] == 'G' else gen.BAD)[inst])
                for i in slots]
        if kind == 'single':
            obj = gen.ocb(inst, recs)
            bt = [rr['t'] for rr in recs]
            good = [pat[i] == 'G' for i in slots]
        else:
            # bad slots have an OCB but no good EAB
            orecs = [gen.rec(STEP * i, 14.0, 1.0, 1.0) for i in slots]
            erecs = [gen.rec(STEP * i, 24.0, 1.0, 1.0,
                             fom=(gen.GOOD if pat[i] == 'G'
                                  else gen.BAD)['dmsp-ssj'])
                     for i in slots]
            obj = gen.dual(inst, orecs, 'dmsp-ssj', erecs, max_delta=10)
            bt = [at(STEP * i) for i in slots if pat[i] == 'G']
            good = [True] * len(bt)
            if obj.records != len(bt):
                rep.violate([kind, pat], 'dual records', obj.records, len(bt))
                continue
        for sub in subs:
            data = [at(STEP // 2 * (p - 1)) for p in sub]
            if len(sub) % 2:
                data = np.array(data, dtype=object)
            for tol in tols:
                case = [kind, pat, list(sub), tol]
                rep.state(case)
                try:
                    pairs = walk(obj, data, tol, rep, case)
                except Hang:
                    rep.violate(case, 'matching does not terminate')
                    return
                judge(pairs, bt, good, data, tol, rep, case)
        # from every later start (cursor on a good record, data index)
        starts = [j for j in range(len(bt)) if good[j]]
        for cur in starts:
            for sub in subs[::7]:
                data = [at(STEP // 2 * (p - 1)) for p in sub]
                for i0 in range(len(data)):
                    case = [kind, pat, list(sub), 60, 'from', cur, i0]
                    try:
                        pairs = walk(obj, data, 60, rep, case, idat=i0,
                                     cursor=cur)
                    except Hang:
                        rep.violate(case, 'matching does not terminate')
                        return
                    judge(pairs, bt, good, data, 60, rep, case, idat=i0,
                          first=cur)


def edges(params, rep):
    """Tolerance edges to the microsecond, on both sides of a boundary."""
    inst = params[0]
    us = dt.timedelta(microseconds=1)
    for hemi in (1, -1):
        for times in ([0], [0, 600], [0, 120, 240], [0, 60, 600]):
            recs = [gen.rec(t, 14.0, 1.0, 2.0) for t in times]
            obj = gen.ocb(inst, recs, hemi)
            bt = [rr['t'] for rr in recs]
            for tol in (0, 1, 45, 60, 60.0, 90.5, 600):
                pts = sorted(set(
                    t + s * dt.timedelta(seconds=tol) + e * us
                    for t in bt for s in (-1, 0, 1) for e in (-1, 0, 1)))
                for num in (1, 2):
                    for data in itertools.combinations(pts, num):
                        case = [inst, hemi, times, tol,
                                [(d - gen.T0).total_seconds() for d in data]]
                        rep.state(case)
                        try:
                            pairs = walk(obj, list(data), tol, rep, case)
                        except Hang:
                            rep.violate(case, 'does not terminate')
                            return
                        judge(pairs, bt, [True] * len(bt), data, tol, rep,
                              case)


def duplicates(params, rep):
    """Repeated boundary times and repeated data times."""
    inst = params[0]
    for times in itertools.combinations_with_replacement([0, 60, 120], 4):
        for flags in itertools.product((True, False), repeat=4):
            recs = [gen.rec(t, 14.0, 1.0, 2.0,
                            fom=(gen.GOOD if f else gen.BAD)[inst])
                    for t, f in zip(times, flags)]
            obj = gen.ocb(inst, recs)
            bt = [rr['t'] for rr in recs]
            for num in (1, 2, 3):
                for dd in itertools.combinations_with_replacement(
                        [-30, 0, 30, 60, 90, 150], num):
                    data = [at(s) for s in dd]
                    for tol in (0, 30, 60):
                        case = [inst, times, flags, dd, tol]
                        rep.state(case)
                        try:
                            pairs = walk(obj, data, tol, rep, case)
                        except Hang:
                            rep.violate(case, 'does not terminate')
                            return
                        judge(pairs, bt, flags, data, tol, rep, case)


def select(params, rep):
    """Custom quality limits and criteria take part in the matching."""
    inst = params[0]
    good, bad = gen.GOOD[inst], gen.BAD[inst]
    lo, hi = gen.LIMITS[inst]
    foms = [good, bad, good, good, bad, good]
    rads = [14.0, 14.0, 16.0, 14.0, 16.0, 16.0]
    recs = [gen.rec(60 * i, rads[i], 1.0, 2.0, fom=foms[i]) for i in range(6)]
    obj = gen.ocb(inst, recs)
    erecs = [gen.rec(60 * i, rads[i] + 10.0, 1.0, 2.0, fom=foms[i])
             for i in range(6)]
    dual = gen.dual(inst, recs, inst, erecs, max_delta=5)
    bt = [rr['t'] for rr in recs]
    sels = [{}, {'min_merit': min(good, bad), 'max_merit': max(good, bad)},
            {'min_merit': bad, 'max_merit': bad}, {'r': ('max', 15.0)},
            {'r': ('mineq', 16.0)}, {'r': ('equal', 14.0)},
            {'min_merit': 99.0, 'max_merit': 100.0},
            {'min_merit': min(good, bad), 'max_merit': max(good, bad),
             'r': ('min', 15.0)}]
    for sel in sels:
        crit = {k: v for k, v in sel.items() if not k.endswith('merit')}
        flags = [ref.good({'r': rads[i]}, foms[i], sel.get('min_merit', lo),
                          sel.get('max_merit', hi), crit) for i in range(6)]
        for sub in subsets(13, 2):
            data = [at(30 * (p - 1)) for p in sub]
            for tol in (0, 30, 60, 200):
                case = [inst, sel, list(sub), tol]
                rep.state(case)
                try:
                    pairs = walk(obj, data, tol, rep, case, kwargs=sel)
                except Hang:
                    rep.violate(case, 'does not terminate')
                    return
                judge(pairs, bt, flags, data, tol, rep, case)
                # Dual: the same criteria for both boundaries. The pairs
                # are re-selected by the first call of each scan.
                if 'r' in sel or not sel or not data:
                    continue
                dual.set_good_ind()
                dual.rec_ind = -1
                case = ['dual'] + case
                try:
                    with limit(20):
                        got = gen.ocbpy.cycle_boundary.match_data_ocb(
                            dual, data, idat=0, max_tol=tol, **sel)
                except Hang:
                    rep.violate(case, 'does not terminate')
                    return
                rep.step()
                if [int(i) for i in dual.ocb_ind] != [
                        i for i in range(6) if flags[i]]:
                    rep.violate(case, 'dual selection not applied',
                                list(dual.ocb_ind), flags)
                elif (got is not None and got < len(data)
                      and 0 <= dual.rec_ind < dual.records):
                    judge([(int(got), int(dual.rec_ind))], list(dual.dtime),
                          [True] * dual.records, data[:got + 1], tol, rep,
                          case)
                else:
                    judge([], bt, flags, data, tol, rep, case)


def starts(params, rep):
    """Long histories: every arrangement of dense data around boundaries."""
    for gap in (60, 120, 300):
        for bad in itertools.product((True, False), repeat=6):
            recs = [gen.rec(gap * i, 14.0, 1.0, 2.0,
                            fom=gen.GOOD['image'] if b else gen.BAD['image'])
                    for i, b in enumerate(bad)]
            obj = gen.ocb('image', recs)
            bt = [rr['t'] for rr in recs]
            for cad in (1, 7, 20, 45, 60, 110):
                for off in (-400, -90, 0, 13, 300):
                    data = [at(off + cad * i) for i in range(
                        min(40, 1 + (6 * gap + 600) // cad))]
                    for tol in (0, 60, 150):
                        case = [gap, bad, cad, off, tol]
                        rep.state(case)
                        try:
                            pairs = walk(obj, data, tol, rep, case)
                        except Hang:
                            rep.violate(case, 'does not terminate')
                            return
                        judge(pairs, bt, bad, data, tol, rep, case)


def nothing(params, rep):
    """Nothing to match: no records, no data, everything exhausted."""
    full = gen.ocb('image', [gen.rec(0), gen.rec(60)])
    allbad = gen.ocb('image', [gen.rec(0, fom=9.0), gen.rec(60, fom=9.0)])
    void = gen.ocbpy.OCBoundary(filename=None, instrument='image')
    dvoid = gen.dual('image', [gen.rec(0, fom=9.0)], 'image', [gen.rec(0)])
    late = gen.ocb('image', [gen.rec(7200)])
    for label, obj in (('full', full), ('bad', allbad), ('void', void),
                       ('dual void', dvoid), ('late', late)):
        for data in ([], [at(0)], [at(0), at(60)], [at(-9000)], [at(90000)]):
            for start in (-1, 0, 1, 2, 3, 5):
                if 0 <= start < obj.records and label == 'bad':
                    continue
                for idat in range(len(data) + 2):
                    case = [label, len(data), start, idat]
                    obj.rec_ind = start
                    rep.state(case)
                    try:
                        with limit(20):
                            got = gen.ocbpy.cycle_boundary.match_data_ocb(
                                obj, data, idat=idat, max_tol=60)
                    except Hang:
                        rep.violate(case, 'does not terminate')
                        continue
                    rep.step()
                    hit = (got is not None and got < len(data)
                           and 0 <= obj.rec_ind < obj.records)
                    first = max(start, 0)
                    want = label in ('full', 'late') and any(
                        abs((obj.dtime[j] - data[i]).total_seconds()) <= 60
                        for i in range(idat, len(data))
                        for j in range(first, obj.records))
                    if hit != want:
                        rep.violate(case, 'match reported', hit, want)
                    rep.trace(case, [hit, got])
