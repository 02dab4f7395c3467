"""P03: dual boundaries pair good, nearest-in-time EAB and OCB records."""
import datetime as dt
import itertools

from mc import gen, ref
from mc.core import Hang, limit
from mc.gen import np

TECHNIQUE = ('exhaustive exploration of OCB x EAB record patterns x maximum '
             'difference x selection sequences on the real pairing code '
             'against a reference pairing model')
ORACLE = ('poleward records in order, each with the nearest remaining good '
          'equatorward record within the maximum difference')
BOUND = {'quick': 'every none/good/bad pattern of 5 OCB and 5 EAB slots '
                  '(59049) x 3 maximum differences x 2 offsets; every '
                  'sequence of 3 selections out of 13 on 24 patterns; 10000 '
                  'cases with fractions of a second; records hours to years '
                  'apart; 200 records with runs of bad ones',
         'thorough': '5 OCB and 6 EAB slots (177147) x 5 maximum differences '
                     'x 4 offsets; sequences of 3 selections on 96 patterns'}
JOB_CPU_LIMIT = 700


def pair(otimes, oflag, etimes, eflag, tol):
    """Reference pairing."""
    out, cur = [], 0
    for i, t in enumerate(otimes):
        if not oflag[i]:
            continue
        best = None
        for j in range(cur, len(etimes)):
            if eflag[j]:
                diff = abs(etimes[j] - t)
                if diff <= tol and (best is None or diff < best[0]):
                    best = (diff, j)
        if best is not None:
            out.append((i, best[1]))
            cur = best[1] + 1
    return out


def jobs(tier):
    out = []
    if tier == 'quick':
        cfg, ns = [(0, 30), (0, 60), (10, 30), (10, 20), (-7, 45)], (5, 5)
    else:
        cfg = [(off, tol) for off in (0, 10, -10, 15)
               for tol in (1, 15, 30, 60, 200)]
        ns = (5, 6)
    for head in itertools.product('-GB', repeat=2):
        for off, tol in cfg:
            out.append(('grid', [''.join(head), off, tol, ns[0], ns[1]]))
    num = 24 if tier == 'quick' else 96
    for i in range(8):
        out.append(('sequences', [i, 8, num]))
    out.append(('duplicates', []))
    out.append(('build', []))
    out.append(('fractions', []))
    out.append(('absent', []))
    for part in range(4):
        out.append(('spread', [part, 4]))
        out.append(('long', [part, tier]))
    return out


DAY = 86400.0


def spread(params, rep):
    """Records hours, days and years apart."""
    part, parts = params
    opos = [0, 60, 3600, DAY, DAY + 45, 31 * DAY, 366 * DAY]
    epos = [-DAY, -20, 0, 80, 3620, DAY - 15, 2 * DAY, 31 * DAY + 15,
            365 * DAY, 366 * DAY + 5]
    osubs = [c for k in (1, 2, 3) for c in itertools.combinations(opos, k)]
    esubs = [c for k in (1, 2, 3) for c in itertools.combinations(epos, k)]
    eabs = [gen.eab('image', [gen.rec(t, 22.0, 1.0, 0.0) for t in sub])
            for sub in esubs]
    for n, ot in enumerate(osubs):
        if n % parts != part:
            continue
        ocb = gen.ocb('image', [gen.rec(t, 14.0, 1.0, 0.0) for t in ot])
        for et, eab in zip(esubs, eabs):
            for tol in (60, 3600, DAY):
                case = ['spread', ot, et, tol]
                rep.state(case)
                try:
                    with limit(20):
                        obj = gen.ocbpy.DualBoundary(ocb=ocb, eab=eab,
                                                     max_delta=tol)
                except Hang:
                    rep.violate(case, 'pairing does not terminate')
                    return
                judge(obj, pair(ot, [True] * len(ot), et, [True] * len(et),
                                tol), rep, case)


def long(params, rep):
    """Hundreds of records with runs of bad ones in either member."""
    part, tier = params
    num = 200 if tier == 'quick' else 800
    for n, (orun, erun, shift, step) in enumerate(itertools.product(
            ((0, 0), (50, 90), (0, 150)), ((0, 0), (20, 120), (100, 199)),
            (0, 25, 4000), (60, 45, 120))):
        if n % 4 != part:
            continue
        otime = [60 * i for i in range(num)]
        etime = [shift + step * i for i in range(num)]
        oflag = [not orun[0] <= i < orun[1] for i in range(num)]
        eflag = [not erun[0] <= i < erun[1] for i in range(num)]
        ocb, eab = [make('image', [gen.rec(t, rad, 1.0, 0.0, fom=(
            gen.GOOD if f else gen.BAD)['image']) for t, f in zip(times, flags)])
            for make, rad, times, flags in (
                (gen.ocb, 14.0, otime, oflag), (gen.eab, 22.0, etime, eflag))]
        for tol in (10, 60, 3600):
            case = ['long', orun, erun, shift, step, tol]
            rep.state(case)
            try:
                with limit(120):
                    obj = gen.ocbpy.DualBoundary(ocb=ocb, eab=eab,
                                                 max_delta=tol)
            except Hang:
                rep.violate(case, 'pairing does not terminate')
                return
            judge(obj, pair(otime, oflag, etime, eflag, tol), rep, case)


def judge(obj, want, rep, case):
    """Compare the object's pairs with the expected ones."""
    rep.step()
    have = list(zip([int(i) for i in obj.ocb_ind],
                    [int(i) for i in obj.eab_ind]))
    bad = None
    if have != want:
        bad = 'wrong pairs (ocb, eab)'
    elif obj.records != len(want):
        bad = 'wrong number of records'
    elif [t for t in obj.dtime] != [obj.ocb.dtime[i] for i, _ in want]:
        bad = 'pair time is not that of the poleward record'
    if bad:
        rep.violate(case, bad, [have, obj.records], want)
    else:
        rep.trace(case, want)
    return bad is None


def grid(params, rep):
    head, off, tol, nocb, neab = params
    inst = ['image', 'dmsp-ssj'][abs(off) % 2]
    hemi = 1 if tol % 2 else -1
    eabs = []
    for pat in itertools.product('-GB', repeat=neab):
        slots = [j for j, c in enumerate(pat) if c != '-']
        if not slots:
            continue
        recs = [gen.rec(30 * j + off, 22.0, 1.0, 0.0, fom=(
            gen.GOOD if pat[j] == 'G' else gen.BAD)['image']) for j in slots]
        eabs.append((''.join(pat), [30 * j + off for j in slots],
                     [pat[j] == 'G' for j in slots],
                     gen.eab('image', recs, hemi)))
    for rest in itertools.product('-GB', repeat=nocb - 2):
        pat = head + ''.join(rest)
        slots = [i for i, c in enumerate(pat) if c != '-']
        if not slots:
            continue
        recs = [gen.rec(30 * i, 14.0, 1.0, 0.0, fom=(
            gen.GOOD if pat[i] == 'G' else gen.BAD)[inst]) for i in slots]
        ocb = gen.ocb(inst, recs, hemi)
        otime = [30 * i for i in slots]
        oflag = [pat[i] == 'G' for i in slots]
        for epat, etime, eflag, eab in eabs:
            case = [pat, epat, off, tol]
            rep.state(case)
            try:
                with limit(20):
                    obj = gen.ocbpy.DualBoundary(ocb=ocb, eab=eab,
                                                 hemisphere=hemi,
                                                 max_delta=tol)
            except Hang:
                rep.violate(case, 'pairing does not terminate')
                return
            want = pair(otime, oflag, etime, eflag, tol)
            if judge(obj, want, rep, case) and want:
                if (obj.rec_ind, ocb.rec_ind, eab.rec_ind) != (
                        0,) + want[0]:
                    rep.violate(case, 'not on the first pair',
                                (obj.rec_ind, ocb.rec_ind, eab.rec_ind),
                                want[0])


OS = [{}, {'ocb_min_merit': gen.BAD['image'],
           'ocb_max_merit': gen.BAD['image']},
      {'ocb_max_merit': 99.0}, {'ocb_kwargs': {'r': ('max', 15.0)}},
      {'eab_max_merit': 99.0}, {'eab_kwargs': {'r': ('mineq', 23.0)}},
      {'eab_min_merit': 6.0, 'eab_max_merit': 8.0},
      {'ocb_max_merit': 99.0, 'eab_max_merit': 99.0},
      {'ocb_kwargs': {'r': ('equal', 16.0)}, 'eab_kwargs': {
          'r': ('max', 23.0)}},
      {'ocb_kwargs': {'r': ('min', 14.0), 'r_cent': ('maxeq', 2.0)}},
      {'ocb_min_merit': 100.0}, {'eab_min_merit': 100.0},
      {'ocb_max_merit': 99.0, 'eab_max_merit': 99.0, 'eab_kwargs': {
          'r_cent': ('min', 1.0)}}]


def sequences(params, rep):
    """Re-selection sequences: only the last selection counts."""
    part, nparts, num = params
    pats = list(itertools.product('GB', repeat=4))
    allc = [(op, ep, off, tol) for k, (op, ep) in enumerate(
        itertools.product(pats, pats)) for off, tol in
        ((0, 30), (10, 40), (-7, 20))]
    step = max(1, len(allc) // num)
    chosen = allc[::step][:num]
    for k, (op, ep, off, tol) in enumerate(chosen):
        if k % nparts != part:
            continue
        hemi = 1 if k % 2 else -1
        orec = [gen.rec(30 * i, 14.0 + i % 3, phi=10.0, rc=1.0 + i % 3,
                        fom=(gen.GOOD if c == 'G' else gen.BAD)['image'])
                for i, c in enumerate(op)]
        erec = [gen.rec(30 * i + off, 22.0 + i % 2, phi=10.0, rc=1.0 + i % 2,
                        fom=(gen.GOOD if c == 'G' else gen.BAD)['image'])
                for i, c in enumerate(ep)]
        obj = gen.dual('image', orec, 'image', erec, hemi, tol)
        otime = [30 * i for i in range(4)]
        etime = [30 * i + off for i in range(4)]

        def flags(recs, sel, which):
            lo, hi = gen.LIMITS['image']
            lo = sel.get(which + '_min_merit', lo)
            hi = sel.get(which + '_max_merit', hi)
            crit = sel.get(which + '_kwargs', {})
            return [ref.good({'r': rr['r'], 'r_cent': rr['rc']}, rr['fom'],
                             lo, hi, crit) for rr in recs]

        for seq in itertools.product(range(len(OS)), repeat=2):
            for cursor in (None, -1, 1):
                for n, isel in enumerate(seq + (0,)):
                    sel = OS[isel]
                    if cursor is not None:
                        obj.rec_ind = cursor
                    before = repr(sel)
                    with limit(20):
                        obj.set_good_ind(**sel)
                    if repr(sel) != before:
                        rep.violate([op, ep, sel], 'selection was modified')
                    want = pair(otime, flags(orec, sel, 'ocb'), etime,
                                flags(erec, sel, 'eab'), tol)
                    case = [op, ep, off, tol, cursor, list(seq[:n + 1]),
                            n == 2]
                    rep.state(case)
                    judge(obj, want, rep, case)
                    # cursor of the pair object starts at the first pair
                    if want and (int(obj.ocb.rec_ind),
                                 int(obj.eab.rec_ind)) != want[0]:
                        rep.violate(case, 'members not on the first pair',
                                    [obj.ocb.rec_ind, obj.eab.rec_ind],
                                    want[0])


def duplicates(params, rep):
    """Several records at the same time."""
    for ot in itertools.combinations_with_replacement([0, 30, 60], 3):
        for et in itertools.combinations_with_replacement(
                [-20, 0, 10, 30, 60], 3):
            for tol in (5, 20, 30, 60):
                for ob in itertools.product('GB', repeat=3):
                    orec = [gen.rec(t, 14.0, 1.0, 1.0, fom=(
                        gen.GOOD if c == 'G' else gen.BAD)['dmsp-ssj'])
                        for t, c in zip(ot, ob)]
                    erec = [gen.rec(t, 24.0, 1.0, 1.0) for t in et]
                    case = ['dup', ot, et, ob, tol]
                    rep.state(case)
                    try:
                        with limit(20):
                            obj = gen.dual('dmsp-ssj', orec, 'image', erec, 1,
                                           tol)
                    except Hang:
                        rep.violate(case, 'pairing does not terminate')
                        return
                    judge(obj, pair(ot, [c == 'G' for c in ob], et,
                                    [True] * 3, tol), rep, case)


def build(params, rep):
    """Construction from files equals construction from objects; a mismatch
    of hemisphere or latitude is rejected."""
    dual = gen.ocbpy.DualBoundary
    insts = ['image', 'ampere', 'dmsp-ssj']
    for oi, ei in itertools.product(insts, insts):
        for hemi in (1, -1):
            for delta in (30, 60, 61.5, 600):
                orec = [gen.rec(60 * i, 14.0, 1.0, 1.0, fom=(
                    gen.BAD[oi] if i == 2 else None)) for i in range(6)]
                # AMPERE times have a resolution of a minute
                off = 60 if 'ampere' in (oi, ei) else 30
                erec = [gen.rec(120 * i + off, 24.0, 1.0, 1.0)
                        for i in range(4)]
                opath, epath = gen.write(oi, orec), gen.write(ei, erec)
                obj = dual(ocb_filename=opath, eab_filename=epath,
                           ocb_instrument=oi, eab_instrument=ei,
                           hemisphere=hemi, max_delta=delta)
                want = pair([60 * i for i in range(6)],
                            [i != 2 for i in range(6)],
                            [120 * i + off for i in range(4)], [True] * 4,
                            delta)
                case = [oi, ei, hemi, delta]
                rep.state(case)
                judge(obj, want, rep, case)
                if obj.hemisphere != hemi or np.sign(
                        obj.ocb.boundary_lat) != hemi or np.sign(
                            obj.eab.boundary_lat) != hemi:
                    rep.violate(case, 'hemisphere', obj.hemisphere, hemi)
                for kw in ({'hemisphere': hemi, 'eab': gen.eab(
                        ei, erec, -hemi)}, {'eab_lat': 74.0}, {
                            'eab_lat': 80.0}, {'max_delta': 0},
                           {'max_delta': -5}):
                    args = {'ocb_filename': opath, 'eab_filename': epath,
                            'ocb_instrument': oi, 'eab_instrument': ei,
                            'hemisphere': hemi}
                    args.update(kw)
                    try:
                        dual(**args)
                        rep.violate(case + [list(kw)], 'not rejected')
                    except ValueError:
                        rep.trace(case + [list(kw)], 'rejected')
                    rep.step()


def absent(params, rep):
    """Members without a file or without records in the window."""
    rows = [gen.rec(60 * i, 14.0, 1.0, 1.0) for i in range(3)]
    late = gen.T0 + dt.timedelta(days=40)
    kinds = {'full': lambda cls, inst, hemi: cls(
                 filename=gen.write(inst, rows), instrument=inst,
                 hemisphere=hemi),
             'none': lambda cls, inst, hemi: cls(
                 filename=None, instrument=inst, hemisphere=hemi),
             'late': lambda cls, inst, hemi: cls(
                 filename=gen.write(inst, rows), instrument=inst,
                 hemisphere=hemi, stime=late, etime=late),
             'bad': lambda cls, inst, hemi: cls(
                 filename=gen.write(inst, [
                     dict(row, fom=gen.BAD[inst]) for row in rows]),
                 instrument=inst, hemisphere=hemi)}
    for inst, hemi, one, two in itertools.product(
            ('image', 'ampere', 'dmsp-ssj'), (1, -1), kinds, kinds):
        obj = gen.ocbpy.DualBoundary(
            ocb=kinds[one](gen.ocbpy.OCBoundary, inst, hemi),
            eab=kinds[two](gen.ocbpy.EABoundary, inst, hemi), hemisphere=hemi)
        want = 3 if one == two == 'full' else 0
        for steps in itertools.product(('pair', 'next', 'move', 'sel'),
                                       repeat=2):
            for step in steps:
                case = ['absent', inst, hemi, one, two, steps, step]
                rep.state(case)
                rep.step()
                if step == 'next':
                    obj.get_next_good_ind()
                elif step == 'move':
                    obj.rec_ind = 1
                elif step == 'sel':
                    obj.set_good_ind(ocb_min_merit=1000.0)
                    if obj.records != 0:
                        rep.violate(case, 'number of pairs', obj.records, 0)
                    obj.set_good_ind()
                else:
                    obj.set_good_ind()
                if obj.records != want:
                    rep.violate(case, 'number of pairs', obj.records, want)
            rep.trace(case, want)


def fractions(params, rep):
    """Record times and maximum differences with fractions of a second."""
    quarters = (0.0, 0.25, 0.5, 0.75, 1.0)
    obj = gen.dual('image', [gen.rec(t, 14.0, 1.0, 0.0) for t in (0, 20)],
                   'image', [gen.rec(t, 22.0, 1.0, 0.0) for t in (0, 20)],
                   max_delta=60)
    for offs in itertools.product(quarters, repeat=4):
        for base in (0, 9):
            otime = [offs[0], 20 + offs[1]]
            etime = [base + offs[2], base + 20 + offs[3]]
            obj.ocb.dtime = np.array([gen.T0 + dt.timedelta(seconds=t)
                                      for t in otime])
            obj.eab.dtime = np.array([gen.T0 + dt.timedelta(seconds=t)
                                      for t in etime])
            for tol in (0.25, 0.5, 0.75, 1, 9.25, 9.5, 9.75, 10):
                obj.max_delta = tol
                case = [offs, base, tol]
                rep.state(case)
                try:
                    with limit(20):
                        obj.set_good_ind()
                except Hang:
                    rep.violate(case, 'pairing does not terminate')
                    return
                judge(obj, pair(otime, [True] * 2, etime, [True] * 2, tol),
                      rep, case)
