"""P01: cycling visits exactly the good boundary records, in order.

State: (loaded records, cursor, selection).  Every record pattern over an
alphabet of figures of merit around each limit, every cursor position, every
selection; the cycle is walked to its end on the real object and compared with
the reference selection, the complete list is requested from every cursor.
"""
import itertools

from mc import gen, ref
from mc.gen import np

TECHNIQUE = ('exhaustive explicit-state exploration of cursor x selection x '
             'record pattern on the real cycling code, lock-step with a '
             'reference selection model')
ORACLE = 'record-by-record selection written from the documented criteria'
BOUND = {'quick': 'all patterns of up to 5 records over 6 figures of merit '
                  '(three instruments), all cursors, all selections; 12 '
                  'records with every 2-criteria combination; 250 records '
                  'with long runs of bad ones',
         'thorough': 'all patterns of up to 6 records over 6 figures of '
                     'merit, all cursors and selections, all 3-criteria '
                     'combinations'}

NAN = float('nan')
FOMS = {'image': [0.0, 4.99, 5.0, 5.01, 9.0, NAN],
        'ampere': [-1.0, 0.14, 0.15, 0.16, 3.0, NAN],
        'dmsp-ssj': [0.0, 2.99, 3.0, 3.01, 4.0, NAN]}
SEL = {'image': [{}, {'min_merit': 4.99}, {'max_merit': 4.99},
                 {'min_merit': 5.01, 'max_merit': 9.0}, {'max_merit': 9.0},
                 {'min_merit': 0, 'max_merit': 0}],
       'ampere': [{}, {'min_merit': 0.16}, {'max_merit': 0.16},
                  {'min_merit': -1.0, 'max_merit': 0.14}, {'min_merit': 0.0},
                  {'min_merit': 0.15, 'max_merit': 0.15}],
       'dmsp-ssj': [{}, {'min_merit': 3.01}, {'max_merit': 3.01},
                    {'min_merit': 0.0, 'max_merit': 2.99}, {'min_merit': 0},
                    {'min_merit': 3.0, 'max_merit': 3.0}]}
KINDS = ['min', 'mineq', 'max', 'maxeq', 'equal']


def jobs(tier):
    nmax = 5 if tier == 'quick' else 6
    out = []
    for inst in FOMS:
        for first in range(len(FOMS[inst])):
            for second in range(len(FOMS[inst])):
                out.append(('patterns', [inst, first, second, nmax]))
        for hemi in (1, -1):
            out.append(('criteria', [inst, hemi, 2 if tier == 'quick' else 3]))
        out.append(('long', [inst, tier]))
    out.append(('empty', []))
    return out


def long(params, rep):
    """Hundreds of records with long runs of bad ones."""
    inst, tier = params
    num = 250 if tier == 'quick' else 1200
    lo, hi = gen.LIMITS[inst]
    for run, every in itertools.product((0, 1, 30, 120, num), (1, 2, 7)):
        fom = [gen.BAD[inst] if 60 <= i < 60 + run or i % every else
               gen.GOOD[inst] for i in range(num)]
        rad = [12.0 + i % 9 for i in range(num)]
        obj = gen.ocb(inst, [gen.rec(60 * i, rad[i], 1.0, 2.0, fom=f)
                             for i, f in enumerate(fom)])
        for sel in ({}, {'r': ('max', 15.0)}, {'r': ('equal', 20.0)}):
            compare(obj, {'r': rad}, fom, lo, hi, sel, rep,
                    (inst, ['long', run, every]),
                    starts=(-1, 0, 59, 100, num - 1, num))


def cycle(obj, start, sel, nrec):
    """Real walk from a cursor: visited indices and the final cursor."""
    obj.rec_ind = start
    seen = []
    for _ in range(nrec + 2):
        obj.get_next_good_ocb_ind(**dict(sel))
        if obj.rec_ind >= obj.records:
            break
        seen.append(int(obj.rec_ind))
    return seen


def compare(obj, vals, fom, lo, hi, sel, rep, case, starts=None):
    nrec = len(fom)
    crit = {k: v for k, v in sel.items() if k not in ('min_merit',
                                                      'max_merit')}
    slo = sel.get('min_merit', lo)
    shi = sel.get('max_merit', hi)
    want = [i for i in range(nrec) if ref.good(
        {k: vals[k][i] for k in vals}, fom[i], slo, shi, crit)]
    frozen = {k: v for k, v in sel.items()}
    for start in (range(-1, nrec + 2) if starts is None else starts):
        rep.state((case[0], case[1], start, sel))
        obj.rec_ind = start
        allgood = ocbpy_all(obj, sel)
        rep.step(1, 'retrieve_all')
        if list(allgood) != want:
            rep.violate(list(case) + [start, sel], 'retrieve_all_good_indices '
                        'differs from the good records', allgood, want)
        if obj.rec_ind != start:
            rep.violate(list(case) + [start, sel], 'retrieve_all_good_indices '
                        'moved the cursor', obj.rec_ind, start)
        seen = cycle(obj, start, sel, nrec)
        exp = [i for i in want if i > start]
        rep.step(len(seen) + 1, 'next')
        if seen != exp:
            rep.violate(list(case) + [start, sel],
                        'cycling visits the wrong records', seen, exp)
        if obj.rec_ind < obj.records:
            rep.violate(list(case) + [start, sel], 'cycling does not end',
                        obj.rec_ind, obj.records)
        rep.trace(list(case) + [start, sel], (seen, list(allgood)))
    if sel != frozen:
        rep.violate(list(case) + [sel], 'selection was modified', sel, frozen)


def ocbpy_all(obj, sel):
    from ocbpy.cycle_boundary import retrieve_all_good_indices
    return retrieve_all_good_indices(obj, **sel)


def patterns(params, rep):
    inst, first, second, nmax = params
    foms = FOMS[inst]
    lo, hi = gen.LIMITS[inst]
    for nrec in range(1, nmax + 1):
        for rest in itertools.product(range(len(foms)),
                                      repeat=max(nrec - 2, 0)):
            if nrec == 1 and second > 0:
                continue
            pat = ((first, second) + rest)[:nrec]
            fom = [foms[i] for i in pat]
            recs = [gen.rec(60 * i, 14.0 + i, 1.0, 2.0, fom=f)
                    for i, f in enumerate(fom)]
            hemi = 1 if sum(pat) % 2 else -1
            cls = gen.ocbpy.EABoundary if sum(pat) % 3 == 0 else None
            obj = gen.ocb(inst, recs, hemi, cls=cls)
            if obj.rec_ind != -1 or obj.records != nrec:
                rep.violate([inst, pat], 'loaded object not before the first '
                            'record', [obj.rec_ind, obj.records], [-1, nrec])
            for sel in SEL[inst]:
                compare(obj, {}, fom, lo, hi, sel, rep, (inst, list(pat)))


def criteria(params, rep):
    """Every combination of selection criteria on every loaded quantity."""
    inst, hemi, depth = params
    lo, hi = gen.LIMITS[inst]
    good, bad = gen.GOOD[inst], gen.BAD[inst]
    foms = [good, good, bad, good, NAN, good, good, good, bad, good, good,
            good]
    rad = [14, 15, 16, 14, 15, 16, NAN, 14, 15, 16, 14, 15]
    xval = [-2, 2, -2, 0, 0, 0, 2, 2, -2, 2, NAN, 0]
    yval = [1, 1, 1, 3, 3, 3, 3, 1, 3, 1, 3, 1]
    phis = [10, 20, 30, 10, 20, 30, 10, 20, 30, 10, 20, 30]
    rcs = [1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2]
    recs = []
    for i in range(12):
        if inst == 'image':
            rr = gen.rec(60 * i, rad[i], phi=phis[i], rc=rcs[i], fom=foms[i],
                         extra={'num_sectors': 20 + i % 3, 'a': i % 2,
                                'r_err': 0.1 * (i % 4)})
        else:
            rr = gen.rec(60 * i, rad[i], 0.0, 0.0, fom=foms[i],
                         extra={'sc': 16 + i % 3, 'x_1': i % 2, 'y_2': i % 5})
            rr['x'], rr['y'] = xval[i], yval[i]
        recs.append(rr)
    obj = gen.ocb(inst, recs, hemi)
    if inst == 'image':
        names = {'r': [15.0], 'phi_cent': [20.0], 'r_cent': [1.0],
                 'num_sectors': [21], 'a': [0.0, 1], 'r_err': [0.2],
                 'fom': [good]}
        vals = {'r': rad, 'phi_cent': phis, 'r_cent': rcs,
                'num_sectors': [20 + i % 3 for i in range(12)],
                'a': [i % 2 for i in range(12)],
                'r_err': [0.1 * (i % 4) for i in range(12)], 'fom': foms}
    else:
        names = {'r': [15.0], 'x': [0.0, 2], 'y': [1.0], 'fom': [good],
                 'r_cent': [float(np.hypot(2, 1))]}
        vals = {'r': rad, 'x': xval, 'y': yval, 'fom': foms,
                'r_cent': [float(np.hypot(x, y)) for x, y in zip(xval, yval)]}
        if inst == 'dmsp-ssj':
            names.update({'sc': [17], 'x_1': [0.0], 'y_2': [3.0]})
            vals.update({'sc': [16 + i % 3 for i in range(12)],
                         'x_1': [i % 2 for i in range(12)],
                         'y_2': [i % 5 for i in range(12)]})
    names['dtime'] = [recs[5]['t']]
    vals['dtime'] = [rr['t'] for rr in recs]
    names['no_such_quantity'] = [1.0]
    atoms = [(n, (k, v)) for n in names for k in KINDS for v in names[n]]
    extra = [{}, {'min_merit': bad}, {'max_merit': good}]
    for num in range(0, depth + 1):
        for comb in itertools.combinations(atoms, num):
            keys = [c[0] for c in comb]
            if len(set(keys)) < len(keys):
                continue
            if num == 3 and 'no_such_quantity' in keys:
                continue
            for ext in (extra if num < 2 else extra[:1]):
                sel = dict(comb)
                sel.update(ext)
                compare(obj, vals, foms, lo, hi, sel, rep, (inst, hemi),
                        starts=None if num < 2 else (-1, 3))


def empty(params, rep):
    """Objects without any records."""
    for inst in FOMS:
        for cls in (gen.ocbpy.OCBoundary, gen.ocbpy.EABoundary):
            obj = cls(filename=None, instrument=inst)
            rr = gen.ocb(inst, [gen.rec(0)], cls=cls,
                         stime=gen.T0 + gen.dt.timedelta(days=3))
            for label, oo in (('none', obj), ('window', rr)):
                for start in (-1, 0, 1):
                    for sel in ({}, {'min_merit': 0.0},
                                {'r': ('min', 1.0)}):
                        oo.rec_ind = start
                        out = ocbpy_all(oo, sel)
                        rep.step(2)
                        rep.state((inst, label, cls.__name__, start, sel))
                        if len(out) or oo.rec_ind != start:
                            rep.violate([inst, label, start], 'records found '
                                        'in an object without any', out, [])
                        oo.get_next_good_ocb_ind(**dict(sel))
                        if oo.rec_ind < oo.records:
                            rep.violate([inst, label, start], 'cursor in an '
                                        'empty object', oo.rec_ind, oo.records)
                        rep.trace([inst, label, start], (out, oo.rec_ind))
