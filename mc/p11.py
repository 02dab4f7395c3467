"""P11: loading a boundary file yields exactly its records in the window."""
import datetime as dt
import itertools
import os

from mc import gen, ref
from mc.gen import np

TECHNIQUE = ('exhaustive enumeration of generated boundary files x time '
             'windows x classes x correction forms loaded by the real '
             'classes; every attribute and the conversions of every record '
             'compared with the records the file was written from')
ORACLE = ('the record list each file was written from, filtered by the '
          'inclusive window')
BOUND = {'quick': '3 instruments x 2 classes x 2 hemispheres x 12 record '
                  'sets (0-5 records) x every window over {none, each record '
                  'time, +-1 s} squared; 11 correction forms; 9 text layouts; '
                  'reference latitudes; dual boundaries; unusable input; files '
                  'of 240 records with windows around 7 of them',
         'thorough': 'the same with windows for every correction form, '
                     'layout and reference latitude, and sets of up to 8 '
                     'records'}
JOB_CPU_LIMIT = 840
MIN = dt.timedelta(seconds=60)


def sets(inst, tier):
    """Lists of records (times of AMPERE have minutes only)."""
    base = []
    rads = (14.0, 9.25, 21.5, 17.125, 12.0, 30.5, 8.0, 11.0)
    for i in range(8):
        ext = {'num_sectors': 10 + i, 'a': 0.25 * i, 'r_err': 0.5 + i,
               'sc': 16 + i % 3, 'x_1': 1.5 + i, 'y_1': -2.25 - i,
               'x_2': 3.125 * i, 'y_2': 10.0 - i}
        base.append((rads[i], ext, 0.25 + 1.5 * i))
    cents = [(0.0, 0.0), (3.0, 4.0), (-3.0, 1.0), (-2.0, -5.5), (4.0, -1.0),
             (0.0, 2.0), (0.0, -2.0), (-2.5, 0.0)]

    def make(times, rot=0):
        out = []
        for k, t in enumerate(times):
            rad, ext, fom = base[(k + rot) % 8]
            x, y = cents[(k + 2 * rot) % 8]
            out.append(gen.rec(t, rad, x=x, y=y, fom=fom, extra=ext))
        return out

    t0 = dt.datetime(2004, 2, 28, 23, 58)
    out = [make([]), make([t0]), make([t0, t0 + 2 * MIN]),
           make([t0 + k * MIN for k in range(3)], 1),
           make([t0 + k * MIN for k in range(5)], 2),
           # repeated times, times out of order
           make([t0, t0, t0 + MIN, t0 + MIN], 3),
           make([t0 + 3 * MIN, t0, t0 + MIN], 4),
           # year and leap day boundaries, widely spaced
           make([dt.datetime(2003, 12, 31, 23, 59), dt.datetime(2004, 1, 1),
                 dt.datetime(2004, 2, 29, 12, 0), dt.datetime(2004, 12, 31),
                 dt.datetime(2005, 3, 1, 0, 1)], 5),
           make([dt.datetime(1999, 1, 1)], 6),
           make([dt.datetime(2016, 12, 31, 23, 59)], 7)]
    if inst != 'ampere':
        out += [make([t0 + dt.timedelta(seconds=k) for k in (0, 1, 59, 119)]),
                make([dt.datetime(2012, 12, 31, 23, 59, 59),
                      dt.datetime(2013, 1, 1, 0, 0, 1)], 2)]
    # undefined values
    recs = make([t0, t0 + MIN, t0 + 2 * MIN], 2)
    recs[1]['r'] = float('nan')
    recs[2]['fom'] = float('nan')
    out.append(recs)
    if tier == 'thorough':
        out.append(make([t0 + 7 * k * MIN for k in range(8)], 3))
        out.append(make([t0 + k * dt.timedelta(days=31) for k in range(7)]))
    return out


def windows(recs):
    edges = {None}
    for rr in recs:
        for sec in (-1, 0, 1):
            edges.add(rr['t'] + dt.timedelta(seconds=sec))
    if len(edges) == 1:
        edges.add(gen.T0)
    # a fraction of a second outside
    for rr in recs[:1]:
        edges.add(rr['t'] + dt.timedelta(microseconds=1))
    edges = sorted(edges, key=lambda v: dt.datetime.min if v is None else v)
    return list(itertools.product(edges, edges))


def select(recs, stime, etime):
    return [rr for rr in recs if (stime is None or rr['t'] >= stime)
            and (etime is None or rr['t'] <= etime)]


INSTS = ['image', 'ampere', 'dmsp-ssj']


def jobs(tier):
    out = []
    for inst, cls in itertools.product(INSTS, ('ocb', 'eab')):
        for hemi in (1, -1):
            out.append(('window', [tier, inst, cls, hemi]))
            out.append(('rfuncs', [tier, inst, cls, hemi]))
        out.append(('layout', [tier, inst, cls]))
        out.append(('latitude', [tier, inst, cls]))
        out.append(('long', [tier, inst, cls]))
    out.append(('duals', [tier, 1]))
    out.append(('duals', [tier, -1]))
    out.append(('unusable', [tier]))
    return out


def klass(cls):
    return gen.ocbpy.EABoundary if cls == 'eab' else gen.ocbpy.OCBoundary


def eq(got, want):
    return (got != got and want != want) or abs(got - want) <= 1e-9 * max(
        1.0, abs(want))


def columns(inst, rr):
    """Every value a record of the file must have."""
    ext = rr['extra'] or {}
    out = {'r': rr['r'], 'fom': gen.GOOD[inst] if rr['fom'] is None
           else rr['fom'], 'r_cent': rr['rc']}
    if inst == 'image':
        out.update({k: ext[k] for k in ('num_sectors', 'a', 'r_err')})
        out['year'] = rr['t'].year
        out['soy'] = (rr['t'] - dt.datetime(rr['t'].year, 1, 1)
                      ).total_seconds()
    else:
        out.update({'x': rr['x'], 'y': rr['y']})
    if inst == 'dmsp-ssj':
        out.update({k: ext[k] for k in ('sc', 'x_1', 'y_1', 'x_2', 'y_2')})
    return out


def limits(inst):
    return gen.LIMITS[inst]


def verify(obj, inst, cls, hemi, recs, corr, blat, rep, case, convert=True):
    """Compare a loaded object with the records."""
    rep.state(case)
    rep.step(1, 'load')
    bad = []
    if obj.records != len(recs):
        rep.violate(case, 'number of records', obj.records, len(recs))
        return
    if list(obj.dtime) != [rr['t'] for rr in recs]:
        bad.append(('times', list(obj.dtime), [rr['t'] for rr in recs]))
    if 'ocb' not in case[-1:] and 'eab' not in case[-1:] and (
            obj.rec_ind not in (-1, 0)):
        bad.append(('initial position', obj.rec_ind, -1))
    if (obj.min_fom, obj.max_fom) != limits(inst):
        bad.append(('quality limits', [obj.min_fom, obj.max_fom],
                    limits(inst)))
    if obj.instrument != inst or obj.hemisphere != hemi:
        bad.append(('settings', [obj.instrument, obj.hemisphere],
                    [inst, hemi]))
    if not eq(float(obj.boundary_lat), blat):
        bad.append(('reference latitude', obj.boundary_lat, blat))
    for i, rr in enumerate(recs):
        for key, val in columns(inst, rr).items():
            arr = getattr(obj, key, None)
            if arr is None or np.shape(arr) != (len(recs),) or not eq(
                    float(arr[i]), float(val)):
                bad.append((key, arr, [i, val]))
        if inst in ('ampere', 'dmsp-ssj'):
            if not str(obj.date[i]) == rr['t'].strftime(
                    '%Y%m%d' if inst == 'ampere' else '%Y-%m-%d'):
                bad.append(('date', obj.date[i], rr['t']))
        ok = np.shape(obj.phi_cent) == (len(recs),)
        if ok and rr['rc'] > 0.0:
            ok = gen.close_mlt(float(obj.phi_cent[i]), rr['phi'], 1e-9, 360.0)
            ok = ok and 0.0 <= obj.phi_cent[i] <= 360.0
        if not ok:
            bad.append(('centre angle', obj.phi_cent, [i, rr['phi']]))
        if bad:
            break
    for key in ('rfunc', 'rfunc_kwargs'):
        if np.shape(getattr(obj, key)) != (len(recs),):
            bad.append((key, np.shape(getattr(obj, key)), len(recs)))
    if not bad:
        for i, rr in enumerate(recs):
            for mlt in (0.0, 5.25, 13.0, 21.5):
                rep.step(1, 'correction')
                got = obj.rfunc[i](mlt, **obj.rfunc_kwargs[i])
                if not gen.close(float(got), corr[i](mlt), 1e-9):
                    bad.append(('correction', got, [i, corr[i](mlt)]))
            if not convert:
                continue
            obj.rec_ind = i
            model = ref.Bound(rr['r'], rr['phi'], rr['rc'], hemi, blat,
                              corr[i])
            for lat, mlt in ((81.0, 3.5), (62.0, 17.0)):
                rep.step(1, 'convert')
                got = obj.normal_coord(hemi * lat, mlt)
                want = model.normal(hemi * lat, mlt)
                if not (gen.close(float(got[0]), want[0], 1e-7)
                        and gen.close_mlt(float(got[1]), want[1], 1e-7)
                        and gen.close(float(got[2]), want[2], 1e-7)):
                    bad.append(('conversion', got, want))
        obj.rec_ind = -1
    rep.trace(case, [obj.records, [v[0] for v in bad]])
    for what, got, want in bad[:2]:
        rep.violate(case, what, got, want)


def default_corr(inst, cls):
    if inst == 'ampere' and cls == 'ocb':
        return ref.elliptical
    return lambda m: 0.0


def window(params, rep):
    tier, inst, cls, hemi = params
    blat = hemi * (64.0 if cls == 'eab' else 74.0)
    corr = default_corr(inst, cls)
    for iset, recs in enumerate(sets(inst, tier)):
        if not recs and inst != 'dmsp-ssj':
            continue
        path = gen.write(inst, recs)
        for stime, etime in windows(recs):
            want = select(recs, stime, etime)
            kw = {'stime': stime, 'etime': etime}
            obj = klass(cls)(filename=path, instrument=inst, hemisphere=hemi,
                             **kw)
            verify(obj, inst, cls, hemi, want, [corr] * len(want), blat, rep,
                   [inst, cls, hemi, iset, stime, etime],
                   convert=len(want) < 3 or stime is None)
        # A second object is not influenced by the first
        obj = klass(cls)(filename=path, instrument=inst, hemisphere=hemi)
        verify(obj, inst, cls, hemi, recs, [corr] * len(recs), blat, rep,
               [inst, cls, hemi, iset, 'again'])
        os.remove(path)


def long(params, rep):
    """Hundreds of records over a day boundary."""
    tier, inst, cls = params
    blat = 64.0 if cls == 'eab' else 74.0
    corr = default_corr(inst, cls)
    num = 240 if tier == 'quick' else 2000
    some = sets(inst, tier)[4]
    recs = []
    for i in range(num):
        rr = dict(some[i % 5])
        rr['t'] = dt.datetime(2007, 12, 31, 21, 59) + i * MIN
        rr['r'] = 8.0 + 0.125 * (i % 101)
        recs.append(rr)
    path = gen.write(inst, recs)
    edges = [None] + [recs[i]['t'] + dt.timedelta(seconds=s) for i in (
        0, 1, 99, 100, 101, num - 2, num - 1) for s in (-1, 0, 1)]
    for stime, etime in itertools.product(edges, edges):
        want = select(recs, stime, etime)
        obj = klass(cls)(filename=path, instrument=inst, hemisphere=1,
                         stime=stime, etime=etime)
        verify(obj, inst, cls, 1, want, [corr] * len(want), blat, rep,
               [inst, cls, 'long', stime, etime], convert=stime is None)
    os.remove(path)


def rfuncs(params, rep):
    """Forms of the correction function and arguments, with windows."""
    tier, inst, cls, hemi = params
    blat = hemi * (64.0 if cls == 'eab' else 74.0)
    allsets = sets(inst, tier)
    for iset in (1, 3, 4) if tier == 'quick' else range(1, len(allsets)):
        recs = allsets[iset]
        path = gen.write(inst, recs)
        wins = [(None, None)]
        if len(recs) > 2:
            wins += [(recs[1]['t'], None), (None, recs[1]['t']),
                     (recs[1]['t'], recs[1]['t'])]
        if tier == 'thorough':
            wins = windows(recs)
        for (stime, etime), name in itertools.product(wins, gen.CORRS):
            want = select(recs, stime, etime)
            if not want and name in ('kwarray', 'array'):
                continue
            kw, corr = gen.corrections(name, inst, len(want), cls)
            obj = klass(cls)(filename=path, instrument=inst, hemisphere=hemi,
                             stime=stime, etime=etime, **kw)
            verify(obj, inst, cls, hemi, want, corr, blat, rep,
                   [inst, cls, hemi, iset, stime, etime, name])
        # arguments without a function belong to the default function
        for kws in ({}, None):
            obj = klass(cls)(filename=path, instrument=inst, hemisphere=hemi,
                             rfunc_kwargs=kws)
            verify(obj, inst, cls, hemi, recs, [default_corr(
                inst, cls)] * len(recs), blat, rep,
                [inst, cls, hemi, iset, 'no function', kws])
        if inst == 'ampere' and cls == 'ocb':
            obj = klass(cls)(filename=path, instrument=inst, hemisphere=hemi,
                             rfunc_kwargs={'method': 'gaussian'})
            verify(obj, inst, cls, hemi, recs, [lambda m: ref.elliptical(
                m, method='gaussian')] * len(recs), blat, rep,
                [inst, cls, hemi, iset, 'default function, gaussian'])
        else:
            obj = klass(cls)(filename=path, instrument=inst, hemisphere=hemi,
                             rfunc_kwargs={'r_add': -2.5})
            verify(obj, inst, cls, hemi, recs, [lambda m: -2.5] * len(recs),
                   blat, rep,
                   [inst, cls, hemi, iset, 'default function, r_add'])
        kws = np.array([{'r_add': 0.5 * i} for i in range(len(recs))])
        obj = klass(cls)(filename=path, instrument=inst, hemisphere=hemi,
                         rfunc=gen.ocbcor.circular, rfunc_kwargs=kws)
        verify(obj, inst, cls, hemi, recs,
               [lambda m, i=i: 0.5 * i for i in range(len(recs))], blat, rep,
               [inst, cls, hemi, iset, 'circular, array'])
        # wrong shapes and types are refused
        num = len(recs)
        for what, kw in (
                ('long', {'rfunc': np.full(num + 1, gen.ocbcor.circular)}),
                ('long kw', {'rfunc_kwargs': np.full(num + 1, {})}),
                ('type', {'rfunc': 'circular'}),
                ('list', {'rfunc': [gen.ocbcor.circular] * num}),
                ('type kw', {'rfunc_kwargs': 'r_add=2'})):
            rep.step(1, 'refuse')
            try:
                klass(cls)(filename=path, instrument=inst, hemisphere=hemi,
                           **kw)
                rep.violate([inst, cls, hemi, iset, what],
                            'bad correction accepted', 'object',
                            'ValueError')
            except ValueError:
                pass
            rep.trace([inst, cls, hemi, iset, what], 'refused')
        os.remove(path)


def texts(inst, recs):
    """The same file in other layouts."""
    head = ['#sc date time r x y fom x_1 y_1 x_2 y_2'] if inst == 'dmsp-ssj' \
        else []
    lines = [gen.line(inst, rr) for rr in recs]
    yield 'plain', '\n'.join(head + lines) + '\n'
    yield 'no final newline', '\n'.join(head + lines)
    yield 'tabs', '\n'.join(head + [v.replace(' ', '\t') for v in lines])
    yield 'wide', '\n'.join(head + ['  ' + v.replace(' ', '    ') + '  '
                                    for v in lines]) + '\n'
    yield 'crlf', '\r\n'.join(head + lines) + '\r\n'
    yield 'final blank line', '\n'.join(head + lines) + '\n\n'
    yield 'blank between', '\n\n'.join(head + lines) + '\n'
    expo = []
    for rr, text in zip(recs, lines):
        cols = text.split()
        skip = {'image': (0, 2), 'ampere': (0, 1), 'dmsp-ssj': (0, 1, 2)}
        expo.append(' '.join(v if i in skip[inst] else '%.14e' % float(v)
                             for i, v in enumerate(cols)))
    yield 'exponent', '\n'.join(head + expo) + '\n'
    yield 'signs', '\n'.join(head + [
        ' '.join('+' + v if i in (3, 4, 5) and v[0].isdigit()
                 and ':' not in v and inst != 'dmsp-ssj' else v
                 for i, v in enumerate(t.split())) for t in lines]) + '\n'


def layout(params, rep):
    tier, inst, cls = params
    allsets = sets(inst, tier)
    for iset in (1, 2, 4):
        recs = allsets[iset]
        for name, text in texts(inst, recs):
            for hemi in (1, -1):
                for kind, base in enumerate(('f.dat', 'a b.txt', 'DEFAULTS')):
                    path = os.path.join(gen.jobdir(), base)
                    with open(path, 'w', newline='') as fout:
                        fout.write(text)
                    wins = [(None, None), (recs[-1]['t'], None)]
                    if tier == 'thorough':
                        wins = windows(recs)
                    for stime, etime in wins:
                        want = select(recs, stime, etime)
                        arg = inst if kind != 1 else inst.upper()
                        obj = klass(cls)(filename=path, instrument=arg,
                                         hemisphere=hemi, stime=stime,
                                         etime=etime)
                        verify(obj, inst, cls, hemi, want,
                               [default_corr(inst, cls)] * len(want),
                               hemi * (64.0 if cls == 'eab' else 74.0), rep,
                               [inst, cls, hemi, iset, name, base, stime,
                                etime])
                        if obj.filename != path:
                            rep.violate([inst, cls, name, base], 'file name',
                                        obj.filename, path)
                    os.remove(path)


def latitude(params, rep):
    tier, inst, cls = params
    for iset in (1, 4):
        recs = sets(inst, tier)[iset]
        path = gen.write(inst, recs)
        for hemi in (1, -1):
            for mag in (60.0, 64.0, 70.5, 74.0, 77, 80.0, 88.25, 45.0):
                for blat in (mag, -mag, np.float64(mag), np.float64(-mag)):
                    wins = [(None, None), (recs[-1]['t'], None)]
                    if tier == 'thorough':
                        wins = windows(recs)
                    for stime, etime in wins:
                        want = select(recs, stime, etime)
                        obj = klass(cls)(filename=path, instrument=inst,
                                         hemisphere=hemi, boundary_lat=blat,
                                         stime=stime, etime=etime)
                        verify(obj, inst, cls, hemi, want,
                               [default_corr(inst, cls)] * len(want),
                               hemi * abs(float(blat)), rep,
                               [inst, cls, hemi, iset, float(blat),
                                type(blat).__name__, stime])
            obj = klass(cls)(filename=path, instrument=inst, hemisphere=hemi,
                             boundary_lat=None)
            rep.step(1, 'load')
            if not (np.sign(obj.boundary_lat) == hemi
                    and 45.0 < abs(obj.boundary_lat) < 90.0):
                rep.violate([inst, cls, hemi, 'None'], 'reference latitude',
                            obj.boundary_lat, hemi)
        os.remove(path)


def duals(params, rep):
    """A dual boundary loads its members with the arguments of each."""
    tier, hemi = params
    for oinst, einst in itertools.product(INSTS, INSTS):
        orecs = sets(oinst, tier)[3]
        erecs = sets(einst, tier)[4]
        opath, epath = gen.write(oinst, orecs), gen.write(einst, erecs)
        for stime, etime in windows(orecs):
            if tier == 'quick' and not (stime is None or etime is None):
                continue
            ow, ew = select(orecs, stime, etime), select(erecs, stime, etime)
            for oname, ename in (('default', 'default'), ('circ', 'kwarray'),
                                 ('array', 'bump'), ('bump', 'default'),
                                 ('default', 'ell')):
                if (not ow or not ew) and oname != 'default':
                    continue
                okw, ocorr = gen.corrections(oname, oinst, len(ow), 'ocb')
                ekw, ecorr = gen.corrections(ename, einst, len(ew), 'eab')
                kws = {'ocb_' + k: v for k, v in okw.items()}
                kws.update({'eab_' + k: v for k, v in ekw.items()})
                for olat, elat in ((74.0, 64.0), (-77.0, 61.0)):
                    case = [hemi, oinst, einst, stime, etime, oname, ename,
                            olat]
                    obj = gen.ocbpy.DualBoundary(
                        eab_filename=epath, ocb_filename=opath,
                        eab_instrument=einst, ocb_instrument=oinst,
                        hemisphere=hemi, stime=stime, etime=etime,
                        ocb_lat=olat, eab_lat=elat, **kws)
                    verify(obj.ocb, oinst, 'ocb', hemi, ow, ocorr,
                           hemi * abs(olat), rep, case + ['ocb'], False)
                    verify(obj.eab, einst, 'eab', hemi, ew, ecorr,
                           hemi * abs(elat), rep, case + ['eab'], False)
                    if type(obj.ocb).__name__ != 'OCBoundary' or type(
                            obj.eab).__name__ != 'EABoundary':
                        rep.violate(case, 'member classes', type(obj.ocb),
                                    type(obj.eab))
        os.remove(opath)
        os.remove(epath)


def unusable(params, rep):
    """Nothing is loaded from unusable input, without an error."""
    base = gen.jobdir()
    empty = os.path.join(base, 'empty')
    open(empty, 'w').close()
    nothing = []
    for cls, hemi, inst in itertools.product(('ocb', 'eab'), (1, -1), INSTS):
        for path in (None, os.path.join(base, 'missing.dat'), base, empty, 5,
                     ''):
            nothing.append((cls, hemi, {'filename': path,
                                        'instrument': inst}))
        nothing.append((cls, hemi, {'filename': None, 'instrument': inst,
                                    'stime': gen.T0, 'etime': gen.T0}))
        nothing.append((cls, hemi, {'filename': None, 'instrument': inst,
                                    'rfunc': gen.ocbcor.circular,
                                    'rfunc_kwargs': {'r_add': 1.0}}))
    for cls, hemi in itertools.product(('ocb', 'eab'), (1, -1)):
        nothing.append((cls, hemi, {'filename': None, 'instrument': ''}))
        nothing.append((cls, hemi, {'filename': None, 'instrument': 5}))
        nothing.append((cls, hemi, {'filename': empty, 'instrument': None}))
    for cls, hemi, kw in nothing:
        case = [cls, hemi, sorted((k, str(v).replace(base, ''))
                                  for k, v in kw.items())]
        rep.state(case)
        rep.step(1, 'unusable')
        obj = klass(cls)(hemisphere=hemi, **kw)
        got = [obj.records, obj.dtime is None, obj.r is None,
               obj.filename is None, np.sign(obj.boundary_lat) == hemi]
        rep.trace(case, got)
        if got != [0, True, True, True, True]:
            rep.violate(case, 'object without data', got, 'nothing loaded')
        out = obj.normal_coord(hemi * 75.0, 3.0)
        if not all(v != v for v in out[:2]):
            rep.violate(case, 'conversion without data', out, 'undefined')
    path = gen.write('image', sets('image', 'quick')[3])
    for cls, hemi in itertools.product(('ocb', 'eab'), (0, 2, -2, None)):
        rep.step(1, 'refuse')
        try:
            klass(cls)(filename=path, instrument='image', hemisphere=hemi)
            rep.violate([cls, hemi], 'bad hemisphere accepted')
        except ValueError:
            pass
    rep.trace('hemisphere', 'refused')
