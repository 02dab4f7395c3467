"""P15: SuperMAG conversion writes each usable observation once, correctly."""
import datetime as dt
import itertools
import math
import os

from mc import gen, ref
from mc.gen import np
from mc.p13 import sphere
from mc.p14 import RECS, SCALE
from ocbpy.instruments import supermag

TECHNIQUE = ('exhaustive enumeration of timelines of boundaries and '
             'observation blocks x tolerances, of completeness patterns of '
             'stations, and of locations x vectors x boundary kinds; each '
             'case is written as files, converted with the real converter '
             'and the written lines parsed')
ORACLE = ('model of the usable observations and their nearest boundary, '
          'independent coordinates, rotation and scaling; loader output '
          'equal to the written blocks')
BOUND = {'quick': '8 goodness patterns x 127 subsets of 7 block times x 5 '
                  'tolerances x 3 spacings, and days to years '
                  'apart; 14 station states in every '
                  'triple x 3 hemisphere requests; 2 hemispheres x 6 '
                  'boundary kinds x 10 corrections x 4 scale functions x 48 '
                  'locations; block layouts of the loader',
         'thorough': '16 patterns x 511 subsets of 9 block times x 7 '
                     'tolerances; every triple x all requests x 4 kinds; 240 '
                     'locations'}
JOB_CPU_LIMIT = 840
ASSUMPTIONS = ['written values hold two decimals', 'blocks name at least one '
               'station']
FILL = 999999.0
HEAD = [' ', 'File is based on SuperMAG data, made for this check.',
        'Data gap identifier is 999999.', '',
        '<stid> <N> <E> <Z> <MLT> <MLAT> <DEC> <SZA>', '=' * 60]
T0 = gen.T0


def station(sid, n=100.0, e=-40.0, z=25.0, mlt=3.0, mlat=75.0, dec=20.0,
            sza=80.0):
    return [sid, n, e, z, mlt, mlat, dec, sza]


def block(t, stations, sml=-195, smu=124):
    if not isinstance(t, dt.datetime):
        t = T0 + dt.timedelta(seconds=t)
    return {'t': t, 'stations': stations, 'SML': sml, 'SMU': smu}


def write(blocks, path=None, head=HEAD, sep='\t', order=('SML', 'SMU'),
          last=True, end='\n'):
    path = path or os.path.join(gen.jobdir(), 'smag')
    lines = list(head)
    for blk in blocks:
        t = blk['t']
        lines.append(sep.join('%02d' % v for v in (
            t.year, t.month, t.day, t.hour, t.minute, t.second,
            len(blk['stations']))))
        for key in order:
            if blk[key] is not None:
                lines.append('%s %d' % (key, blk[key]))
        for stn in blk['stations']:
            lines.append(sep.join([stn[0]] + ['999999' if v == FILL
                                              else '%r' % v
                                              for v in stn[1:]]))
    with open(path, 'w', newline='') as fout:
        fout.write(end.join(lines) + (end if last else ''))
    return path


COLS = 'STID SML SMU SZA MLAT MLT BMAG BN BE BZ OCB_MLAT OCB_MLT OCB_BMAG ' \
       'OCB_BN OCB_BE OCB_BZ'.split()


def parse(path):
    with open(path) as fin:
        lines = fin.read().split('\n')
    if lines[0].split() != ['#DATE', 'TIME', 'NST'] + COLS:
        return lines[0], None
    out = []
    for line in lines[1:]:
        if not line:
            continue
        part = line.split()
        rec = {'t': dt.datetime.strptime(' '.join(part[:2]),
                                         '%Y-%m-%d %H:%M:%S'),
               'NST': int(part[2]), 'STID': part[3], 'SML': int(part[4]),
               'SMU': int(part[5]), 'num': len(part)}
        rec.update(zip(COLS[3:], [float(p) for p in part[6:]]))
        out.append(rec)
    return lines[0], out


def complete(stn, hemi):
    return (all(v != FILL for v in stn[1:6])
            and ref.sign(stn[5]) == hemi)


def factor(bound, corr, power, blat, dual=None):
    return ((bound.r + corr) / (90.0 - abs(blat)))**power


def convert(stn, bounds, power):
    """Expected values of a line for a boundary -> values, defect values"""
    single = bounds.ob if isinstance(bounds, ref.Dual) else bounds
    n, e, z, mlt, mlat = stn[1:6]
    if isinstance(bounds, ref.Dual):
        lat, lt, _, corr, _, margin = bounds.normal(mlat, mlt)
    else:
        lat, lt, corr = bounds.normal(mlat, mlt)
        margin = 1.0
    fac = ((single.r + corr) / (90.0 - abs(single.blat)))**power
    plt, plat = single.phi / 15.0 % 24.0, 90.0 - single.rc
    la = abs(mlat)
    bad = None
    if single.hemi > 0:
        wn, we, _, dist = sphere(mlt, la, n, e, plt, plat)
    else:
        wn, we, _, dist = sphere(mlt, -la, -n, -e, plt, -plat)
        fn, fe, _, _ = sphere(mlt, -la, n, e, plt, plat)
        bad = (float(fn) * fac, float(fe) * fac)
    out = {'SZA': stn[7], 'MLAT': mlat, 'MLT': mlt, 'BN': n, 'BE': e, 'BZ': z,
           'BMAG': math.sqrt(n * n + e * e + z * z), 'OCB_MLAT': lat,
           'OCB_MLT': lt, 'OCB_BN': float(wn) * fac, 'OCB_BE': float(we) * fac,
           'OCB_BZ': z * fac,
           'OCB_BMAG': math.sqrt(n * n + e * e + z * z) * fac}
    return out, bad, margin


def agree(got, want, keys):
    for key in keys:
        w, g = want[key], got[key]
        if w == FILL and key in ('SZA', 'DEC'):
            w = float('nan')
        if key in ('MLT', 'OCB_MLT'):
            if not gen.close_mlt(g, w, 0.00502):
                return key
        elif w != w:
            if g == g:
                return key
        elif not abs(g - w) <= 0.00502 + 1.0e-5 * abs(w):
            return key
    return None


LOC = ['SZA', 'MLAT', 'MLT', 'BMAG', 'BN', 'BE', 'BZ', 'OCB_MLAT', 'OCB_MLT',
       'OCB_BMAG', 'OCB_BZ']


def compare(rep, case, path, blocks, hemi, choose, power):
    """Written lines against the model; ``choose`` gives for a time the
    allowed reference boundaries (empty: no line)."""
    rep.step(1, case['func'])
    head, got = parse(path)
    if got is None:
        rep.violate(case, 'first line', head)
        return
    want = []
    merged = {}
    for blk in blocks:
        merged.setdefault(blk['t'], []).extend(
            (blk, s) for s in blk['stations'] if complete(s, hemi))
    for t in sorted(merged):
        refs = choose(t)
        if refs:
            want += [(t, blk, s, refs, len(merged[t])) for blk, s in
                     merged[t]]
    rep.outcome((len(want), len(blocks)))
    if [(g['t'], g['STID']) for g in got] != [(w[0], w[2][0]) for w in want]:
        rep.violate(case, 'observations written',
                    [(str(g['t']), g['STID']) for g in got],
                    [(str(w[0]), w[2][0]) for w in want])
        return
    for i, (g, (t, blk, stn, refs, num)) in enumerate(zip(got, want)):
        rep.step(1, 'lines')
        if g['NST'] != num or g['num'] != 19:
            rep.violate(case, 'number of stations of line %d' % i, g['NST'],
                        num)
        for key in ('SML', 'SMU'):
            if g[key] != (999999 if blk[key] is None else blk[key]):
                rep.violate(case, '%s of line %d' % (key, i), g[key],
                            blk[key])
        why = None
        for bounds in refs:
            exp, bad, margin = convert(stn, bounds, power)
            keys = LOC
            if margin < 1.0e-6:
                keys = [k for k in LOC if k != 'OCB_MLAT']
            why = agree(g, exp, keys)
            if why is None:
                why = agree(g, exp, ['OCB_BN', 'OCB_BE'])
                if why is not None and bad is not None and agree(
                        g, {'OCB_BN': bad[0], 'OCB_BE': bad[1]},
                        ['OCB_BN', 'OCB_BE']) is None:
                    rep.know('southern-vectors', 'horizontal components of '
                             'southern observations are relative to the '
                             'mirror image of the boundary pole')
                    why = None
            if why is None:
                break
        if why is not None:
            rep.violate(dict(case, station=stn, time=str(t)),
                        '%s of line %d' % (why, i), g,
                        exp)
            return


# Boundaries ---------------------------------------------------------------
def make(kind, name, hemi, blat, times, goodness, path=False):
    """Boundary with a record at each time -> object, references, times of
    the good records.  Every record has its own centre and radius."""
    num = len(times)
    shape = [RECS[i % 4] for i in range(num)]
    shape = [(r + 0.5 * (i // 4), p + 20.0 * (i // 4), c)
             for i, (r, p, c) in enumerate(shape)]
    inst = {'dual': 'dmsp-ssj', 'eab': 'image'}.get(kind, kind)
    cls = 'eab' if kind == 'eab' else 'ocb'
    kw, corr = gen.corrections(name, inst, num, cls)
    foms = [gen.GOOD[inst] if g else gen.BAD[inst] for g in goodness]
    recs = [gen.rec(t, r, phi=p, rc=c, fom=f)
            for t, (r, p, c), f in zip(times, shape, foms)]
    bounds = [ref.Bound(r, p, c, hemi, blat, corr[i])
              for i, (r, p, c) in enumerate(shape)]
    good = [t for t, g in zip(times, goodness) if g]
    if kind == 'dual':
        erec = [gen.rec(t, 31.0 + i, phi=80.0 * i, rc=1.0)
                for i, t in enumerate(times)]
        duals = [ref.Dual(b, ref.Bound(31.0 + i, 80.0 * i, 1.0, hemi,
                                       blat - 12.0))
                 for i, b in enumerate(bounds)]
        obj = gen.dual(inst, recs, 'image', erec, hemi, 30,
                       olat=hemi * blat, elat=hemi * (blat - 12.0), okw=kw)
        return obj, duals, good
    if path:
        return gen.write(inst, recs), bounds, good
    func = gen.eab if kind == 'eab' else gen.ocb
    obj = func(inst, recs, hemi, boundary_lat=hemi * blat, **kw)
    return obj, bounds, good


def chooser(times, goodness, bounds, tol, extra=None):
    def choose(t):
        if t == t.replace(microsecond=0):
            sec = (t - T0).total_seconds()
        best = [(abs(b - sec), i) for i, b in enumerate(times)
                if goodness[i] and abs(b - sec) <= tol]
        if not best:
            return []
        low = min(best)[0]
        return [bounds[i] for d, i in best if d == low]
    return choose


def run(blocks, out, **kwargs):
    path = write(blocks)
    supermag.supermag2ascii_ocb(path, out, **kwargs)


def timeline(params, rep):
    """Boundaries and blocks in time"""
    out = os.path.join(gen.jobdir(), 'smag.out')
    grid, tols = params['grid'], params['tols']
    times = params['times']
    kind, hemi = params['kind'], params['hemi']
    num = 0
    for goodness in itertools.product([True, False], repeat=len(times)):
        if kind == 'dual' and not any(goodness):
            continue
        base, bounds, good = make(kind, 'default', hemi, 74.0, times,
                                  goodness)
        for mask in range(1, 2**len(grid)):
            num += 1
            secs = [t for i, t in enumerate(grid) if mask >> i & 1]
            blocks = [block(t, [station('S%d' % i, mlat=hemi * (
                70.0 + i % 9), mlt=(2.0 * i + 0.5) % 24, n=50.0 + 10 * i)]
                + ([station('X%d' % i, mlat=hemi * 81.0, mlt=19.0)]
                   if (num + i) % 3 == 0 else []), sml=-100 - i, smu=i)
                for i, t in enumerate(secs)]
            for k, tol in enumerate(tols):
                if params['thin'] and (num + k) % params['thin']:
                    continue
                obj = base
                start = [-1, 0][num % 2]
                if any(goodness):
                    first = goodness.index(True)
                    obj.rec_ind = -1 if start < 0 else (
                        0 if kind == 'dual' else first)
                else:
                    obj.rec_ind = -1
                for k in (['ocb', 'eab'] if kind == 'dual' else []):
                    getattr(obj, k).rec_ind = -1
                if kind == 'dual' and obj.rec_ind == 0:
                    obj.rec_ind = 0
                case = {'func': 'timeline', 'kind': kind, 'hemi': hemi,
                        'bounds': times, 'good': goodness, 'data': secs,
                        'tol': tol, 'start': int(obj.rec_ind)}
                run(blocks, out, ocb=obj, hemisphere=hemi if num % 3 else 0,
                    max_sdiff=tol)
                compare(rep, case, out, blocks, hemi, chooser(
                    times, goodness, bounds, tol), 2)
                rep.state((goodness, mask, tol, kind, hemi, tuple(times)))
    rep.trace({k: params[k] for k in ('kind', 'hemi', 'times')}, num)


STATES = {
    'good': {}, 'good2': {'mlat': 65.5, 'mlt': 14.25, 'n': -30.0, 'e': 60.0},
    'nobn': {'n': FILL}, 'nobe': {'e': FILL}, 'nobz': {'z': FILL},
    'nomlt': {'mlt': FILL}, 'nomlat': {'mlat': FILL}, 'other': {'mlat': -75.0},
    'equator': {'mlat': 0.0}, 'nosza': {'sza': FILL}, 'nodec': {'dec': FILL},
    'nothing': {k: FILL for k in ('n', 'e', 'z', 'mlt', 'mlat', 'dec',
                                  'sza')},
    'zero': {'n': 0.0, 'e': 0.0, 'z': 0.0}, 'low': {'mlat': 0.5, 'mlt': 0.0}}


def stations(params, rep):
    """Completeness patterns of the stations of consecutive blocks"""
    out = os.path.join(gen.jobdir(), 'smag.out')
    kind, hemi = params['kind'], params['hemi']
    names = list(STATES)
    times, good = [0, 300, 600], [True] * 3
    obj, bounds, _ = make(kind, 'default', hemi, 74.0, times, good)
    inst = kind if kind in gen.LIMITS else None
    path = None
    if inst and params['file']:
        path, _, _ = make(kind, 'default', hemi, 74.0, times, good, True)
    count = 0
    for trip in itertools.product(names, repeat=params['rest']):
        trip = tuple(params['first']) + trip
        count += 1
        stns = []
        for i, st in enumerate(trip):
            kw = dict({'mlat': 72.0 + i, 'mlt': 6.0 + i}, **STATES[st])
            if kw['mlat'] != FILL:
                kw['mlat'] *= hemi
            stns.append(station('ABC'[i % 3] * 3, **kw))
        # spread over blocks
        blocks = [[block(10, stns)],
                  [block(10, stns[:1]), block(250, stns[1:])],
                  [block(0, stns[:2]), block(300, stns[2:])],
                  [block(-5, stns[:1]), block(-5, stns[1:2]),
                   block(610, stns[2:])]][count % 4]
        for req in params['reqs']:
            for k in (['ocb', 'eab'] if kind == 'dual' else []):
                getattr(obj, k).rec_ind = -1
            obj.rec_ind = -1
            case = {'func': 'stations', 'kind': kind, 'hemi': hemi,
                    'states': trip, 'request': req, 'layout': count % 4}
            kw = {'max_sdiff': 120, 'hemisphere': hemi, 'ocb': obj}
            blat = 74.0
            power = 2
            if req == 'auto':
                kw['hemisphere'] = 0
            elif req == 'file':
                if path is None:
                    continue
                kw.update({'ocb': None, 'ocbfile': path, 'instrument': kind})
            elif req == 'filed':
                if path is None:
                    continue
                lats = [s[5] for b in blocks for s in b['stations']
                        if s[5] != FILL]
                kw.update({'ocb': None, 'ocbfile': path, 'instrument': kind,
                           'hemisphere': 0})
                if not lats or max(lats) == min(lats) == 0.0:
                    continue
                high, low = max(lats), min(lats)
                single = (ref.sign(high) or ref.sign(low))
                if high != 0 and ref.sign(high) != ref.sign(low):
                    # both hemispheres
                    try:
                        run(blocks, out, **kw)
                        rep.violate(case, 'both hemispheres accepted')
                    except ValueError:
                        pass
                    rep.step(1, 'mixed')
                    continue
                if single != hemi:
                    continue
            elif req == 'evar':
                kw['scale_func'] = SCALE[1][1]
                power = 1
            elif req == 'none':
                kw['scale_func'] = None
                power = 0
            elif req == 'criteria':
                # only the second record remains
                kw['r'] = ('max', 12.0)
                if kind == 'dual':
                    continue
            goodness = good
            if req == 'criteria':
                goodness = [False, True, False]
            run(blocks, out, **kw)
            compare(rep, case, out, [b for b in blocks if b['stations']],
                    hemi, chooser(times, goodness, bounds, 120), power)
            rep.state((trip, req, kind, hemi, count % 4))
    rep.trace({k: params[k] for k in ('kind', 'hemi', 'first')}, count)


def values(params, rep):
    """Locations x vectors x boundaries x scaling"""
    out = os.path.join(gen.jobdir(), 'smag.out')
    kind, hemi, name, blat = (params[k] for k in ('kind', 'hemi', 'name',
                                                  'blat'))
    times, good = [60 * i for i in range(4)], [True] * 4
    nloc = params['nloc']
    stns, count = [], 0
    for i in range(nloc):
        lat = 1.0 + 88.5 * ((i * 0.618034) % 1.0)**0.35
        lt = round((24.0 * i * 0.3819 + 0.07) % 24.0, 2)
        ang = 2.0 * math.pi * ((i * 0.7548) % 1.0)
        size = [800.0, 35.5, 250.0][i % 3]
        n, e = size * math.cos(ang), size * math.sin(ang)
        if i % 8 == 0:
            n, e = [(size, 0.0), (0.0, size), (-size, 0.0),
                    (0.0, -size)][i // 8 % 4]
        stns.append(station('S%02d' % i, round(n, 1), round(e, 1),
                            [12.5, -300.0, 0.0][i % 3], lt,
                            round(hemi * lat, 2), 1.5 * i, 90.0 - i / 2.0))
    for sname, func, power in SCALE:
        obj, bounds, _ = make(kind, name, hemi, blat, times, good)
        # a location at a pole has no directions
        keep = [[s for s in stns if all(math.hypot(
            *[90 - abs(s[5]) - 0.0, 0.0]) > 0.5 and far(s, b)
            for b in [getattr(bb, 'ob', bb)]) and clear(s, bb)]
            for bb in bounds]
        blocks = [block(60 * i + [0, 7, -12, 20][(i + count) % 4],
                        keep[i], sml=-i, smu=10 * i) for i in range(4)]
        count += 1
        case = {'func': 'values', 'kind': kind, 'hemi': hemi, 'corr': name,
                'blat': blat, 'scale': sname}
        run(blocks, out, ocb=obj, hemisphere=[0, hemi][count % 2],
            max_sdiff=29, scale_func=func)
        compare(rep, case, out, blocks, hemi, chooser(times, good, bounds,
                                                      29), power)
        rep.state((kind, hemi, name, blat, sname))
        rep.trace(case, None)


def far(stn, bound):
    """Not at the pole of the boundary"""
    xx = (90.0 - abs(stn[5])) * math.cos(ref.ang(stn[4])) - bound.xc
    yy = (90.0 - abs(stn[5])) * math.sin(ref.ang(stn[4])) - bound.yc
    return math.hypot(xx, yy) > 0.5


def clear(stn, bounds):
    """Not at an edge between two regions"""
    return not isinstance(bounds, ref.Dual) or bounds.normal(
        stn[5], stn[4])[5] > 1.0e-6


def loader(params, rep):
    """The loaded arrays equal the written blocks"""
    heads = [HEAD, HEAD[-1:], HEAD[:3] * 9 + HEAD[-1:], ['#'] + HEAD[-1:]]
    numeric = ['BN', 'BE', 'BZ', 'MLT', 'MLAT', 'DEC', 'SZA']
    count = 0
    path = os.path.join(gen.jobdir(), 'smag')
    sizes = list(itertools.product([1, 2, 5], repeat=params['blocks']))
    pats = list(itertools.product([0, 1, 2, 3], repeat=params['blocks']))
    for size, pat in itertools.product(sizes, pats):
        count += 1
        blocks = []
        for i, (num, pp) in enumerate(zip(size, pat)):
            t = [dt.datetime(1999, 12, 31, 23, 59, 59),
                 dt.datetime(2000, 2, 29, 0, 0, 0),
                 dt.datetime(2010, 12, 5, 7, 8, 9),
                 dt.datetime(2011, 1, 1)][i] + dt.timedelta(
                     minutes=count % 50)
            blocks.append(block(t, [], None if pp & 1 else -100 - i - count,
                                None if pp & 2 else 3 * i + count % 7))
            for j in range(num):
                vals = [1.5 * j - 7 * i, -0.25 * count, 3e2 * j, 23.99 - j,
                        70.0 + i - 150.0 * (j % 2), 12.5, 91.0 + j]
                if (count + j) % 3 == 0:
                    vals[(count + i + j) % 7] = FILL
                blocks[-1]['stations'].append(['S%d%d' % (i, j)] + vals)
        order = [('SML', 'SMU'), ('SMU', 'SML')][count % 2]
        write(blocks, path, heads[count % 4], ['\t', ' ', '   '][count % 3],
              order, bool(count % 5), ['\n', '\r\n'][count % 7 == 0])
        head, data = supermag.load_supermag_ascii_data(path)
        rep.step(1, 'loader')
        case = {'func': 'loader', 'size': size, 'pattern': pat,
                'count': count}
        rep.state((size, pat))
        if [h.strip() for h in head] != [h.strip() for h in heads[count % 4]]:
            rep.violate(case, 'header', head)
        want = {k: [] for k in ('YEAR', 'MONTH', 'DAY', 'HOUR', 'MIN', 'SEC',
                                'DATETIME', 'NST', 'SML', 'SMU', 'STID',
                                'BN', 'BE', 'BZ', 'MLT', 'MLAT', 'DEC',
                                'SZA')}
        for blk in blocks:
            t = blk['t']
            for stn in blk['stations']:
                for key, val in zip(('YEAR', 'MONTH', 'DAY', 'HOUR', 'MIN',
                                     'SEC', 'DATETIME', 'NST', 'SML', 'SMU',
                                     'STID'), (
                        t.year, t.month, t.day, t.hour, t.minute, t.second, t,
                        len(blk['stations']), blk['SML'], blk['SMU'],
                        stn[0])):
                    want[key].append(val)
                for key, val in zip(numeric, stn[1:]):
                    want[key].append(val)
        if sorted(want) != sorted(data):
            rep.violate(case, 'names', sorted(data), sorted(want))
            continue
        for key, vals in want.items():
            got = list(data[key])
            bad = len(got) != len(vals) or len(np.shape(data[key])) != 1
            for g, w in zip(got, vals):
                if key in numeric:
                    bad |= (g == g) if w == FILL else not g == w
                elif key in ('SML', 'SMU') and w is None:
                    bad |= not (g == 999999 or g != g)
                elif key == 'STID':
                    bad |= str(g) != w
                else:
                    bad |= g != w
            if bad:
                rep.violate(case, key, got, vals)
    # unusable files
    for text in (None, '', 'no table\nhere\n', HEAD[-1] + '\n'):
        target = os.path.join(gen.jobdir(), 'none')
        if os.path.exists(target):
            os.remove(target)
        if text is not None:
            with open(target, 'w') as fout:
                fout.write(text)
        head, data = supermag.load_supermag_ascii_data(target)
        rep.step(1, 'loader')
        if any(len(v) for v in data.values()):
            rep.violate({'func': 'loader', 'text': text}, 'data', data)
        if not text:
            try:
                supermag.supermag2ascii_ocb(target, target + '.out')
                rep.violate({'func': 'loader', 'text': text}, 'no error')
            except IOError:
                pass
    rep.trace({'blocks': params['blocks']}, count)


DAY = 86400


def jobs(tier):
    quick = tier == 'quick'
    out = []
    grid = [-61, -60, 20, 59, 60, 100, 185]
    gridt = [-61, -60, -1, 20, 59, 60, 61, 100, 185]
    for i, (kind, hemi) in enumerate([('image', 1), ('image', -1),
                                      ('ampere', 1), ('dmsp-ssj', -1),
                                      ('eab', 1), ('dual', 1),
                                      ('dual', -1)]):
        for times in ([0, 60, 120], [0, 120, 180], [0, 60, 240]):
            out.append(('timeline', {
                'kind': kind, 'hemi': hemi, 'times': times,
                'grid': grid if quick else gridt,
                'thin': 6 if quick else 2,
                'tols': [0, 5, 60, 39, 600] if quick else
                [0, 1, 5, 39, 60, 61, 600]}))
    if not quick:
        out.append(('timeline', {'kind': 'image', 'hemi': 1, 'times': [
            0, 60, 120, 300], 'grid': gridt, 'thin': 5, 'tols': [
                0, 1, 5, 39, 60, 61, 600]}))
    # days, months and years apart
    for kind, hemi in [('image', 1), ('ampere', -1), ('dual', 1)]:
        out.append(('timeline', {
            'kind': kind, 'hemi': hemi, 'times': [0, DAY, 31 * DAY + 60],
            'grid': [-DAY, 20, DAY - 30, DAY + 60, 2 * DAY, 31 * DAY + 100,
                     400 * DAY], 'thin': 4 if quick else 1,
            'tols': [60, 3600, DAY]}))
    reqs = ['given', 'auto', 'file', 'filed', 'evar', 'none', 'criteria']
    for kind, hemi in [('image', 1), ('image', -1), ('ampere', 1),
                       ('dual', 1)]:
        for st in STATES:
            idx = list(STATES).index(st)
            some = reqs
            if quick:
                some = [reqs[(idx + j) % 7] for j in (
                    (0, 1, 2) if kind == 'image' else (3,))]
            out.append(('stations', {'kind': kind, 'hemi': hemi,
                                     'first': [st], 'rest': 2, 'file': True,
                                     'reqs': some}))
    names = ['default', 'circ', 'ell', 'harm', 'si12', 'wic', 'bump',
             'kwarray', 'array', 'harmg']
    for kind in ('image', 'ampere', 'dmsp-ssj', 'eab', 'dual'):
        for hemi in (1, -1):
            for i, name in enumerate(names):
                out.append(('values', {
                    'kind': kind, 'hemi': hemi, 'name': name,
                    'blat': [74.0, 70.0, 78.5][i % 3],
                    'nloc': 24 if quick else 240}))
    out += [('loader', {'blocks': b}) for b in ([1, 2, 3] if quick
                                                else [1, 2, 3, 4])]
    return out
