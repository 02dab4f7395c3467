"""P16: vorticity conversion writes each usable measurement once, correctly."""
import datetime as dt
import itertools
import math
import os

from mc import gen, ref
from mc.gen import np
from mc.p14 import SCALE
from mc.p15 import chooser, make
from ocbpy.instruments import vort

TECHNIQUE = ('exhaustive enumeration of timelines of boundaries and '
             'measurement blocks x tolerances, of usability patterns of '
             'entries, of locations x boundary kinds x scaling, and of every '
             'truncation and line loss of a file; each case is written as '
             'files, converted with the real converter and the written lines '
             'parsed')
ORACLE = ('model of the usable measurements and their nearest boundary, '
          'independent coordinates and scaling; loader output equal to the '
          'written blocks')
BOUND = {'quick': '8 goodness patterns x 127 subsets of 7 block times x 5 '
                  'tolerances x 3 spacings, and days to years '
                  'apart; 9 entry states in every triple x '
                  '11 requests; 2 hemispheres x 5 boundary kinds x 10 '
                  'corrections x 4 scale functions x 24 locations; every '
                  'layout of up to 3 blocks of 0-3 entries; every line and '
                  'token truncation and line loss of 9 files',
         'thorough': '16 patterns x 511 subsets of 9 block times x 7 '
                     'tolerances; every triple x all requests x 4 kinds; 240 '
                     'locations; layouts of up to 4 blocks'}
JOB_CPU_LIMIT = 840
ASSUMPTIONS = ['block hours denote whole seconds to within the resolution of '
               'one second of the loader']
T0 = gen.T0
KEYS = [['R1BM1', 'R1BM2', 'R2BM1', 'R2BM2', 'AREA', 'VORTICITY', 'MLT'],
        ['GFLG', 'CENTRE_GLAT', 'CENTRE_GLON'] + [
            'C%d_G%s' % (i, k) for i in (1, 2, 3, 4) for k in ('LAT', 'LON')],
        ['MFLG', 'CENTRE_MLAT', 'CENTRE_MLON'] + [
            'C%d_M%s' % (i, k) for i in (1, 2, 3, 4) for k in ('LAT', 'LON')]]
BASE = ['YEAR', 'MONTH', 'DAY', 'UTH', 'VORTICITY', 'MLT', 'CENTRE_MLAT',
        'DATETIME']
ALL = [k for keys in KEYS for k in keys if k not in ('GFLG', 'MFLG')]


def entry(mlat=75.0, mlt=3.0, vor=1.0e-3, salt=0):
    """All values of an entry, every one of its own"""
    out = {'R1BM1': salt % 16, 'R1BM2': salt % 16 + 1, 'R2BM1': salt % 13 + 2,
           'R2BM2': salt % 13 + 3, 'AREA': 5000.5 + salt, 'GFLG': 0,
           'MFLG': 1}
    for j, key in enumerate(ALL):
        if key not in out:
            out[key] = round(((salt + 1) * 3.217 + 11.0 * j) % 90.0, 3)
    out.update({'VORTICITY': vor, 'MLT': mlt, 'CENTRE_MLAT': mlat})
    return out


def block(t, entries):
    if not isinstance(t, dt.datetime):
        t = T0 + dt.timedelta(seconds=t)
    return {'t': t, 'entries': entries}


def hours(t):
    return (t - t.replace(hour=0, minute=0, second=0)
            ).total_seconds() / 3600.0 + 2.0e-5


def text(val):
    return '%d' % val if isinstance(val, int) else repr(float(val))


def lines_of(blocks, head=(), pad='   '):
    lines, owner = list(head), [None] * len(head)
    done = 0
    for blk in blocks:
        t = blk['t']
        lines += ['%d %d %d %.6f' % (t.year, t.month, t.day, hours(t)),
                  '%d' % len(blk['entries'])]
        for ent in blk['entries']:
            for keys in KEYS:
                lines.append(pad.join(text(ent[k]) for k in keys))
    return lines


def write(blocks, path=None, head=(), pad='   ', last=False, end='\n'):
    path = path or os.path.join(gen.jobdir(), 'vort')
    with open(path, 'w', newline='') as fout:
        fout.write(end.join(lines_of(blocks, head, pad))
                   + (end if last else ''))
    return path


def parse(path, save_all):
    if not os.path.exists(path):
        return '', []
    with open(path) as fin:
        lines = fin.read().split('\n')
    names = lines[0].split()
    cols = names[2:]
    want = ['OCB_LAT', 'OCB_MLT', 'NORM_VORT']
    if names[:2] != ['#DATE', 'TIME'] or cols[-3:] != want:
        return lines[0], None
    extra = sorted(cols[:-3])
    if extra != (sorted([k for k in BASE if k != 'DATETIME'] + [
            k for k in ALL if k not in BASE]) if save_all else []):
        return lines[0], None
    out = []
    for line in lines[1:]:
        if not line:
            continue
        part = line.split()
        if len(part) != len(names):
            return line, None
        rec = dict(zip(cols, [float(p) for p in part[2:]]))
        rec['t'] = dt.datetime.strptime(' '.join(part[:2]),
                                        '%Y-%m-%d %H:%M:%S')
        out.append(rec)
    return lines[0], out


def expect(ent, bounds, power, other=None):
    """Values of a line -> expected, allowed vorticity of the recorded
    finding, clearance from a region edge"""
    lat, lt, vor = (ent[k] for k in ('CENTRE_MLAT', 'MLT', 'VORTICITY'))
    nan = float('nan')
    if lat != lat or lt != lt:
        # the radius at an undefined location is not stated
        return {'OCB_LAT': nan, 'OCB_MLT': nan, 'NORM_VORT': None}, None, 1.0
    if isinstance(bounds, ref.Dual):
        olat, olt, _, corr, _, margin = bounds.normal(lat, lt)
        single = bounds.ob
    else:
        olat, olt, corr = bounds.normal(lat, lt)
        single, margin = bounds, 1.0
    rref = 90.0 - abs(single.blat)
    out = {'OCB_LAT': olat, 'OCB_MLT': olt,
           'NORM_VORT': vor * ((single.r + corr) / rref)**power}
    bad = None
    if other is not None:
        bad = vor * ((other + corr) / rref)**power
    return out, bad, margin


def same(got, want, half):
    if want != want:
        return got != got
    return abs(got - want) <= half * 1.01 + 1.0e-6 * abs(want)


def compare(rep, case, path, blocks, hemi, choose, power, save_all=False,
            swap=None):
    """Written lines against the model; ``choose`` gives for a time the
    allowed reference boundaries, ``swap`` the radius the recorded finding
    uses for a boundary."""
    rep.step(1, case['func'])
    head, got = parse(path, save_all)
    if got is None:
        rep.violate(case, 'form of the output', head)
        return
    want = []
    for blk in blocks:
        for ent in blk['entries']:
            refs = choose(blk['t'])
            if ref.sign(ent['CENTRE_MLAT']) == hemi and refs:
                want.append((blk['t'], ent, refs))
    rep.outcome((len(want), len(blocks)))
    if [g['t'] for g in got] != [w[0] for w in want]:
        rep.violate(case, 'times of the measurements written',
                    [str(g['t']) for g in got], [str(w[0]) for w in want])
        return
    for i, (g, (t, ent, refs)) in enumerate(zip(got, want)):
        rep.step(1, 'lines')
        why = None
        for bounds in refs:
            other = None if swap is None else swap[id(bounds)]
            exp, bad, margin = expect(ent, bounds, power, other)
            why = None
            if margin > 1.0e-6 and not same(g['OCB_LAT'], exp['OCB_LAT'],
                                            0.005):
                why = 'OCB_LAT'
            elif not (same(g['OCB_MLT'], exp['OCB_MLT'], 5e-7)
                      or gen.close_mlt(g['OCB_MLT'], exp['OCB_MLT'], 2e-6)):
                why = 'OCB_MLT'
            elif exp['NORM_VORT'] is not None and not same(
                    g['NORM_VORT'], exp['NORM_VORT'], 5e-7):
                if bad is not None and same(g['NORM_VORT'], bad, 5e-7):
                    rep.know('dual-radius', 'vorticity scaled by the radius '
                             'of another poleward record')
                else:
                    why = 'NORM_VORT'
            if why is None:
                break
        if why is None and save_all:
            exp = dict(ent, YEAR=t.year, MONTH=t.month, DAY=t.day,
                       UTH=float('%.6f' % hours(t)))
            for key in exp:
                if key not in ('GFLG', 'MFLG') and not same(
                        g[key], exp[key], 1.0e-9):
                    why = key
        if why is not None:
            rep.violate(dict(case, entry=ent, time=str(t)),
                        '%s of line %d' % (why, i), g, exp)
            return


def swaps(kind, bounds, goodness):
    """Radius of the poleward record whose number is the pair's number"""
    if kind != 'dual':
        return None
    out, num = {}, 0
    for bb, gg in zip(bounds, goodness):
        out[id(bb)] = bounds[num].ob.r if gg else float('nan')
        num += bool(gg)
    return out


def rewind(kind, obj, start=-1):
    for k in (['ocb', 'eab'] if kind == 'dual' else []):
        getattr(obj, k).rec_ind = -1
    obj.rec_ind = start


def run(blocks, out, **kwargs):
    path = write(blocks)
    if os.path.exists(out):
        os.remove(out)
    vort.vort2ascii_ocb(path, out, **kwargs)


def timeline(params, rep):
    """Boundaries and blocks in time"""
    out = os.path.join(gen.jobdir(), 'vort.out')
    grid, tols = params['grid'], params['tols']
    times = params['times']
    kind, hemi = params['kind'], params['hemi']
    num = 0
    for goodness in itertools.product([True, False], repeat=len(times)):
        if kind == 'dual' and not any(goodness):
            continue
        obj, bounds, good = make(kind, 'default', hemi, 74.0, times,
                                 goodness)
        swap = swaps(kind, bounds, goodness)
        for mask in range(1, 2**len(grid)):
            num += 1
            secs = [t for i, t in enumerate(grid) if mask >> i & 1]
            blocks = [block(t, [entry(hemi * (70.0 + i % 9), (
                2.0 * i + 0.5) % 24, 1.0e-2 * (50 + 10 * i), i)]
                + ([entry(hemi * 81.0, 19.0, -0.25, 7 + i)]
                   if (num + i) % 3 == 0 else [])
                + ([entry(-hemi * 81.0, 19.0, -0.25, 9 + i)]
                   if (num + i) % 4 == 0 else []))
                for i, t in enumerate(secs)]
            for k, tol in enumerate(tols):
                if params['thin'] and (num + k) % params['thin']:
                    continue
                start = -1
                if num % 2 and any(goodness):
                    start = 0 if kind == 'dual' else goodness.index(True)
                rewind(kind, obj, start)
                case = {'func': 'timeline', 'kind': kind, 'hemi': hemi,
                        'bounds': times, 'good': goodness, 'data': secs,
                        'tol': tol, 'start': start}
                run(blocks, out, ocb=obj, hemisphere=hemi if num % 3 else 0,
                    max_sdiff=tol, save_all=num % 5 == 0)
                compare(rep, case, out, blocks, hemi, chooser(
                    times, goodness, bounds, tol), 2, num % 5 == 0, swap)
                rep.state((goodness, mask, tol, kind, hemi, tuple(times)))
    rep.trace({k: params[k] for k in ('kind', 'hemi', 'times')}, num)


NAN = float('nan')
STATES = {
    'good': {}, 'good2': {'mlat': 65.5, 'mlt': 14.25, 'vor': -0.03},
    'nomlt': {'mlt': NAN}, 'nomlat': {'mlat': NAN}, 'novor': {'vor': NAN},
    'other': {'mlat': -75.0}, 'equator': {'mlat': 0.0}, 'zero': {'vor': 0.0},
    'low': {'mlat': 0.5, 'mlt': 0.0, 'vor': 12.5}}
REQS = ['given', 'auto', 'file', 'filed', 'evar', 'none', 'criteria', 'all',
        'merit', 'nothing', 'badfile']


def layout(num, ents):
    return [[block(10, ents)],
            [block(10, ents[:1]), block(250, ents[1:])],
            [block(0, ents[:2]), block(240, []), block(300, ents[2:])],
            [block(-5, ents[:1]), block(-5, ents[1:2]),
             block(610, ents[2:])]][num % 4]


def entries(params, rep):
    """Usability patterns of the entries of consecutive blocks"""
    out = os.path.join(gen.jobdir(), 'vort.out')
    kind, hemi = params['kind'], params['hemi']
    names = list(STATES)
    times, good = [0, 300, 600], [True] * 3
    obj, bounds, _ = make(kind, 'default', hemi, 74.0, times, good)
    path = None
    if kind in gen.LIMITS:
        path, _, _ = make(kind, 'default', hemi, 74.0, times, good, True)
    count = 0
    for trip in itertools.product(names, repeat=2):
        trip = tuple(params['first']) + trip
        count += 1
        ents = []
        for i, st in enumerate(trip):
            kw = dict({'mlat': 72.0 + i, 'mlt': 6.0 + i, 'vor': 0.1 + i},
                      **STATES[st])
            kw['mlat'] *= hemi
            ents.append(entry(salt=i + count, **kw))
        blocks = layout(count, ents)
        for req in params['reqs']:
            rewind(kind, obj)
            case = {'func': 'entries', 'kind': kind, 'hemi': hemi,
                    'states': trip, 'request': req, 'layout': count % 4}
            kw = {'max_sdiff': 120, 'hemisphere': hemi, 'ocb': obj}
            power, goodness = 2, good
            lats = [e['CENTRE_MLAT'] for e in ents
                    if e['CENTRE_MLAT'] == e['CENTRE_MLAT']]
            if req == 'auto':
                kw['hemisphere'] = 0
            elif req in ('file', 'filed'):
                if path is None:
                    continue
                kw.update({'ocb': None, 'ocbfile': path, 'instrument': kind})
                if req == 'filed':
                    kw['hemisphere'] = 0
                    if not lats or 0.0 in lats:
                        continue
                    if max(lats) > 0 > min(lats):
                        try:
                            run(blocks, out, **kw)
                            rep.violate(case, 'both hemispheres accepted')
                        except ValueError:
                            pass
                        rep.step(1, 'mixed')
                        continue
                    if ref.sign(lats[0]) != hemi:
                        continue
            elif req == 'evar':
                kw['scale_func'] = SCALE[1][1]
                power = 1
            elif req == 'none':
                kw['scale_func'] = None
                power = 0
            elif req == 'criteria':
                kw['r'] = ('max', 12.0)
                goodness = [False, True, False]
                if kind == 'dual':
                    continue
            elif req == 'all':
                kw['save_all'] = True
            elif req == 'merit':
                kw['min_merit'] = 1.0e6
                goodness = [False] * 3
                if kind == 'dual':
                    continue
            elif req in ('nothing', 'badfile'):
                if path is None or count % 9:
                    continue
                kw.update({'ocb': None, 'instrument': kind})
                if req == 'nothing':
                    kw['ocbfile'] = gen.write(kind, [gen.rec(
                        9.0e6, 15.0)], os.path.join(gen.jobdir(), 'late'))
                else:
                    kw['ocbfile'] = os.path.join(gen.jobdir(), 'absent')
                goodness = [False] * 3
            run(blocks, out, **kw)
            compare(rep, case, out, blocks, hemi, chooser(
                times, goodness, bounds, 120), power, req == 'all',
                swaps(kind, bounds, goodness))
            rep.state((trip, req, kind, hemi, count % 4))
    rep.trace({k: params[k] for k in ('kind', 'hemi', 'first')}, count)


def values(params, rep):
    """Locations x boundaries x scaling"""
    out = os.path.join(gen.jobdir(), 'vort.out')
    kind, hemi, name, blat = (params[k] for k in ('kind', 'hemi', 'name',
                                                  'blat'))
    times, good = [60 * i for i in range(4)], [True] * 4
    ents = []
    for i in range(params['nloc']):
        lat = 1.0 + 88.5 * ((i * 0.618034) % 1.0)**0.35
        lt = round((24.0 * i * 0.3819 + 0.07) % 24.0, 4)
        ents.append(entry(round(hemi * lat, 3), lt,
                          [1.5e-3, -2.25, 300.0][i % 3], i))
    for count, (sname, func, power) in enumerate(SCALE):
        obj, bounds, _ = make(kind, name, hemi, blat, times, good)
        blocks = [block(60 * i + [0, 7, -12, 20][(i + count) % 4], ents)
                  for i in range(4)]
        case = {'func': 'values', 'kind': kind, 'hemi': hemi, 'corr': name,
                'blat': blat, 'scale': sname}
        run(blocks, out, ocb=obj, hemisphere=[0, hemi][count % 2],
            max_sdiff=29, scale_func=func, save_all=count == 1)
        compare(rep, case, out, blocks, hemi, chooser(times, good, bounds,
                                                      29), power, count == 1)
        rep.state((kind, hemi, name, blat, sname))
        rep.trace(case, None)


def check_load(rep, case, data, want, save_all):
    """Loaded arrays against the list of (time, entry)"""
    keys = sorted(BASE + ([k for k in ALL if k not in BASE] if save_all
                          else []))
    if not want:
        if data is not None:
            rep.violate(case, 'data from nothing', data)
        return
    if data is None or sorted(data) != keys:
        rep.violate(case, 'names', None if data is None else sorted(data),
                    keys)
        return
    for key in keys:
        got = list(data[key])
        bad = len(got) != len(want) or np.ndim(data[key]) != 1
        for g, (t, ent) in zip(got, want):
            if key == 'DATETIME':
                bad |= not abs((g - t).total_seconds()) <= 1.0
            elif key in ('YEAR', 'MONTH', 'DAY'):
                bad |= g != getattr(t, key.lower())
            elif key == 'UTH':
                bad |= abs(g - hours(t)) > 1.0e-6
            else:
                bad |= not same(g, ent[key], 1.0e-12)
        if bad:
            rep.violate(case, key, got, [w[1].get(key, str(w[0]))
                                         for w in want])
            return


TIMES = [dt.datetime(1999, 12, 31, 23, 59, 59), dt.datetime(2000, 2, 29),
         dt.datetime(2010, 12, 5, 7, 8, 9), dt.datetime(2011, 1, 1)]


def loader(params, rep):
    """The loaded arrays equal the written blocks"""
    heads = [[], ['# Vorticity made for this check'], ['# a', '#', '# 1 2 3'],
             ['# 2000 1 1 12.0', '# 5']]
    path = os.path.join(gen.jobdir(), 'vort')
    count = 0
    for sizes in itertools.product([0, 1, 2, 3], repeat=params['blocks']):
        for form in range(params['forms']):
            count += 1
            blocks = []
            for i, num in enumerate(sizes):
                t = TIMES[(i + form) % 4] + dt.timedelta(
                    days=i, seconds=count % 50)
                blocks.append(block(t.replace(microsecond=0), [
                    entry(70.0 + j - 140.0 * ((i + j) % 2), 1.5 * j + i,
                          [1e-3, -2.5, NAN][(i + j + count) % 3],
                          count + 10 * i + j) for j in range(num)]))
            write(blocks, path, heads[(count + form) % 4],
                  [' ', '   ', '\t'][count % 3], count % 5 > 1,
                  ['\n', '\r\n'][count % 7 == 0])
            save_all = bool((count + form) % 2)
            case = {'func': 'loader', 'sizes': sizes, 'form': form,
                    'count': count, 'all': save_all}
            data = vort.load_vorticity_ascii_data(path, save_all=save_all)
            rep.step(1, 'loader')
            rep.state((sizes, form))
            check_load(rep, case, data, [(b['t'], e) for b in blocks
                                         for e in b['entries']], save_all)
    # decimal hours as the data are distributed
    for i in range(0, 24000, params['hstep']):
        hour = i / 1000.0
        with open(path, 'w') as fout:
            fout.write('\n'.join(['2004 2 29 %.3f' % hour, '1'] + lines_of(
                [block(0, [entry(salt=i)])])[2:]))
        data = vort.load_vorticity_ascii_data(path)
        rep.step(1, 'hours')
        late = (data['DATETIME'][0] - dt.datetime(2004, 2, 29)
                ).total_seconds() - hour * 3600.0
        if abs(late) > 1.001 or data['UTH'][0] != float('%.3f' % hour):
            rep.violate({'func': 'loader', 'hour': hour}, 'time of the block',
                        str(data['DATETIME'][0]))
    rep.trace({'blocks': params['blocks']}, count)


def damage(params, rep):
    """Every truncation of a file at a line or between columns, and every
    loss of a line: an error or only complete entries of the right block"""
    path = os.path.join(gen.jobdir(), 'vort')
    for sizes in params['sizes']:
        blocks = [block(TIMES[i], [entry(70.0 + j + 3 * i, 1.5 * j + i,
                                         0.25 * (i + j), 7 * i + j)
                                   for j in range(num)])
                  for i, num in enumerate(sizes)]
        full = [(b['t'], e) for b in blocks for e in b['entries']]
        lines = lines_of(blocks)
        cases = []
        for i in range(len(lines) + 1):
            cases.append(('cut', i, 0, lines[:i]))
            if i < len(lines):
                part = lines[i].split()
                cases += [('cut', i, j, lines[:i] + [' '.join(part[:j])])
                          for j in range(1, len(part))]
                cases.append(('lost', i, 0, lines[:i] + lines[i + 1:]))
        for what, i, j, left in cases:
            for end in ('', '\n'):
                with open(path, 'w') as fout:
                    fout.write('\n'.join(left) + (end if left else ''))
                case = {'func': 'damage', 'sizes': sizes, 'what': what,
                        'line': i, 'columns': j, 'end': end}
                rep.step(1, 'damage')
                rep.state((tuple(sizes), what, i, j, end))
                try:
                    data = vort.load_vorticity_ascii_data(path, save_all=True)
                except IOError:
                    rep.outcome('error')
                    continue
                num = 0 if data is None else len(data['MLT'])
                rep.outcome(num)
                if what == 'cut':
                    check_load(rep, case, data, full[:num], True)
                    owner, need = 0, 0
                    for b in blocks:
                        start = need + 2
                        need = start + 3 * len(b['entries'])
                        owner += len([1 for k in range(len(b['entries']))
                                      if start + 3 * k + 3 <= i])
                    if num != owner:
                        rep.violate(case, 'number of entries', num, owner)
                elif sizes and data is not None and len(full) != num:
                    rep.violate(case, 'lost line unnoticed', num)
    for absent in (os.path.join(gen.jobdir(), 'absent'), gen.jobdir()):
        rep.step(1, 'damage')
        try:
            if vort.load_vorticity_ascii_data(absent) is not None:
                rep.violate({'func': 'damage'}, 'data from a missing file')
            vort.vort2ascii_ocb(absent, os.path.join(gen.jobdir(), 'x'))
            rep.violate({'func': 'damage'}, 'no error for a missing file')
        except IOError:
            pass
    rep.trace({'sizes': params['sizes']}, None)


DAY = 86400


def jobs(tier):
    quick = tier == 'quick'
    out = []
    grid = [-61, -60, 20, 59, 60, 100, 185]
    gridt = [-61, -60, -1, 20, 59, 60, 61, 100, 185]
    tols = [0, 1, 5, 39, 60, 61, 600]
    for kind, hemi in [('image', 1), ('image', -1), ('ampere', 1),
                       ('dmsp-ssj', -1), ('eab', 1), ('dual', 1),
                       ('dual', -1)]:
        for times in ([0, 60, 120], [0, 120, 180], [0, 60, 240]):
            out.append(('timeline', {
                'kind': kind, 'hemi': hemi, 'times': times,
                'grid': grid if quick else gridt, 'thin': 2 if quick else 1,
                'tols': [0, 5, 60, 39, 600] if quick else tols}))
    # days, months and years apart
    for kind, hemi in [('image', 1), ('ampere', -1), ('dual', 1)]:
        out.append(('timeline', {
            'kind': kind, 'hemi': hemi, 'times': [0, DAY, 31 * DAY + 60],
            'grid': [-DAY, 20, DAY - 30, DAY + 60, 2 * DAY, 31 * DAY + 100,
                     400 * DAY], 'thin': 4 if quick else 1,
            'tols': [60, 3600, DAY]}))
    if not quick:
        out += [('timeline', {'kind': kind, 'hemi': 1, 'times': [
            0, 60, 120, 300], 'grid': gridt, 'thin': 5, 'tols': tols})
            for kind in ('image', 'dual')]
    for kind, hemi in [('image', 1), ('image', -1), ('ampere', 1),
                       ('dual', 1)]:
        for idx, st in enumerate(STATES):
            some = REQS
            if quick:
                some = [REQS[(idx * 3 + j) % 11] for j in (
                    range(4) if kind == 'image' else (4, 5))]
            out.append(('entries', {'kind': kind, 'hemi': hemi,
                                    'first': [st], 'reqs': some}))
    names = ['default', 'circ', 'ell', 'harm', 'si12', 'wic', 'bump',
             'kwarray', 'array', 'harmg']
    for kind in ('image', 'ampere', 'dmsp-ssj', 'eab', 'dual'):
        for hemi in (1, -1):
            for i, name in enumerate(names):
                out.append(('values', {
                    'kind': kind, 'hemi': hemi, 'name': name,
                    'blat': [74.0, 70.0, 78.5][i % 3],
                    'nloc': 24 if quick else 240}))
    out += [('loader', {'blocks': b, 'forms': 8 if b < 4 else 2,
                        'hstep': 120 if quick else 7})
            for b in ([1, 2, 3] if quick else [1, 2, 3, 4])]
    out += [('damage', {'sizes': [list(s)]}) for s in itertools.product(
        [0, 1, 2], repeat=2)]
    if not quick:
        out += [('damage', {'sizes': [list(s)]}) for s in itertools.product(
            [0, 1, 2, 3], repeat=3)]
    return out
