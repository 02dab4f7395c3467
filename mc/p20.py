"""P20: formatted DMSP boundaries pass through both measured crossings."""
import contextlib
import datetime as dt
import io
import itertools
import math
import os
import shutil
import tempfile

import aacgmv2

from mc import gen
from mc.gen import np
from ocbpy.boundaries import dmsp_ssj_files as dsf

TECHNIQUE = ('exhaustive enumeration of crossing geometries and of sequences '
             'of readable and unreadable input files on the real code, with '
             'an independent calculation of every record; the written files '
             'are loaded and both crossings looked up')
ORACLE = ('magnetic position of each crossing at the mid-time, circle with '
          'the crossings as diameter, one record for each pass in order')
BOUND = {'quick': '2 hemispheres x 9 latitudes x 8 longitudes of each '
                  'crossing (18 pairs of latitudes) x 7 methods and heights; '
                  'every sequence of up to 2 of 22 kinds of file and of 3 of '
                  '9; 6 forms of input',
         'thorough': '45 pairs of latitudes; every sequence of up to 3 of 22 '
                     'kinds of file and of 4 of 9'}
JOB_CPU_LIMIT = 840
ASSUMPTIONS = ['the positions of aacgmv2 are right', 'files hold three '
               'decimals and whole seconds']

COLS = ['UTSecond Pass Start', 'UTSecond Pass End', 'hemisphere', 'UTSec EQ1',
        'UTSec PO1', 'UTSec PO2', 'UTSec EQ2', 'FOM', 'SC_GEOCENTRIC_LAT EQ1',
        'SC_GEOCENTRIC_LAT PO1', 'SC_GEOCENTRIC_LAT PO2',
        'SC_GEOCENTRIC_LAT EQ2', 'SC_GEOCENTRIC_LON EQ1',
        'SC_GEOCENTRIC_LON PO1', 'SC_GEOCENTRIC_LON PO2',
        'SC_GEOCENTRIC_LON EQ2', 'mlat EQ1', 'mlat PO1', 'mlat PO2',
        'mlat EQ2', 'mlt EQ1', 'mlt PO1', 'mlt PO2', 'mlt EQ2']
NOTES = ['# DMSP SSJ Auroral Boundary Identification',
         '# Generated on Tue Aug 20 14:39:42 2019', '# Glossary:',
         '# EQ1: First equator-side auroral boundary ',
         '# hemisphere : -1 for southern hemisphere +1 for northern']
ENDS = {(1, 'PO'): 'north.ocb', (1, 'EQ'): 'north.eab',
        (-1, 'PO'): 'south.ocb', (-1, 'EQ'): 'south.eab'}


def make_pass(hemi, po, eq, sod, fom):
    """A pass: po and eq hold two (lat, lon) each, sod the 4 times"""
    return {'hemi': hemi, 'PO': po, 'EQ': eq, 'sod': sod, 'fom': fom}


def cells(pss):
    hemi = pss['hemi']
    (e1, e2), (p1, p2) = pss['EQ'], pss['PO']
    se1, sp1, sp2, se2 = pss['sod']
    # the magnetic columns of the input are not those of the reference height
    return [se1 - 20, se2 + 20, hemi, se1, sp1, sp2, se2, pss['fom'], e1[0],
            p1[0], p2[0], e2[0], e1[1], p1[1], p2[1], e2[1], hemi * 61.0,
            hemi * 72.0, hemi * 73.0, hemi * 62.0, 4.5, 2.5, 21.5, 20.5]


def name(day, sc=16, ver='v1.1.2'):
    return 'dmsp-f%d_ssj_precipitating-electrons-ions_%s_%s_boundaries.csv' % (
        sc, day.strftime('%Y%m%d'), ver)


def write(path, passes, cols=None, notes=NOTES, end='\n', last=True):
    cols = COLS if cols is None else cols
    lines = list(notes) + [','.join(cols)]
    for pss in passes:
        row = dict(zip(COLS, cells(pss)))
        lines.append(','.join('%r' % row.get(c, 0.5) for c in cols))
    with open(path, 'w', newline='') as fout:
        fout.write(end.join(lines) + (end if last else ''))
    return path


_ref = {}


def expect(pss, day, sc, alt=830.0, method='GEOCENTRIC|ALLOWTRACE'):
    """The two records of a pass: (hemi, bound) -> values"""
    out = {}
    secs = {'PO': pss['sod'][1:3], 'EQ': [pss['sod'][0], pss['sod'][3]]}
    for bb in ('PO', 'EQ'):
        mid = day + dt.timedelta(seconds=0.5 * (secs[bb][0] + secs[bb][1]))
        pos = []
        for lat, lon in pss[bb]:
            key = (lat, lon, alt, mid, method)
            if key not in _ref:
                if len(_ref) > 20000:
                    _ref.clear()
                _ref[key] = aacgmv2.get_aacgm_coord(lat, lon, alt, mid,
                                                    method=method)
            mlat, _, mlt = _ref[key]
            colat = 90.0 - abs(mlat)
            ang = math.radians(15.0 * (mlt - 6.0))
            pos.append((colat * math.cos(ang), colat * math.sin(ang)))
        (x1, y1), (x2, y2) = pos
        out[bb] = {'sc': sc, 'mid': mid, 'r': 0.5 * math.hypot(
            x1 - x2, y1 - y2), 'x': 0.5 * (x1 + x2), 'y': 0.5 * (y1 + y2),
            'fom': pss['fom'], 'x_1': x1, 'y_1': y1, 'x_2': x2, 'y_2': y2}
    return out


FIELDS = ['r', 'x', 'y', 'fom', 'x_1', 'y_1', 'x_2', 'y_2']


def read(path):
    """Records of a written file, parsed without the package"""
    with open(path) as fin:
        lines = fin.read().split('\n')
    recs = []
    for line in lines[1:]:
        part = line.split()
        if not part:
            continue
        rec = {'sc': part[0], 'mid': ' '.join(part[1:3]), 'num': len(part)}
        rec.update(zip(FIELDS, [float(p) for p in part[3:]]))
        recs.append(rec)
    return lines[0], recs


def compare(rep, case, out, passes, alt, method):
    """Compare the written files with all passes [(pass, day, sc)]"""
    want = {key: [] for key in ENDS}
    for pss, day, sc in passes:
        both = expect(pss, day, sc, alt, method)
        for bb in both:
            want[(pss['hemi'], bb)].append(both[bb])
    files = {}
    for fname in out:
        base = os.path.basename(str(fname))
        for key, end in ENDS.items():
            hemi, ext = end.split('.')
            if '_%s_' % hemi in base and base.endswith('.' + ext):
                files[key] = str(fname)
    if len(out) != 4 or sorted(files) != sorted(ENDS):
        rep.violate(case, 'files written', [str(f) for f in out])
        return None
    for key, recs in want.items():
        rep.step(1, 'files')
        head, got = read(files[key])
        if head.split() != '#sc date time r x y fom x_1 y_1 x_2 y_2'.split():
            rep.violate(case, 'first line of %s' % ENDS[key], head)
        if len(got) != len(recs):
            rep.violate(case, 'number of records of %s' % ENDS[key], len(got),
                        len(recs))
            continue
        for i, (gg, ww) in enumerate(zip(got, recs)):
            rep.step(1, 'records')
            if gg['num'] != 11 or int(gg['sc']) != ww['sc']:
                rep.violate(case, 'spacecraft of record %d of %s' % (
                    i, ENDS[key]), gg, ww)
                break
            gt = dt.datetime.strptime(gg['mid'], '%Y-%m-%d %H:%M:%S')
            if abs((gt - ww['mid']).total_seconds()) > 1.0:
                rep.violate(case, 'mid-time of record %d of %s' % (
                    i, ENDS[key]), gg['mid'], ww['mid'])
                break
            bad = [f for f in FIELDS if not gen.close(gg[f], ww[f], 0.0)
                   and not abs(gg[f] - ww[f]) < 6.0e-4]
            if bad:
                rep.violate(case, '%s of record %d of %s' % (
                    bad, i, ENDS[key]), gg, ww)
                break
            for num in '12':
                if not abs(math.hypot(gg['x'] - gg['x_' + num], gg['y']
                                      - gg['y_' + num]) - gg['r']) < 3.0e-3:
                    rep.violate(case, 'circle of record %d of %s misses '
                                'crossing %s' % (i, ENDS[key], num), gg)
    return files


def load(rep, case, files, passes, alt, method):
    """The written files load as boundaries through both crossings"""
    for (hemi, bb), path in files.items():
        cls = gen.ocbpy.OCBoundary if bb == 'PO' else gen.ocbpy.EABoundary
        want = [expect(pss, day, sc, alt, method)[bb] for pss, day, sc in
                passes if pss['hemi'] == hemi]
        bound = cls(filename=path, instrument='dmsp-ssj', hemisphere=hemi)
        if bound.records != len(want):
            rep.violate(case, 'records loaded from %s' % ENDS[(hemi, bb)],
                        bound.records, len(want))
            continue
        for i, ww in enumerate(want):
            rep.step(1, 'loaded')
            bound.rec_ind = i
            if int(bound.sc[i]) != ww['sc'] or abs(
                    (bound.dtime[i] - ww['mid']).total_seconds()) > 1.0 \
                    or abs(bound.fom[i] - ww['fom']) > 6.0e-4:
                rep.violate(case, 'loaded record %d of %s' % (
                    i, ENDS[(hemi, bb)]), (bound.sc[i], bound.dtime[i],
                                           bound.fom[i]), ww)
                break
            mlts, colats = [], []
            for num in '12':
                xx, yy = ww['x_' + num], ww['y_' + num]
                mlts.append((math.degrees(math.atan2(yy, xx)) / 15.0 + 6.0)
                            % 24.0)
                colats.append(math.hypot(xx, yy))
            rcent = math.hypot(ww['x'], ww['y'])
            if rcent >= ww['r'] - 0.05:
                # the magnetic pole is not inside: the boundary is not a
                # function of local time
                continue
            bound.get_aacgm_boundary_lat(np.array(mlts), rec_ind=i)
            lat = bound.aacgm_boundary_lat[i]
            for j in range(2):
                slack = 4.0e-3 * ww['r'] / max(ww['r'] - rcent, 0.05) + 2e-3
                if not abs(lat[j] - hemi * (90.0 - colats[j])) < slack:
                    rep.violate(case, 'boundary of record %d of %s at '
                                'crossing %d' % (i, ENDS[(hemi, bb)], j + 1),
                                lat[j], hemi * (90.0 - colats[j]))


def quiet(func, *args, **kwargs):
    with contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(io.StringIO()):
        return func(*args, **kwargs)


def geometry(params, rep):
    """All pairs of crossing positions"""
    hemi, sc, lats = params['hemi'], params['sc'], params['lats']
    alt, method = params['alt'], params['method']
    day = dt.datetime(*params['day'])
    base = tempfile.mkdtemp(prefix='geo-f')
    foms = [3.0, 3.331, 4.5, 17.0625, 3.0005]
    passes = []
    count = 0
    for la1, la2 in itertools.product(lats, lats):
        for lo1, lo2 in itertools.product(params['lons'], params['lons']):
            if (la1, lo1) == (la2, lo2):
                continue
            count += 1
            sod = 10.0 + (count * 7919) % 85000
            pss = make_pass(hemi, [(hemi * la1, lo1), (hemi * la2, lo2)],
                            [(hemi * (la1 - 7.25), lo1 + 5.5),
                             (hemi * (la2 - 6.5), lo2 - 3.25)],
                            [sod, sod + 101, sod + 350 + count % 3,
                             sod + 520.5], foms[count % 5])
            passes.append((pss, day, sc))
            rep.state((hemi, sc, la1, lo1, la2, lo2, alt, method))
    half = (len(passes) + 1) // 2
    # two days
    parts = [passes[:half], [(p, day + dt.timedelta(days=1), sc)
                             for p, _, _ in passes[half:]]]
    files = [write(os.path.join(base, name(part[0][1], sc)),
                   [p for p, _, _ in part]) for part in parts]
    kwargs = {}
    if alt != 830.0:
        kwargs['ref_alt'] = alt
    if method != 'GEOCENTRIC|ALLOWTRACE':
        kwargs['method'] = method
    case = {'func': 'geometry', 'hemi': hemi, 'sc': sc, 'alt': alt,
            'method': method, 'lats': lats, 'day': params['day']}
    out = quiet(dsf.format_ssj_boundary_files, files, **kwargs)
    allp = parts[0] + parts[1]
    written = compare(rep, case, out, allp, alt, method)
    if written:
        load(rep, case, written, allp, alt, method)
    want = sorted(os.path.basename(f) for f in list(out) + files)
    if sorted(os.listdir(base)) != want:
        rep.violate(case, 'other files in the directory',
                    sorted(os.listdir(base)), want)
    shutil.rmtree(base)
    rep.trace(case, None)


def passes_of(kind, num):
    """Passes held by a readable kind of file"""
    sod = 1000.0 + 3000 * num
    north = make_pass(1, [(70.411, 236.147), (81.128, 156.22)],
                      [(63.45, 244.234), (67.84, 100.524)],
                      [sod, sod + 128, sod + 463, sod + 775], 3.238)
    south = make_pass(-1, [(-64.524, 76.001), (-81.11, 348.463)],
                      [(-50.061, 85.195), (-79.513, 327.412)],
                      [sod + 5, sod + 262, sod + 709.5, sod + 775.25], 3.331)
    third = make_pass(1, [(79.345, 130.398), (79.14, 55.397)],
                      [(73.894, 152.945), (68.229, 24.544)],
                      [82000.0, 82125, 82344, 86399.0], 4.043)
    low = make_pass(-1, [(-71.0, -20.5), (-69.5, 100.25)],
                    [(-63.0, -30.0), (-60.25, 110.0)],
                    [0.0, 20.0, 400.0, 2200.0], 1.25)
    return {'one': [north], 'south': [south], 'mixed': [south, north, third],
            'both': [north, south], 'low': [low, north],
            'many': [north, third, south, low, third, north]}.get(
                kind, [south, north])


GOODK = ['one', 'south', 'mixed', 'both', 'low', 'many', 'reorder', 'extra',
         'bare', 'nolast', 'crlf', 'short']
BADK = ['missing', 'empty', 'notes', 'headonly', 'wronghead', 'nocol',
        'ragged', 'text', 'binary', 'folder']
FEW = ['one', 'mixed', 'reorder', 'missing', 'empty', 'nocol', 'text',
       'binary', 'short']


def make_file(base, kind, num, sc, day):
    path = os.path.join(base, name(day, sc))
    passes = passes_of(kind, num)
    if kind == 'reorder':
        write(path, passes, cols=COLS[::-1])
    elif kind == 'extra':
        write(path, passes, cols=['ind EQ1', 'ind PO1'] + COLS + ['more'])
    elif kind == 'bare':
        write(path, passes, notes=[])
    elif kind == 'nolast':
        write(path, passes, last=False)
    elif kind == 'crlf':
        write(path, passes, notes=NOTES[:2], end='\r\n')
    elif kind == 'short':
        write(path, passes, cols=COLS[2:16], notes=NOTES * 3)
    elif kind == 'missing':
        pass
    elif kind == 'empty':
        open(path, 'w').close()
    elif kind == 'notes':
        with open(path, 'w') as fout:
            fout.write('\n'.join(NOTES) + '\n')
    elif kind == 'headonly':
        write(path, [])
    elif kind == 'wronghead':
        write(path, passes, cols=['x%d' % i for i in range(24)])
    elif kind == 'nocol':
        write(path, passes, cols=[c for c in COLS if c != COLS[
            [2, 7, 3, 9, 15][num % 5]]])
    elif kind == 'ragged':
        write(path, passes)
        with open(path, 'a') as fout:
            fout.write('1,2,3\n')
    elif kind == 'text':
        write(path, passes)
        with open(path) as fin:
            text = fin.read()
        with open(path, 'w') as fout:
            fout.write(text + text.split('\n')[-2].replace(
                '3.', 'abc', 1) + '\n')
    elif kind == 'binary':
        with open(path, 'wb') as fout:
            fout.write(b'\xff\xfe\x00\x80\n\x00' * 9)
    elif kind == 'folder':
        os.makedirs(path)
    else:
        write(path, passes)
    return path, [(p, day, sc) for p in passes] if kind in GOODK else []


FORMS = ['list', 'tuple', 'array', 'str', 'relative', 'reverse']


def sequences(params, rep):
    """Sequences of readable and unreadable files"""
    kinds = params['kinds']
    for num, rest in enumerate(itertools.product(kinds,
                                                 repeat=params['rest'])):
        seq = tuple(params['first']) + rest
        if params['even'] is not None and num % 2 != params['even']:
            continue
        base = tempfile.mkdtemp(prefix=['seq', 'seq-f16_', 'a b-f'][num % 3])
        paths, passes, exist = [], [], 0
        form = FORMS[(num + len(seq)) % len(FORMS)]
        if form == 'str' and len(seq) > 1:
            form = 'list'
        order = range(len(seq))
        if form == 'reverse':
            order = list(order)[::-1]
        days = []
        for i in order:
            kind = seq[i]
            sc = [16, 17, 18, 6][(num + i) % 4]
            day = dt.datetime(2010, 2, 27) + dt.timedelta(days=i)
            path, pss = make_file(base, kind, i, sc, day)
            paths.append(path)
            passes += pss
            if os.path.isfile(path):
                exist += 1
                days.append(day)
        before = {f: os.path.getsize(os.path.join(base, f))
                  for f in os.listdir(base)}
        arg, cwd = list(paths), os.getcwd()
        if form == 'tuple':
            arg = tuple(arg)
        elif form == 'array':
            arg = np.array(arg)
        elif form == 'str':
            arg = arg[0]
        elif form == 'relative':
            os.chdir(base)
            arg = [os.path.basename(p) for p in arg]
        case = {'func': 'sequences', 'seq': seq, 'form': form,
                'dir': os.path.basename(base)[:6]}
        rep.state((seq, form))
        rep.step(1, 'sequences')
        keep = repr(arg)
        try:
            out = quiet(dsf.format_ssj_boundary_files, arg)
            out = [os.path.abspath(str(f)) for f in out]
        except ValueError as err:
            out = None
            if exist:
                rep.violate(case, 'readable files prevented', str(err))
        finally:
            os.chdir(cwd)
        if repr(arg) != keep:
            rep.violate(case, 'argument altered', arg, keep)
        if out is not None:
            if not exist:
                rep.violate(case, 'no error without any file', out)
            else:
                compare(rep, case, out, passes, 830.0,
                        'GEOCENTRIC|ALLOWTRACE')
                span = '_%s_%s_v1.1.2.' % (min(days).strftime('%Y%m%d'),
                                           max(days).strftime('%Y%m%d'))
                if any(os.path.dirname(f) != base
                       or not os.path.basename(f).startswith('dmsp-ssj_')
                       or span not in f for f in out):
                    rep.violate(case, 'names of the files', out, span)
        for f, size in before.items():
            path = os.path.join(base, f)
            if not os.path.exists(path) or os.path.getsize(path) != size:
                rep.violate(case, 'input altered', f)
        rep.outcome((len(passes), exist, out is None))
        shutil.rmtree(base)
    rep.trace({k: params[k] for k in ('first', 'rest')}, None)


def jobs(tier):
    quick = tier == 'quick'
    lats = [55.0, 60.5, 66.0, 70.0, 74.25, 78.0, 82.5, 86.0, 89.9]
    lons = [-170.0, 0.0, 45.0, 93.0, 130.5, 200.0, 285.25, 359.5]
    how = [(830.0, 'GEOCENTRIC|ALLOWTRACE'), (450.0, 'ALLOWTRACE'),
           (830.0, 'TRACE'), (110.0, 'GEOCENTRIC'), (0.0, 'ALLOWTRACE'),
           (830.0, 'GEOCENTRIC|TRACE'), (1500.0, 'GEOCENTRIC|ALLOWTRACE')]
    days = [(2010, 12, 31), (2012, 2, 28), (2000, 6, 1)]
    out = []
    for i, (alt, method) in enumerate(how):
        for hemi in (1, -1):
            for k in range(0, len(lats)):
                near = [0, 3] if quick else [0, 2, 4, 5, 7]
                if quick and '|' not in method and k % 3 != i % 3:
                    continue
                out.append(('geometry', {
                    'hemi': hemi, 'sc': [16, 17, 18][(i + k) % 3],
                    'lats': [lats[(k + j) % len(lats)] for j in near],
                    'lons': lons[i % 2::2] if quick and i else lons,
                    'alt': alt, 'method': method,
                    'day': days[(i + k) % 3]}))
    kinds = GOODK + BADK
    seqs = [((), 1)] + [((k,), 1) for k in kinds]
    out += [('sequences', {'first': f, 'rest': r, 'kinds': kinds,
                           'even': None}) for f, r in seqs]
    out += [('sequences', {'first': (k,), 'rest': 2, 'kinds': FEW,
                           'even': None}) for k in FEW]
    if not quick:
        out += [('sequences', {'first': (k,), 'rest': 2, 'kinds': kinds,
                               'even': None}) for k in kinds]
        out += [('sequences', {'first': (k, j), 'rest': 2, 'kinds': FEW,
                               'even': None}) for k in FEW for j in FEW]
    return out
