"""P28: unusable files and refused calls leave nothing behind."""
import copy
import datetime as dt
import itertools
import locale
import os
import random
import resource
import stat
import sys
import threading
import warnings

from mc import gen, p15, p16, p20
from mc.core import canon
from mc.gen import np, ocbpy
from ocbpy import cycle_boundary
from ocbpy.instruments import general, supermag, vort

TECHNIQUE = ('fault injection, exhaustive over the fault points: every byte '
             'at which a file can be cut, every kind of unusable path for '
             'every reader, every reason to refuse a conversion for every '
             'state of the output file and of the boundary object; the real '
             'code runs on each')
ORACLE = ('the complete records before the cut, as they were written; the '
          'output file, cursor and boundary before the refused call; a valid '
          'call on objects without a refused call in their history')
BOUND = {'quick': 'every byte cut of 22 boundary, 16 column, 12 SuperMAG and '
                  '8 vorticity files and 4 files of '
                  'crossings; 21 kinds of paths x 9 readers; 21 '
                  'refusals x 5 output states x 6 boundaries x 3 cursors x '
                  '2 converters, each followed by a conversion; every '
                  'history of 2 refused calls on 4 boundary objects with '
                  'every cursor',
         'thorough': 'the same with every byte cut of longer files (up to 6 '
                     'records, 4 blocks) and every history of 3 refused '
                     'calls'}
ASSUMPTIONS = ['a cut file is a prefix of the complete file']
JOB_CPU_LIMIT = 800
# other than the states that calls use within
np.seterr(divide='warn', over='print', under='ignore', invalid='warn')


def put(path, text):
    with open(path, 'wb') as fout:
        fout.write(text)


def error(rep, case, exc):
    """An error is an answer, the end of the process is not."""
    if not isinstance(exc, Exception) or isinstance(exc, (
            MemoryError, RecursionError, UnboundLocalError, NameError)):
        rep.violate(case, 'not an orderly error', repr(exc))


def world():
    """What calls share: the state of the process"""
    log = ocbpy.logger
    return {'folder': os.getcwd(), 'floating point': np.geterr(),
            'print options': str(np.get_printoptions()),
            'streams': [id(sys.stdin), id(sys.stdout), id(sys.stderr)],
            'warnings': len(warnings.filters), 'threads':
            threading.active_count(), 'files': len(os.listdir(
                '/proc/self/fd')), 'locale': locale.setlocale(
                    locale.LC_ALL), 'log': [
                        log.level, log.disabled, log.propagate,
                        len(log.handlers)],
            'environment': dict(os.environ), 'random': hash(str(
                random.getstate()) + str(np.random.get_state())),
            'path': list(sys.path)}


def unchanged(rep, case, before):
    now = world()
    for key, val in before.items():
        if now[key] != val:
            rep.violate(case + [key], 'state of the process', now[key], val)
            before[key] = now[key]


# Files cut at every byte ----------------------------------------------------


BREC = [[(0, 14.5, 1.25, -2.75, None), (61, 16.0, -3.5, 0.5, None),
         (3600, 12.25, 0.0, 4.0, None)],
        [(0, 10.0, 2.0, 2.0, None)],
        [(86399, 15.0, 1.0, 1.0, None), (86400, 16.0, 2.0, 1.0, None),
         (172800, 17.0, 3.0, 1.0, None), (172860, 18.0, 4.0, 1.0, None)]]


def brecords(inst, num, tier):
    rows = list(BREC[num])
    if tier == 'thorough' and num == 2:
        rows += [(400000, 19.0, -1.0, -1.0, None),
                 (31 * 86400, 20.0, -2.0, -1.5, None)]
    out = []
    for t, r, x, y, fom in rows:
        if inst == 'ampere':
            t = 60 * (t // 60)
        out.append(gen.rec(t, r, x=x, y=y, fom=fom))
    return out


def columns(inst, rr):
    """Attributes of a record, by column of the file"""
    fom = gen.GOOD[inst]
    ext = {'num_sectors': 20, 'a': 0.5, 'r_err': 0.1}
    if inst == 'image':
        return [(0, None, None), (1, None, None),
                (2, 'num_sectors', ext['num_sectors']),
                (3, 'phi_cent', rr['phi']), (4, 'r_cent', rr['rc']),
                (5, 'r', rr['r']), (6, 'a', ext['a']),
                (7, 'r_err', ext['r_err']), (8, 'fom', fom)]
    if inst == 'ampere':
        return [(2, 'r', rr['r']), (3, 'x', rr['x']), (4, 'y', rr['y']),
                (5, 'fom', fom)]
    return [(3, 'r', rr['r']), (4, 'x', rr['x']), (5, 'y', rr['y']),
            (6, 'fom', fom)]


def bounds(params, rep):
    inst, num, cls, end, tier = params
    recs = brecords(inst, num, tier)
    lines = [gen.line(inst, rr) for rr in recs]
    if inst == 'dmsp-ssj':
        lines.insert(0, '#sc date time r x y fom x_1 y_1 x_2 y_2')
    skip = len(lines) - len(recs)
    eol = '\r\n' if end else '\n'
    text = eol.join(lines) + eol
    # bytes after which each record is complete: its last token is
    ends, pos = [], 0
    for line in lines:
        ends.append(pos + len(line))
        pos += len(line) + len(eol)
    ends = ends[skip:]
    path = os.path.join(gen.jobdir(), 'cut.dat')
    build = {'ocb': ocbpy.OCBoundary, 'eab': ocbpy.EABoundary}[cls]
    for cut in range(len(text) + 1):
        put(path, text[:cut].encode())
        full = [rr for rr, e in zip(recs, ends) if e <= cut]
        # a record is in the file, with its last column unfinished
        last = len(full) < len(recs) and len(text[:cut].split('\n')[
            -1].split()) == len(lines[-1].split()) and len(
                text[:cut].split('\n')) == len(full) + skip + 1
        case = [inst, num, cls, end, cut]
        rep.state(case)
        rep.step(1, 'cut')
        try:
            obj = build(filename=path, instrument=inst, hemisphere=1)
        except BaseException as exc:
            error(rep, case, exc)
            rep.trace(case, 'error')
            if cut == len(text):
                rep.violate(case, 'complete file refused', repr(exc))
            continue
        got = int(obj.records)
        rep.trace(case, got)
        if cut == 0 and (got != 0 or obj.filename is not None):
            rep.violate(case, 'empty file loaded', [got, obj.filename])
        if got == 0 and not full:
            continue
        if got != len(full) + last:
            rep.violate(case, 'records', got, len(full) + last)
            continue
        for i in range(got):
            rr = recs[i]
            vals = columns(inst, rr)
            if i >= len(full):
                vals = vals[:-1] if vals[-1][0] == len(
                    lines[-1].split()) - 1 else vals
            if obj.dtime[i] != rr['t']:
                rep.violate(case + [i], 'time', obj.dtime[i], rr['t'])
            for _, name, val in vals:
                if name is None or not hasattr(obj, name):
                    continue
                if not gen.close(float(getattr(obj, name)[i]), float(val),
                                 1e-9):
                    rep.violate(case + [i, name], 'value',
                                getattr(obj, name)[i], val)
    rep.trace([inst, num, cls], len(text))


TABLES = {
    'num': (['a', 'b', 'c'], [['1.5', '-2', '30'], ['2.5', '-3', '40'],
                              ['3.5', '-4', '50']], {'int_cols': [1, 2]}),
    'text': (['name', 'val'], [['one', '1.25'], ['two', '2.25'],
                               ['three', '3.25']], {'str_cols': [0]}),
    'time': (['date', 'time', 'v', 'n'],
             [['2001-02-03', '04:05:06', '1.5', '7'],
              ['2001-02-04', '05:06:07', '2.5', '8'],
              ['2001-02-05', '06:07:08', '3.5', '9']],
             {'datetime_cols': [0, 1], 'int_cols': [3],
              'datetime_fmt': '%Y-%m-%d %H:%M:%S'}),
    'one': (['v'], [['1.5'], ['22.5'], ['333.5']], {})}


def tables(params, rep):
    name, end, given = params
    names, rows, kwargs = TABLES[name]
    eol = '\r\n' if end else '\n'
    lines = ['%s' % ' '.join(row) for row in rows]
    head = [] if given else [' '.join(names)]
    text = eol.join(head + lines) + eol
    ends, pos = [], 0
    for line in head + lines:
        ends.append(pos + len(line))
        pos += len(line) + len(eol)
    ends = ends[len(head):]
    kw = dict(kwargs)
    if given:
        kw['header'] = [' '.join(names)]
    path = os.path.join(gen.jobdir(), 'cut.txt')
    tcols = kwargs.get('datetime_cols', [])
    for cut in range(len(text) + 1):
        put(path, text[:cut].encode())
        case = [name, end, given, cut]
        rep.state(case)
        rep.step(1, 'cut')
        full = [r for r, e in zip(rows, ends) if e <= cut]
        now = text[:cut].split('\n')
        last = len(full) < len(rows) and len(now) == len(full) + len(
            head) + 1 and len(now[-1].split()) == len(names)
        try:
            hdr, out = general.load_ascii_data(
                path, len(head), **copy.deepcopy(kw))
        except BaseException as exc:
            error(rep, case, exc)
            rep.trace(case, 'error')
            if cut == len(text):
                rep.violate(case, 'complete file refused', repr(exc))
            continue
        sizes = {len(np.atleast_1d(v)) for v in out.values()}
        rep.trace(case, sizes)
        if not full and (not out or sizes == {0}):
            continue
        if not full and not last:
            # the header, or the first row, is not complete: no names to
            # hold against
            if sum(sizes) > 1 and head and cut > len(head[0]):
                rep.violate(case, 'rows from nothing', sizes)
            continue
        if sizes != {len(full) + last}:
            rep.violate(case, 'rows', sizes, len(full) + last)
            continue
        for j, key in enumerate(names):
            if j in tcols or j == len(names) - 1 and last and not full:
                continue
            col = np.atleast_1d(out[key])
            for i, row in enumerate(full):
                good = (col[i] == row[j] if j in kwargs.get('str_cols', [])
                        else float(col[i]) == float(row[j]))
                if not good:
                    rep.violate(case + [i, key], 'value', col[i], row[j])
        if tcols:
            for i, row in enumerate(full):
                want = dt.datetime.strptime(' '.join(row[:2]),
                                            kwargs['datetime_fmt'])
                if np.atleast_1d(out['datetime'])[i] != want:
                    rep.violate(case + [i], 'time', out['datetime'], want)
    rep.trace([name, end, given], len(text))


SM = [[1], [2], [1, 2], [3, 1], [2, 2, 1]]
SMKEYS = ['STID', 'BN', 'BE', 'BZ', 'MLT', 'MLAT', 'DEC', 'SZA']


def smag(params, rep):
    sizes, index, end = params
    path = os.path.join(gen.jobdir(), 'cut.smag')
    eol = '\r\n' if end else '\n'
    blocks = [p15.block(3600 * i, [p15.station(
        'S%d%d' % (i, j), 101.5 + 7 * i + j, -41.25 - j, 25.75 + i,
        3.5 + j, 75.25 + i - j, 20.5, 80.25 + j) for j in range(num)],
        -195 - i if index else None, 124 + i if index else None)
        for i, num in enumerate(sizes)]
    p15.write(blocks, path, p15.HEAD[-3:], end=eol)
    with open(path, 'rb') as fin:
        text = fin.read().decode()
    # the station lines and where they end
    full, starts, pos, top = [], [], 0, None
    owner = [(b, s) for b in blocks for s in b['stations']]
    for line in text.split(eol):
        if len(line.split()) == 8 and top is not None:
            full.append(pos + len(line))
            starts.append(pos)
        if line.startswith('====='):
            top = pos + len(line)
        pos += len(line) + len(eol)
    assert len(full) == len(owner)
    for cut in range(len(text) + 1):
        put(path, text[:cut].encode())
        case = [sizes, index, end, cut]
        rep.state(case)
        rep.step(1, 'cut')
        num = len([e for e in full if e <= cut])
        parts = text[:cut].split('\n')[-1].split()
        last = num < len(full) and cut > starts[num] and len(parts) == 8
        try:
            head, data = supermag.load_supermag_ascii_data(path)
        except BaseException as exc:
            error(rep, case, exc)
            rep.trace(case, 'error')
            if cut == len(text):
                rep.violate(case, 'complete file refused', repr(exc))
            continue
        if not data:
            rep.trace(case, None)
            if num:
                rep.violate(case, 'complete observations not loaded', 0, num)
            continue
        lens = {len(v) for v in data.values()}
        rep.trace(case, lens)
        if lens != {num + last}:
            rep.violate(case, 'observations', lens, num + last)
            continue
        for i in range(num + last):
            blk, stn = owner[i]
            got = [data['DATETIME'][i], int(data['NST'][i]),
                   None if data['SML'][i] == 999999 else int(data['SML'][i]),
                   None if data['SMU'][i] == 999999 else int(data['SMU'][i]),
                   ] + [data[k][i] for k in SMKEYS]
            want = [blk['t'], len(blk['stations']), blk['SML'], blk['SMU']
                    ] + stn
            if i >= num:
                got, want = got[:-1], want[:-1]
            if canon([str(v) for v in got]) != canon([str(v) for v in want]):
                rep.violate(case + [i], 'observation', got, want)
    rep.trace([sizes, index, end], len(text))


def vorts(params, rep):
    sizes, save_all, end = params
    path = os.path.join(gen.jobdir(), 'cut.vort')
    eol = '\r\n' if end else '\n'
    blocks = [p16.block(p16.TIMES[i], [p16.entry(
        70.25 + j + 3 * i, 1.5 * j + i, 0.25 * (i + j) + 0.125, 7 * i + j)
        for j in range(num)]) for i, num in enumerate(sizes)]
    p16.write(blocks, path, last=True, end=eol)
    with open(path, 'rb') as fin:
        text = fin.read().decode()
    lines = text.split(eol)
    full = [(b['t'], e) for b in blocks for e in b['entries']]
    # the third line of each entry
    ends, pos, k = [], 0, 0
    at = 0
    pos = [0]
    for line in lines:
        pos.append(pos[-1] + len(line) + len(eol))
    for blk in blocks:
        at += 2
        for _ in blk['entries']:
            ends.append(pos[at + 2] + len(lines[at + 2]))
            at += 3
    for cut in range(len(text) + 1):
        put(path, text[:cut].encode())
        case = [sizes, save_all, end, cut]
        rep.state(case)
        rep.step(1, 'cut')
        num = len([e for e in ends if e <= cut])
        try:
            data = vort.load_vorticity_ascii_data(path, save_all=save_all)
        except BaseException as exc:
            error(rep, case, exc)
            rep.trace(case, 'error')
            if cut == len(text):
                rep.violate(case, 'complete file refused', repr(exc))
            continue
        if data is None:
            rep.trace(case, None)
            if num:
                rep.violate(case, 'complete entries not loaded', 0, num)
            continue
        lens = {len(v) for v in data.values()}
        rep.trace(case, lens)
        now = text[:cut].split('\n')[-1].split()
        last = num < len(full) and len(now) == 11 and len(lens) == 1 and \
            lens == {num + 1}
        if last:
            # the entry whose last column is not complete
            data = {key: val if key != 'C4_MLON' else np.append(
                val[:-1], full[num][1]['C4_MLON'])
                for key, val in data.items()}
        p16.check_load(rep, case, data, full[:num + last], save_all)
    rep.trace([sizes, save_all, end], len(text))


def passes(params, rep):
    """Measured crossings: a cut file among complete ones"""
    first, end, num = params
    base = gen.scratch()
    days = [dt.datetime(2010, 12, 30), dt.datetime(2010, 12, 31),
            dt.datetime(2011, 1, 1)]
    rows = [[p20.make_pass((1, -1)[(i + j) % 2], [
        ((1, -1)[(i + j) % 2] * 71.0, 20.0 + 40 * i + 5 * j),
        ((1, -1)[(i + j) % 2] * 70.0, 190.0)], [
            ((1, -1)[(i + j) % 2] * 61.0, 25.0 + 40 * i),
            ((1, -1)[(i + j) % 2] * 62.0, 180.0 - 7 * j)],
        [1000.0 + 3000 * j, 1100.0 + 3000 * j, 1500.0 + 3000 * j,
         1600.0 + 3000 * j], 3.5 + j)
        for j in range(num if i == first else 2)] for i in range(3)]
    files = [p20.write(os.path.join(base, p20.name(day)), pss,
                       notes=p20.NOTES[:1], end='\r\n' if end else '\n')
             for day, pss in zip(days, rows)]

    def form():
        out = p20.quiet(p20.dsf.format_ssj_boundary_files, list(files))
        lines = []
        for name in sorted(out):
            with open(name) as fin:
                lines.append([v.split() for v in fin.read().split('\n')
                              if v and not v.startswith('#')])
            os.remove(name)
        return lines

    # lines of each file, of each record of the cut file
    whole = form()
    with open(files[first], 'rb') as fin:
        text = fin.read().decode()
    eol = '\r\n' if end else '\n'
    ends, pos = [], 0
    for line in text.split(eol)[:-1]:
        ends.append(pos + len(line))
        pos += len(line) + len(eol)
    ends = ends[2:]
    assert len(ends) == num
    upto = []
    day = days[first].strftime('%Y-%m-%d')
    for k in range(num + 1):
        keep = {(day, hour) for hour in (
            (days[first] + dt.timedelta(seconds=1300 + 3000 * j)).strftime(
                '%H:%M:%S') for j in range(k))}
        upto.append([[v for v in lines if v[1] != day or (v[1], v[2]) in keep]
                     for lines in whole])
    if sum(len(v) for v in upto[num]) != sum(len(v) for v in whole) or \
       len(whole) != 4 or sum(len(v) for v in whole) != 2 * (num + 4):
        rep.violate(params, 'records of the complete files', whole)
        return
    for cut in range(len(text) + 1):
        put(files[first], text[:cut].encode())
        case = ['passes', first, end, num, cut]
        rep.state(case)
        rep.step(1, 'cut')
        full = len([e for e in ends if e <= cut])
        tail = text[:cut].split('\n')[-1].strip('\r')
        part = full < num and cut > (ends[full - 1] + len(eol) if full else 0
                                     ) and tail != ''
        good = [upto[full]]
        if part or not full:
            good.append(upto[0])
        if part and tail.count(',') == len(p20.COLS) - 1:
            good.append(upto[full + 1])
        try:
            got = form()
        except BaseException as exc:
            error(rep, case, exc)
            rep.violate(case, 'complete files prevented', repr(exc))
            continue
        rep.trace(case, [len(v) for v in got])
        if got not in good:
            rep.violate(case, 'records', got, good[0])


# Paths that cannot be loaded ------------------------------------------------
GOODTEXT = {}


def contents(what):
    """A small usable file for each reader"""
    base = gen.jobdir()
    path = os.path.join(base, 'good.' + what)
    if what == 'smag':
        p15.write([p15.block(0, [p15.station('AAA'), p15.station('BBB')])],
                  path)
    elif what == 'vort':
        p16.write([p16.block(0, [p16.entry(75.0 + j, 3.0 + j, 0.5, j)
                                 for j in range(2)])], path, last=True)
    elif what == 'table':
        put(path, b'a b\n1 2.5\n2 3.5\n')
    else:
        gen.write(what, [gen.rec(0), gen.rec(60)], path)
    with open(path, 'rb') as fin:
        text = fin.read()
    os.remove(path)
    return text


READERS = ['image', 'ampere', 'dmsp-ssj', 'eab', 'table', 'smag', 'vort',
           'smag2', 'vort2']
KINDS = ['good', 'spaces', 'unicode', 'relative', 'link', 'linklink',
         'dotted', 'nosuffix', 'readonly',
         'missing', 'empty', 'emptylink', 'dir', 'dirlink', 'dangling',
         'loop', 'fifo', 'inside', 'slash', 'nullname', 'big']
USABLE = KINDS[:9]


def place(kind, text, base):
    """Make the path of this kind -> path, clean up"""
    main = os.path.join(base, 'main.dat')
    made = [main]
    path = main
    if kind in ('spaces', 'unicode', 'dotted', 'nosuffix'):
        path = os.path.join(base, {
            'spaces': 'two words .dat', 'unicode': 'fl\u00e4che_\u2603.dat',
            'dotted': 'a.b..c.dat', 'nosuffix': 'name'}[kind])
        made = [path]
    if kind in ('good', 'spaces', 'unicode', 'relative', 'link', 'linklink',
                'dotted', 'nosuffix', 'readonly', 'inside', 'slash'):
        put(path, text)
    if kind == 'relative':
        path = os.path.relpath(path)
    elif kind == 'readonly':
        os.chmod(path, 0o400)
    elif kind in ('link', 'linklink', 'emptylink', 'dirlink', 'dangling',
                  'loop'):
        link = os.path.join(base, 'link.dat')
        target = main
        if kind == 'linklink':
            mid = os.path.join(base, 'mid.dat')
            os.symlink(main, mid)
            made.append(mid)
            target = mid
        elif kind == 'emptylink':
            put(main, b'')
        elif kind == 'dirlink':
            target = os.path.join(base, 'folder')
            os.mkdir(target)
            made.append(target)
        elif kind == 'loop':
            target = link
        os.symlink(target, link)
        made.append(link)
        path = link
    elif kind == 'empty':
        put(main, b'')
    elif kind == 'dir':
        os.mkdir(main)
    elif kind == 'fifo':
        os.mkfifo(main)
    elif kind == 'inside':
        path = os.path.join(main, 'x')
    elif kind == 'slash':
        path = main + os.sep
    elif kind == 'nullname':
        path = ''
    elif kind == 'big':
        put(main, text)
        os.truncate(main, 2000000001)
    return path, made


def drop(made):
    for path in reversed(made):
        if not os.path.lexists(path):
            continue
        if os.path.isdir(path) and not os.path.islink(path):
            os.rmdir(path)
        else:
            os.remove(path)


def read(reader, path, base):
    """-> what was loaded: number of records, None, or the type of error"""
    if reader in ('image', 'ampere', 'dmsp-ssj', 'eab'):
        inst = 'image' if reader == 'eab' else reader
        cls = ocbpy.EABoundary if reader == 'eab' else ocbpy.OCBoundary
        obj = cls(filename=path, instrument=inst, hemisphere=1)
        got = [int(obj.records), obj.filename is None]
        if got[0] == 0 and not (obj.dtime is None and obj.r is None):
            got.append('data')
        return got
    if reader == 'table':
        head, out = general.load_ascii_data(path, 1)
        return [sorted(out), {len(v) for v in out.values()}]
    if reader == 'smag':
        head, out = supermag.load_supermag_ascii_data(path)
        return [len(out) > 0, len(out.get('BN', []))]
    if reader == 'vort':
        out = vort.load_vorticity_ascii_data(path)
        return None if out is None else len(out['MLT'])
    obj = gen.ocb('image', [gen.rec(0)], 1, 0)
    dest = os.path.join(base, 'result.txt')
    func = {'smag2': supermag.supermag2ascii_ocb,
            'vort2': vort.vort2ascii_ocb}[reader]
    try:
        func(path, dest, ocb=obj)
    except IOError:
        return ['IOError', os.path.lexists(dest), int(obj.rec_ind)]
    with open(dest) as fin:
        num = len(fin.readlines()) - 1
    return num


USED = {'image': [2, False], 'ampere': [2, False], 'dmsp-ssj': [2, False],
        'eab': [2, False], 'table': [['a', 'b'], {2}], 'smag': [True, 2],
        'vort': 2, 'smag2': 2, 'vort2': 2}
REFUSED = {'image': [0, True], 'ampere': [0, True], 'dmsp-ssj': [0, True],
           'eab': [0, True], 'table': [[], set()], 'smag': [False, 0],
           'vort': None, 'smag2': ['IOError', False, 0],
           'vort2': ['IOError', False, 0]}


def paths(params, rep):
    reader = params[0]
    base = gen.scratch()
    what = {'eab': 'image', 'smag2': 'smag', 'vort2': 'vort'}.get(
        reader, reader)
    text = contents(what)
    soft = resource.getrlimit(resource.RLIMIT_AS)
    outer = None
    for first, second in itertools.product(KINDS, [None] + [
            'good', 'missing', 'empty']):
        # the second use shows that the first left nothing behind
        for step, kind in enumerate([first, second]):
            if kind is None:
                continue
            case = [reader, first, second, step]
            path, made = place(kind, text, base)
            rep.state(case)
            rep.step(1, kind)
            try:
                if kind == 'big':
                    # keep a reader that does not refuse from reading it all
                    with open('/proc/self/statm') as fin:
                        now = int(fin.read().split()[0]) * 4096
                    resource.setrlimit(resource.RLIMIT_AS, (
                        now + 600000000, soft[1]))
                got = hold(read, (reader, path, base), path
                           if kind == 'fifo' else None)
            except Exception as exc:
                got = repr(exc)
            finally:
                resource.setrlimit(resource.RLIMIT_AS, soft)
            drop(made + [os.path.join(base, 'result.txt')])
            if outer is None:
                outer = world()
            unchanged(rep, case, outer)
            want = (USED if kind in USABLE else REFUSED)[reader]
            rep.trace(case, got)
            if got != want:
                rep.violate(case, 'file %s' % (
                    'not loaded' if kind in USABLE else 'not refused'),
                    got, want)
            left = os.listdir(base)
            if left:
                rep.violate(case, 'files left behind', left)
                for name in left:
                    os.remove(os.path.join(base, name))


def hold(func, args, fifo):
    """Call; a reader waiting at a pipe is let go after a while."""
    if fifo is None:
        return func(*args)
    done = threading.Event()

    def release():
        if not done.wait(5.0):
            try:
                os.close(os.open(fifo, os.O_WRONLY | os.O_NONBLOCK))
            except OSError:
                pass

    side = threading.Thread(target=release, daemon=True)
    side.start()
    try:
        return func(*args)
    finally:
        done.set()
        side.join()


def sizes(params, rep):
    """The limit of two gigabytes, with files that take no space"""
    base = gen.scratch()
    path = os.path.join(base, 'sparse')
    for size in (0, 1, 2, 1000, 10**6, 10**9, 1999999999, 2000000000,
                 2000000001, 2147483647, 2147483648, 2147483649, 4294967296,
                 4294967297, 10**11):
        with open(path, 'wb') as fout:
            fout.truncate(size)
        for name in (path, os.path.relpath(path)):
            rep.state([size, name == path])
            rep.step(1, 'size')
            got = general.test_file(name)
            rep.trace([size, name == path], got)
            if not isinstance(got, (bool, np.bool_)) or bool(got) != (
                    0 < size <= 2000000000):
                rep.violate([size], 'test of the size', got,
                            0 < size <= 2000000000)
    os.remove(path)
    text = b'x'
    for kind in KINDS:
        name, made = place(kind, text, base)
        rep.state(kind)
        rep.step(1, 'kind')
        got = hold(general.test_file, (name,), name if kind == 'fifo'
                   else None)
        drop(made)
        rep.trace(kind, got)
        if bool(got) != (kind in USABLE):
            rep.violate([kind], 'test of the path', got, kind in USABLE)


# Refused conversions --------------------------------------------------------
OUTS = ['absent', 'empty', 'filled', 'readonly', 'link']
BOUNDS = ['image', 'ampere', 'eab', 'dual', 'south', 'none']


def boundary(kind, start):
    recs = [gen.rec(60 * i, 14.0 + i, phi=40.0 * i, rc=2.0) for i in range(3)]
    erec = [gen.rec(60 * i, 27.0 + i, phi=40.0 * i, rc=2.0)
            for i in range(3)]
    if kind == 'none':
        return None
    if kind == 'dual':
        out = gen.dual('image', recs, 'image', erec, 1, 30, start)
        out.ocb.filename = out.eab.filename = 'loaded'
        return out
    if kind == 'eab':
        out = gen.eab('image', recs, 1, start)
    else:
        out = gen.ocb('image' if kind == 'south' else kind, recs,
                      -1 if kind == 'south' else 1, start)
    out.filename = 'loaded'
    return out


def refusals(conv):
    """-> name: (input, keywords of the call, error or None when any answer
    without output will do, needs a boundary (True), none (False))"""
    ext = {'smag': 'smag', 'vort': 'vort'}[conv]
    out = {}
    for name in ('missing', 'empty', 'dir', 'dangling'):
        out[name] = (name, {}, IOError, None)
    for name, val in (('none', None), ('number', 5), ('bytes', b'out.txt'),
                      ('list', ['out.txt'])):
        out['out ' + name] = ('good', {'outfile': val}, IOError, None)
    out['out folder'] = ('good', {'outfile': 'FOLDER'}, IOError, True)
    out['out nowhere'] = ('good', {'outfile': 'NOWHERE'}, IOError, True)
    out['header'] = ('header', {}, Exception, False)
    out['text'] = ('text', {}, Exception, None)
    out['both'] = ('both', {'ocbfile': 'BOUND', 'instrument': 'image'},
                   ValueError, False)
    out['no boundary'] = ('good', {'ocbfile': 'missing.ocb',
                                   'instrument': 'image'}, None, False)
    out['empty boundary'] = ('good', {'ocbfile': 'EMPTY',
                                      'instrument': 'image'}, None, False)
    out['no default'] = ('good', {}, None, False)
    out['wrong instrument'] = ('good', {'ocbfile': 'BOUND',
                                        'instrument': 'unknown'}, Exception,
                               False)
    out['other times'] = ('late', {'ocbfile': 'BOUND',
                                   'instrument': 'image'}, None, False)
    out['hemisphere'] = ('good', {'ocbfile': 'BOUND', 'instrument': 'image',
                                  'hemisphere': 2}, ValueError, False)
    if conv == 'vort':
        out['other side'] = ('good', {'hemisphere': -1}, None, True)
    out['cut'] = ('cut', {}, Exception, None)
    return out


def inputs(conv, base):
    def smag(blocks, path):
        p15.write(blocks, path)

    def vor(blocks, path):
        p16.write(blocks, path, last=True)

    def blk(t, lats):
        if conv == 'smag':
            return p15.block(t, [p15.station('A%d' % i, mlat=v, mlt=3.0 + i)
                                 for i, v in enumerate(lats)])
        return p16.block(t, [p16.entry(v, 3.0 + i, 0.5 + i, i)
                             for i, v in enumerate(lats)])

    make = {'smag': smag, 'vort': vor}[conv]
    files = {}
    for name, blocks in (
            ('good', [blk(0, [75.0, 80.0]), blk(60, [70.0]),
                      blk(120, [66.0, 85.0])]),
            ('south', [blk(0, [-75.0, -80.0]), blk(60, [-70.0])]),
            ('both', [blk(0, [75.0, -80.0]), blk(60, [-70.0])]),
            ('late', [blk(86400 * 400, [75.0])])):
        files[name] = os.path.join(base, name + '.in')
        make(blocks, files[name])
    for name, text in (('empty', ''), ('text', 'some words here\nand more\n'),
                       ('header', '\n'.join(p15.HEAD) + '\n'
                        if conv == 'smag' else '# of things\n')):
        files[name] = os.path.join(base, name + '.in')
        put(files[name], text.encode())
    with open(files['good'], 'rb') as fin:
        text = fin.read()
    files['cut'] = os.path.join(base, 'cut.in')
    text = text.rstrip()
    put(files['cut'], text[:text.rfind(b' ' if conv == 'vort' else b'\t')])
    files['missing'] = os.path.join(base, 'missing.in')
    files['dir'] = os.path.join(base, 'dir.in')
    os.mkdir(files['dir'])
    files['dangling'] = os.path.join(base, 'dangling.in')
    os.symlink(files['missing'], files['dangling'])
    return files


def listing(base):
    out = {}
    for name in sorted(os.listdir(base)):
        path = os.path.join(base, name)
        st = os.lstat(path)
        body = None
        if stat.S_ISREG(st.st_mode):
            with open(path, 'rb') as fin:
                body = fin.read()
        elif stat.S_ISLNK(st.st_mode):
            body = os.readlink(path)
        out[name] = [stat.S_IFMT(st.st_mode), body]
    return out


def status(obj):
    """Everything that can be seen of a boundary object"""
    if obj is None:
        return None
    out = {key: val for key, val in gen.public(obj).items()
           if key not in ('rfunc', 'rfunc_kwargs', 'ocb', 'eab')}
    if hasattr(obj, 'ocb'):
        return canon([out, status(obj.ocb), status(obj.eab)])
    return canon(out)


def apart(one, two):
    """The parts of two texts around their first difference"""
    num = len(os.path.commonprefix([one, two]))
    return one[max(num - 60, 0):num + 60], two[max(num - 60, 0):num + 60]


def convert(params, rep):
    conv, kind, start = params
    base = gen.scratch()
    func = {'smag': supermag.supermag2ascii_ocb,
            'vort': vort.vort2ascii_ocb}[conv]
    files = inputs(conv, base)
    bfile = os.path.join(base, 'bound.dat')
    gen.write('image', [gen.rec(60 * i, 14.0 + i) for i in range(3)], bfile)
    hidden = os.path.join(base, 'empty.dat')
    put(hidden, b'')
    valid = {'ocbfile': bfile, 'instrument': 'image'}
    good = files['south' if kind == 'south' else 'good']
    # the result without a refused call in the history
    dest = os.path.join(base, 'valid.txt')
    obj = boundary(kind, start)
    func(good, dest, **(valid if obj is None else {'ocb': obj}))
    with open(dest, 'rb') as fin:
        want = [fin.read(), status(obj)]
    os.remove(dest)
    if want[0].count(b'\n') < 3:
        rep.violate([conv, kind, start], 'nothing converted', want[0])
    table = refusals(conv)
    outer = world()
    for name, outs in itertools.product(table, OUTS):
        source, kw, err, needs = table[name]
        if needs is True and kind == 'none' or needs is False and \
           kind != 'none':
            continue
        case = [conv, kind, start, name, outs]
        obj = boundary(kind, start)
        out = os.path.join(base, 'out.txt')
        made = [out]
        if outs in ('empty', 'filled', 'readonly'):
            put(out, b'' if outs == 'empty' else b'earlier result\n')
        elif outs == 'link':
            target = os.path.join(base, 'target.txt')
            put(target, b'earlier result\n')
            os.symlink(target, out)
            made = [target, out]
        if outs == 'readonly':
            os.chmod(out, 0o444)
        kw = dict(kw)
        for key, val in kw.items():
            kw[key] = {'BOUND': bfile, 'EMPTY': hidden,
                       'missing.ocb': os.path.join(base, 'missing.ocb'),
                       'FOLDER': base, 'NOWHERE': os.path.join(
                           base, 'nowhere', 'x.txt')}.get(val, val) \
                if isinstance(val, str) else val
        target = kw.pop('outfile', out)
        path = files[source]
        if obj is not None:
            kw['ocb'] = obj
        elif needs is None:
            kw.update(valid)
        if source == 'good' and kind == 'south' and name != 'other side':
            path = good
        if name == 'other side' and kind == 'south':
            kw['hemisphere'] = 1
            path = good
        before, seen = listing(base), status(obj)
        rep.state(case)
        rep.step(1, 'refused')
        got = 'returned'
        try:
            back = func(path, target, **kw)
            if back is not None:
                rep.violate(case, 'value returned', back)
        except BaseException as exc:
            got = type(exc).__name__
            error(rep, case, exc)
            if err is None or not isinstance(exc, err):
                rep.violate(case, 'error', repr(exc), str(err))
        if got == 'returned' and err is not None:
            rep.violate(case, 'not refused', got, str(err))
        rep.trace(case, got)
        after = listing(base)
        if after != before:
            rep.violate(case, 'files changed', [
                n for n in set(after) | set(before)
                if after.get(n) != before.get(n)], [])
        if status(obj) != seen:
            rep.violate(case, 'boundary changed', *apart(status(obj), seen))
        drop(made)
        unchanged(rep, case, outer)
        # the next conversion
        rep.step(1, 'next')
        func(good, dest, **(valid if obj is None else {'ocb': obj}))
        with open(dest, 'rb') as fin:
            have = [fin.read(), status(obj)]
        os.remove(dest)
        if have != want:
            rep.violate(case, 'later conversion', have[0].decode(),
                        want[0].decode())
    rep.trace([conv, kind, start], len(table))


def full(params, rep):
    """A result that cannot be written is an error."""
    conv, kind = params
    base = gen.scratch()
    func = {'smag': supermag.supermag2ascii_ocb,
            'vort': vort.vort2ascii_ocb}[conv]
    files = inputs(conv, base)
    for source in ('good', 'south'):
        if (source == 'south') != (kind == 'south'):
            continue
        obj = boundary(kind, -1)
        rep.state([conv, kind, source])
        rep.step(1, 'full')
        try:
            func(files[source], '/dev/full', ocb=obj)
            rep.violate([conv, kind], 'result lost without an error')
        except OSError as exc:
            rep.trace([conv, kind], exc.errno)


# Refused calls of boundary objects ------------------------------------------
def calls(kind):
    bad = [{'r': 5.0}, {'r': ('max',)}, {'r': None},
           {'r': ('max', 'text')}]
    out = []
    two, three = np.array([75.0, 76.0]), np.array([1.0, 2.0, 3.0])
    out.append(('normal shapes', lambda o: o.normal_coord(two, three)))
    out.append(('normal geo shapes', lambda o: o.normal_coord(
        two, three, coords='geodetic')))
    out.append(('normal heights', lambda o: o.normal_coord(
        two, two, coords='geodetic', height=three)))
    out.append(('normal text', lambda o: o.normal_coord('north', 3.0)))
    out.append(('normal none', lambda o: o.normal_coord(None, 3.0)))
    out.append(('revert shapes', lambda o: o.revert_coord(two, three)))
    out.append(('revert text', lambda o: o.revert_coord('north', 3.0)))
    if kind == 'dual':
        out.append(('revert mlt', lambda o: o.revert_coord(
            two, two, is_ocb=False)))
        out.append(('calc shapes', lambda o: o.calc_r(two, two, three, 0.0)))
        for k, kw in enumerate(bad):
            out.append(('pairs ocb %d' % k, lambda o, kw=kw: o.set_good_ind(
                ocb_kwargs=kw)))
            out.append(('pairs eab %d' % k, lambda o, kw=kw: o.set_good_ind(
                eab_kwargs=kw)))
            for who in ('ocb', 'eab'):
                out.append(('list %s %d' % (who, k), lambda o, kw=kw, w=who:
                            cycle_boundary.retrieve_all_good_indices(
                                getattr(o, w), **kw)))
    else:
        for k, kw in enumerate(bad):
            out.append(('list %d' % k, lambda o, kw=kw:
                        cycle_boundary.retrieve_all_good_indices(o, **kw)))
        out.append(('list merit', lambda o:
                    cycle_boundary.retrieve_all_good_indices(
                        o, max_merit='text')))
    return out


def objects(params, rep):
    kind, start, depth = params
    todo = calls(kind)

    def use(obj):
        """What a user sees afterwards"""
        lat = np.array([85.0, 72.0, 66.0, 50.0])
        res = obj.normal_coord(lat, np.array([1.0, 7.0, 13.0, 19.0]))
        if kind == 'dual':
            obj.set_good_ind()
            pairs = [obj.ocb_ind, obj.eab_ind, obj.dtime, obj.records]
        else:
            pairs = cycle_boundary.retrieve_all_good_indices(obj)
        return [res, pairs, obj.rec_ind]

    first = boundary(kind, start)
    first.get_aacgm_boundary_lat(np.array([3.0, 9.0])) if kind != 'dual' \
        else first.get_aacgm_boundary_lats(np.array([3.0, 9.0]))
    seen = status(first)
    want = canon(use(copy.deepcopy(first)))
    outer = world()
    for hist in itertools.product(range(len(todo)), repeat=depth):
        obj = copy.deepcopy(first)
        case = [kind, start, [todo[k][0] for k in hist]]
        rep.state(case)
        for k in hist:
            rep.step(1, todo[k][0])
            try:
                todo[k][1](obj)
                got = 'accepted'
                if todo[k][0].startswith('pairs'):
                    break
            except Exception as exc:
                got = type(exc).__name__
                error(rep, case, exc)
            unchanged(rep, case, outer)
            if status(obj) != seen:
                rep.violate(case + [got], 'boundary changed',
                            *apart(status(obj), seen))
                break
        else:
            rep.trace(case, got)
            have = canon(use(obj))
            if have != want:
                rep.violate(case, 'later use', have, want)


def jobs(tier):
    quick = tier == 'quick'
    out = []
    for inst, cls, num, end in itertools.product(
            gen.GOOD, ('ocb', 'eab'), range(3), (0, 1)):
        if quick and cls == 'eab' and (inst != 'image' or num == 2):
            continue
        out.append(('bounds', [inst, num, cls, end, tier]))
    for name, end, given in itertools.product(TABLES, (0, 1), (0, 1)):
        out.append(('tables', [name, end, given]))
    for num, index, end in itertools.product(SM if quick else SM + [
            [2, 1, 3, 1], [1, 1, 1, 1]], (0, 1), (0, 1)):
        if not quick or end == 0 or num == [1, 2]:
            out.append(('smag', [num, index, end]))
    for num, full, end in itertools.product(
            [[1], [2], [1, 2]] if quick else [[1], [2], [1, 2], [2, 1, 2],
                                              [3, 1, 1, 2]],
            (False, True), (0, 1)):
        if not quick or end == 0 or num == [1]:
            out.append(('vorts', [num, full, end]))
    for first, end in itertools.product(range(3), (0, 1)):
        if not quick or end == 0 or first == 1:
            out.append(('passes', [first, end, 2 if quick else 4]))
    for conv, kind in itertools.product(('smag', 'vort'), BOUNDS[:-1]):
        out.append(('full', [conv, kind]))
    out += [('paths', [reader]) for reader in READERS]
    out.append(('sizes', []))
    for conv, kind, start in itertools.product(('smag', 'vort'), BOUNDS,
                                               (-1, 0, 1)):
        if kind != 'none' or start == -1:
            out.append(('convert', [conv, kind, start]))
    for kind, start in itertools.product(('image', 'ampere', 'eab', 'dual'),
                                         (-1, 0, 1, 2, 3)):
        out.append(('objects', [kind, start, 2 if quick else 3]))
    return out
