"""P29: the printed summary of an object reports what the object holds."""
import datetime as dt
import itertools
import os
import re

from mc import gen, p22
from mc.gen import np, ocbpy
from mc.core import canon

TECHNIQUE = ('exhaustive enumeration of object configurations x operation '
             'histories on the real classes; in each state the printed '
             'summary is read back and compared with the attributes')
ORACLE = ('the attributes of the object: numbers, times, counts, names and '
          'the pairs of correction function and arguments that are in the '
          'text are those of the object, with none added and none left out')
BOUND = {'quick': 'boundaries: 2 classes x 3 instruments x 2 hemispheres x 7 '
                  'reference latitudes x 7 windows x 11 corrections, 0 to 7 '
                  'records and every '
                  'sequence of 2 of 9 operations; dual pairs of them; every '
                  'assignment of 4 corrections, two with the same name, to 3 '
                  'records; vectors: 9 index and shape layouts x components x '
                  'coordinates x names x 5 scaling functions x 5 histories',
         'thorough': 'sequences of 3 operations and the full products'}
JOB_CPU_LIMIT = 840
NUM = r'(-?(?:\d+(?:\.\d*)?(?:e[-+]?\d+)?|inf)|nan)'
TIME = r'(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d(?:\.\d+)?)'


def near(text, val, digits=2):
    """A number of the text is the value, to so many decimals"""
    val = float(val)
    if val != val:
        return text == 'nan'
    try:
        got = float(text)
    except ValueError:
        return False
    return abs(got - val) <= 0.5000001 * 10.0 ** -digits + 1e-12 * abs(val)


def sig(text, val, digits=3):
    """A number of the text is the value, to so many significant digits"""
    val = float(val)
    if val != val:
        return text == 'nan'
    try:
        got = float(text)
    except ValueError:
        return False
    if val == 0.0:
        return got == 0.0
    return abs(got - val) <= 0.5000001 * abs(val) * 10.0 ** (1 - digits)


def boundary(obj, text):
    """-> what is wrong with a summary of a boundary"""
    flat = ' '.join(text.split())
    name = type(obj).__name__
    if obj.filename is None:
        if not re.search(r'No %s file' % name, flat):
            return 'absence of a file', flat, name
        return None
    for part in (name, str(obj.filename), obj.instrument.upper(),
                 '%.1f' % obj.boundary_lat):
        if part not in text:
            return 'part of the summary', flat[:300], part
    rows = re.findall(r'^%s %s %s %s$' % (TIME, NUM, NUM, NUM), text, re.M)
    num = obj.records
    if num == 0:
        if 'No data' not in flat or rows or re.search(TIME, flat):
            return 'no records', flat, 'No data'
        return None
    if 'No data' in flat:
        return 'records', flat, num
    head = re.search(r'(\d+) records from %s to %s' % (TIME, TIME), flat)
    if head is None or head.groups() != (str(num), str(obj.dtime[0]),
                                         str(obj.dtime[-1])):
        return 'number and times of records', head and head.groups(), [
            num, obj.dtime[0], obj.dtime[-1]]
    show = sorted({0, min(1, num - 1), max(num - 2, 0), num - 1})
    if len(rows) != len(show):
        return 'rows', rows, show
    for row, i in zip(rows, show):
        if row[0] != str(obj.dtime[i]) or not (
                near(row[1], obj.phi_cent[i]) and near(row[2], obj.r_cent[i])
                and near(row[3], obj.r[i])):
            return 'record %d' % i, row, [obj.dtime[i], obj.phi_cent[i],
                                          obj.r_cent[i], obj.r[i]]
    want = sorted({'%s.%s(**%s)' % (f.__module__, f.__name__, kw)
                   for f, kw in zip(obj.rfunc, obj.rfunc_kwargs)})
    got = re.findall(r'^(\w[\w.]*\(\*\*.*\))$', text, re.M)
    if sorted(got) != want:
        return 'corrections', sorted(got), want
    return None


def pairs(obj, text):
    flat = ' '.join(text.split())
    num = re.search(r'(\d+) good boundary pairs', flat)
    if num is None or int(num.group(1)) != obj.records:
        return 'number of pairs', flat[:200], obj.records
    span = re.search(r'pairs from %s to %s Maximum' % (TIME, TIME), flat)
    want = None if obj.records == 0 else (str(obj.dtime[0]),
                                          str(obj.dtime[-1]))
    if (span and span.groups()) != want:
        return 'times of the pairs', span and span.groups(), want
    delta = re.search(r'difference of %s s' % NUM, flat)
    if delta is None or not near(delta.group(1), obj.max_delta, 1):
        return 'allowed difference', flat[:200], obj.max_delta
    cut = text.find('\n\n')
    both = text[cut:].strip()
    for one, two in ((obj.eab, obj.ocb), (obj.ocb, obj.eab)):
        if both.startswith(str(one).strip()) and both.endswith(
                str(two).strip()):
            break
    else:
        return 'summaries of the boundaries', both, [str(obj.eab),
                                                     str(obj.ocb)]
    for part in (obj.eab, obj.ocb):
        bad = boundary(part, str(part))
        if bad is not None:
            return bad
    return None


def at(val, i):
    return val if np.shape(val) == () else val[i]


def vector(obj, text):
    name, units = obj.dat_name, obj.dat_units
    if (name and name not in text) or (units and units not in text):
        return 'name and units', text[:200], [name, units]
    body = text
    if name:
        body = body.replace(name, '', 1)
    if units:
        body = body.replace(units, '', 1)
    flat = ' '.join(body.split())
    for what, val in (('Data Index', obj.dat_ind),
                      ('Boundary Index', obj.ocb_ind)):
        if '%s %s' % (what, ' '.join(str(val).split())) not in flat:
            return what, flat[:300], val
    # locations
    many = obj.dat_ind.shape != () or obj.ocb_ind.shape != ()
    size = max(obj.dat_ind.size, obj.ocb_ind.size)
    loc, edge = [], [m.start() for m in re.finditer('Value: Mag', body)]
    if len(edge) != 1:
        return 'values', flat, 'one part of values'
    top, low = body[:edge[0]], body[edge[0]:]
    end = r'(?:, (-?\d+))?\]'
    got = re.findall(r'^\s*(\w+): \[%s, %s, (N/A|%s)%s' % (
        NUM, NUM, NUM, end), top, re.M)
    data = [(m[0], m[1], m[2], m[3], m[5]) for m in got if m[0] != 'OCB']
    ocb = [(m[1], m[2], m[5]) for m in got if m[0] == 'OCB']
    for i in range(size):
        loc.append((at(obj.lat, i), at(obj.lt, i), at(obj.height, i),
                    at(obj.dat_ind, i) if many else None))
    if len(data) != size:
        # what is the same for all of them may be shown once
        if len({canon([float(v) for v in row[:3]] + [str(row[3])])
                for row in loc}) > 1 or len(data) != 1:
            return 'locations', data, loc
        loc = loc[:1]
    for row, want in zip(data, loc):
        if row[0] != obj.loc_coord or not (
                near(row[1], want[0], 3) and near(row[2], want[1], 3)
                and near(row[3], want[2], 1)) or row[4] != (
                    str(want[3]) if many else ''):
            return 'location', row, want
    if len(ocb) != size:
        return 'boundary locations', ocb, size
    for i, row in enumerate(ocb):
        if not (near(row[0], at(obj.ocb_lat, i), 3)
                and near(row[1], at(obj.ocb_mlt, i), 3)) or row[2] != (
                    str(at(obj.ocb_ind, i)) if many else ''):
            return 'boundary location', row, [i, obj.ocb_lat, obj.ocb_mlt]
    # values
    got = re.findall(r'^\s*(\w+): %s \[%s, %s, %s\](?: (-?\d+))?$' % (
        NUM, NUM, NUM, NUM), low, re.M)
    data = [m[1:] for m in got if m[0] != 'OCB']
    if [m[0] for m in got if m[0] != 'OCB'] != [obj.vect_coord] * len(data):
        return 'coordinates', got, obj.vect_coord
    many = obj.vect_mag.shape != () or obj.ocb_mag.shape != ()
    size = max(obj.vect_mag.size, obj.ocb_mag.size)
    val = [[at(v, i) for v in (obj.vect_mag, obj.vect_n, obj.vect_e,
                               obj.vect_z)] + [
                                   at(obj.dat_ind, i) if many else '']
           for i in range(size)]
    if len(data) != size:
        if len({canon([float(v) for v in row[:4]] + [str(row[4])])
                for row in val}) > 1 or len(data) != 1:
            return 'values', data, val
        val = val[:1]
    for row, want in zip(data, val):
        if not all(sig(a, b) for a, b in zip(row[:4], want[:4])) or \
           row[4] != str(want[4]):
            return 'value', row, want
    ocb = [m[1:] for m in got if m[0] == 'OCB']
    val = [[at(v, i) for v in (obj.ocb_mag, obj.ocb_n, obj.ocb_e,
                               obj.ocb_z)] + [
                                   at(obj.ocb_ind, i) if many else '']
           for i in range(size)]
    val = [row for row in val if row[0] == row[0]]
    if len(ocb) != len(val):
        return 'boundary values', ocb, val
    for row, want in zip(ocb, val):
        if not all(sig(a, b) for a, b in zip(row[:4], want[:4])) or \
           row[4] != str(want[4]):
            return 'boundary value', row, want
    if obj.scale_func is None:
        if 'No magnitude scaling function' not in flat:
            return 'scaling function', flat[-200:], None
    elif 'Scaling function: %s' % obj.scale_func.__name__ not in flat:
        return 'scaling function', flat[-200:], obj.scale_func.__name__
    return None


def check(obj, rep, case):
    rep.state(case)
    rep.step(1, 'summary')
    try:
        text = str(obj)
    except Exception as exc:
        rep.violate(case, 'no summary', repr(exc))
        return
    if hasattr(obj, 'max_delta'):
        bad = pairs(obj, text)
    elif hasattr(obj, 'dat_ind'):
        bad = vector(obj, text)
    else:
        bad = boundary(obj, text)
    rep.trace(case, bad[0] if bad else [len(text.split('\n')), len(
        text.split())])
    if bad is not None:
        rep.violate(case, 'summary: ' + bad[0], bad[1], bad[2])


def borrow(name, *params):
    """The states of P22, with this check in each"""
    def look(obj, hemi, rep, case, same):
        check(obj, rep, case)

    def run(rep):
        keep = p22.examine
        p22.examine = look
        try:
            getattr(p22, name)(list(params), rep)
        finally:
            p22.examine = keep
    return run


def shared(params, rep):
    borrow(*params)(rep)


def circular(mlt, r_add=0.0):
    """A correction that has the name of another one"""
    return np.asarray(mlt, dtype=float) * 0.0 + 2.0 * r_add


def names(params, rep):
    """Every assignment of corrections, some with the same name"""
    cls, num = params
    table = [(gen.ocbcor.circular, {'r_add': 1.0}),
             (circular, {'r_add': -2.5}), (gen.bump, {'amp': 0.5}),
             (gen.ocbcor.circular, {'r_add': 3.0}),
             (gen.ocbcor.harmonic, {'method': 'gaussian'})]
    path = gen.write('image', p22.records('image')[:num])
    for pick in itertools.product(range(len(table)), repeat=num):
        obj = p22.klass(cls)(
            filename=path, instrument='image', hemisphere=1,
            rfunc=np.array([table[k][0] for k in pick]),
            rfunc_kwargs=np.array([table[k][1] for k in pick]))
        check(obj, rep, [cls, pick])
    os.remove(path)


def counts(params, rep):
    """Number of records, values at the limits of the columns"""
    cls, inst = params
    for num, hemi, step in itertools.product(range(8), (1, -1), (
            60, 86400, 0.25)):
        if step < 1 and inst != 'image':
            continue
        recs = [gen.rec(gen.T0 + dt.timedelta(seconds=step * i), 9.996 + 5 * i,
                        x=(-1) ** i * 1.234 * i, y=2.345 - i)
                for i in range(num)]
        path = gen.write(inst, recs)
        obj = p22.klass(cls)(filename=path, instrument=inst, hemisphere=hemi)
        for cursor in range(-1, num + 1):
            obj.rec_ind = cursor
            check(obj, rep, [cls, inst, hemi, num, step, cursor])
        os.remove(path)


def jobs(tier):
    out = [('shared', [name] + params) for name, params in p22.jobs(tier)
           if name in ('config', 'history', 'duals', 'nofile', 'vectors')]
    for cls in ('ocb', 'eab'):
        for num in (1, 2, 3) + ((4,) if tier == 'thorough' else ()):
            out.append(('names', [cls, num]))
        for inst in p22.INSTS:
            out.append(('counts', [cls, inst]))
    return out
