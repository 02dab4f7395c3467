"""P21: the ASCII loader returns every row and column as written."""
import datetime as dt
import itertools
import math
import os

from mc import gen
from mc.gen import np
from mc.p10 import MON, daynum, micro

TECHNIQUE = ('exhaustive enumeration of table shapes, column types and '
             'orders, separators, header forms and written time formats; '
             'each table is written to disk and loaded with the real loader')
ORACLE = ('the typed cells the table was written from, and the instants its '
          'time columns were written from')
BOUND = {'quick': '0-5 rows x 1-4 columns x every assignment of the 3 types '
                  'x 6 separators x 9 header forms x 4 ways to give the '
                  'columns; 31 time layouts x every order of their columns x '
                  '4 placements x 4 row counts; special tables',
         'thorough': '0-9 rows x 1-6 columns x every assignment of types x '
                     '6 separators x 9 header forms; all time layouts x '
                     'orders x placements x 7 row counts x 4 years; tables '
                     'of up to 5000 rows'}
D = dt.datetime

REALS = ['1', '-2.5', '1e-3', 'nan', 'inf', '-1.25E+10', '0.1', '.5', '5.',
         '123456789.123456', '-0.0', '1.7976931348623157e308', '007.5']
INTS = ['0', '-7', '007', '9007199254740993', '+3', '42', '-2147483649',
        '1000000']
TEXTS = ['abc', 'x_y', '1', 'north', 'N/A', '2.50', '-', 'a:b', 'nan',
         'Longer-than-the-others', '001', 'T',
         'abcdefghij' * 5 + 'xyz']
SPACED = ['two words', 'a b c', 'plain', '7 of 9', 'x', 'Mc M']

# separator: header separator, data separator, extra arguments
SEPS = {'space': (' ', ' ', {}),
        'blanks': ('   ', '    ', {}),
        'tabs': ('\t', ' \t', {}),
        'padded': ('   ', '  ', {'hsplit': ' '}),
        'comma': (',', ',', {'hsplit': ',', 'gft_kwargs': {'delimiter': ','}}),
        'semicolon': (' ', ';', {'gft_kwargs': {'delimiter': ';'}})}
HEADS = ['plain', 'hash', 'hashglued', 'three', 'given', 'given2', 'override',
         'markgiven', 'othermark']


def build(path, names, rows, sep, head, end='\n', last=True):
    """Write the table; returns the arguments to load it and the header."""
    hsep, dsep, kwargs = SEPS[sep]
    kwargs = {key: (dict(val) if isinstance(val, dict) else val)
              for key, val in kwargs.items()}
    named = hsep.join(names)
    top, given = [named], None
    if head == 'hash':
        top = ['# ' + named]
    elif head == 'hashglued':
        top = ['#' + named]
    elif head == 'three':
        top = ['A table', '# of things, 3 lines', named]
    elif head == 'given':
        top, given = [], [named]
    elif head == 'given2':
        top, given = [], ['Something else', '#' + named]
    elif head == 'override':
        top, given = ['other names', 'and 12 more'], [named]
    elif head == 'markgiven':
        top = ['# ' + named]
        kwargs.setdefault('gft_kwargs', {})['comments'] = '#'
    elif head == 'othermark':
        top = ['first', named + '% units of these']
        kwargs.setdefault('gft_kwargs', {})['comments'] = '%'
    lines = top + [dsep.join(row) for row in rows]
    with open(path, 'w', newline='') as fout:
        fout.write(end.join(lines) + (end if last else ''))
    if given is not None:
        kwargs['header'] = list(given)
    return len(top), kwargs, (given or []) + [h.strip() for h in top]


def same(kind, got, text, maxlen=50):
    if kind == 'f':
        want = float(text)
        return (isinstance(got, (float, np.floating))
                and (got == want or (math.isnan(got) and math.isnan(want))))
    if kind == 'i':
        return isinstance(got, (int, np.integer)) and int(got) == int(text)
    return isinstance(got, (str, np.str_)) and str(got) == text[:maxlen]


def check(rep, case, path, hlines, kwargs, header, names, kinds, rows,
          times=None, tol=0, maxlen=50, dtname='datetime'):
    """Load the table and compare everything."""
    from ocbpy.instruments import general
    if os.path.getsize(path) == 0:
        # reported as an empty file, without names
        names, kinds, times, header = [], [], None, kwargs['header']
    rep.step(1, case['func'])
    before = repr(sorted((k, v) for k, v in kwargs.items()))
    rhead, out = general.load_ascii_data(path, hlines, **kwargs)
    if before != repr(sorted((k, v) for k, v in kwargs.items())):
        rep.violate(case, 'arguments altered', kwargs, before)
    if list(rhead) != header:
        rep.violate(case, 'header lines', rhead, header)
    keys = list(names) + ([dtname] if times is not None else [])
    if sorted(out) != sorted(keys):
        rep.violate(case, 'names', sorted(out), sorted(keys))
        return
    for i, (name, kind) in enumerate(zip(names, kinds)):
        vals = out[name]
        if len(vals) != len(rows):
            rep.violate(case, 'number of rows of %s' % name, len(vals),
                        len(rows))
            continue
        if len(rows) and not (isinstance(vals, np.ndarray)
                              and vals.ndim == 1
                              and vals.dtype.kind == {'f': 'f', 'i': 'i',
                                                      's': 'U'}[kind]):
            rep.violate(case, 'type of %s' % name, getattr(
                vals, 'dtype', type(vals)), kind)
            continue
        for j, row in enumerate(rows):
            if not same(kind, vals[j], row[i].strip(), maxlen):
                rep.violate(case, 'value %d of %s' % (j, name), vals[j],
                            row[i])
                break
    if times is not None:
        got = out[dtname]
        if len(got) != len(times):
            rep.violate(case, 'number of times', len(got), len(times))
        for j, want in enumerate(times[:len(got)]):
            if not isinstance(got[j], dt.datetime) or abs(
                    micro(got[j]) - micro(want)) > tol:
                rep.violate(case, 'time of row %d' % j, got[j], want)
                break


def shapes(params, rep):
    """All shapes, column types, separators and header forms"""
    ncol, nrow = params['ncol'], params['nrow']
    path = os.path.join(gen.jobdir(), 'table')
    num = 0
    for kinds in itertools.product('fis', repeat=ncol):
        for isep, sep in enumerate(SEPS):
            for ihead, head in enumerate(HEADS):
                if params['tier'] == 'quick' and ncol > 3 and (
                        isep + ihead + num + nrow) % 2:
                    num += 1
                    continue
                num += 1
                names = ['col%d' % i for i in range(ncol)]
                if num % 4 == 1:
                    names = ['Bn', 'b_n', 'r(1)', 'lat[deg]', 'X', 'x'][:ncol]
                if sep == 'comma' and num % 2:
                    names = ['the %s one' % n for n in names]
                rows = []
                for j in range(nrow):
                    row = []
                    for i, kind in enumerate(kinds):
                        alpha = {'f': REALS, 'i': INTS, 's': TEXTS}[kind]
                        if kind == 's' and dlm(sep):
                            alpha = SPACED
                        row.append(alpha[(num + 3 * j + 5 * i) % len(alpha)])
                    rows.append(row)
                icols = [i for i in range(ncol) if kinds[i] == 'i']
                scols = [i for i in range(ncol) if kinds[i] == 's']
                hlines, kwargs, header = build(
                    path, names, rows, sep, head, last=bool(num % 3))
                form = num % 4
                if form == 1:
                    icols, scols = tuple(icols), tuple(scols)
                elif form == 2:
                    icols = [i - ncol for i in icols]
                    scols = np.array(scols, dtype=int)
                elif form == 3:
                    icols = icols[::-1]
                    scols = scols + scols
                if len(icols) or num % 2:
                    kwargs['int_cols'] = icols
                if len(scols) or num % 2:
                    kwargs['str_cols'] = scols
                maxlen = 50
                if num % 5 == 0:
                    maxlen = kwargs['max_str_length'] = [
                        1, 2, 3, 4, 7, 52, 60][num % 7]
                case = {'func': 'shapes', 'kinds': ''.join(kinds),
                        'rows': nrow, 'sep': sep, 'head': head, 'names': names,
                        'form': form, 'table': rows[:3]}
                check(rep, case, path, hlines, kwargs, header, names, kinds,
                      rows, maxlen=maxlen)
                rep.state((kinds, nrow, sep, head, form, maxlen))
    rep.trace({'ncol': ncol, 'nrow': nrow}, num)


def dlm(sep):
    return 'gft_kwargs' in SEPS[sep][2]


def mon(t, num=None):
    return MON[t.month - 1][:num]


def sod(t):
    return t.hour * 3600 + t.minute * 60 + t.second


def doy(t):
    return daynum(t.year, t.month, t.day) - daynum(t.year, 1, 1) + 1


# each column: format token, text, kind when nothing is requested
# resolution in microseconds follows
LAYOUTS = {
    'date': ([('%Y-%m-%d', lambda t: '%04d-%02d-%02d' % (
        t.year, t.month, t.day), 's')], 'd'),
    'datecompact': ([('%Y%m%d', lambda t: '%04d%02d%02d' % (
        t.year, t.month, t.day), 's')], 'd'),
    'us': ([('%m/%d/%Y', lambda t: '%02d/%02d/%04d' % (
        t.month, t.day, t.year), 's')], 'd'),
    'iso': ([('%Y-%m-%dT%H:%M:%S', lambda t: '%04d-%02d-%02dT%02d:%02d:%02d' %
              (t.year, t.month, t.day, t.hour, t.minute, t.second), 's')],
            's'),
    'isomicro': ([('%Y-%m-%dT%H:%M:%S.%f', lambda t:
                   '%04d-%02d-%02dT%02d:%02d:%02d.%06d' % (
                       t.year, t.month, t.day, t.hour, t.minute, t.second,
                       t.microsecond), 's')], 'u'),
    'glued': ([('%Y%m%d%H%M%S', lambda t: '%04d%02d%02d%02d%02d%02d' % (
        t.year, t.month, t.day, t.hour, t.minute, t.second), 's')], 's'),
    'longmonth': ([('%d-%B-%Y', lambda t: '%02d-%s-%04d' % (
        t.day, mon(t), t.year), 's')], 'd'),
    'date time': ([('%Y-%m-%d', lambda t: '%04d-%02d-%02d' % (
        t.year, t.month, t.day), 's'),
        ('%H:%M:%S', lambda t: '%02d:%02d:%02d' % (t.hour, t.minute,
                                                   t.second), 's')], 's'),
    'date micro': ([('%Y/%m/%d', lambda t: '%04d/%02d/%02d' % (
        t.year, t.month, t.day), 's'),
        ('%H:%M:%S.%f', lambda t: '%02d:%02d:%02d.%06d' % (
            t.hour, t.minute, t.second, t.microsecond), 's')], 'u'),
    'ampere': ([('%Y%m%d', lambda t: '%04d%02d%02d' % (
        t.year, t.month, t.day), 's'),
        ('%H:%M', lambda t: '%02d:%02d' % (t.hour, t.minute), 's')], 'm'),
    'date hour': ([('%d.%m.%Y', lambda t: '%02d.%02d.%04d' % (
        t.day, t.month, t.year), 's'),
        ('%H', lambda t: '%02d' % t.hour, 's')], 'h'),
    'date hms': ([('%y%m%d', lambda t: '%02d%02d%02d' % (
        t.year % 100, t.month, t.day), 's'),
        ('%H%M%S', lambda t: '%02d%02d%02d' % (t.hour, t.minute, t.second),
         's')], 's'),
    'ampm': ([('%Y-%m-%d', lambda t: '%04d-%02d-%02d' % (
        t.year, t.month, t.day), 's'),
        ('%I:%M:%S', lambda t: '%02d:%02d:%02d' % (
            t.hour % 12 or 12, t.minute, t.second), 's'),
        ('%p', lambda t: 'AM' if t.hour < 12 else 'PM', 's')], 's'),
    'y m d': ([('%Y', lambda t: '%04d' % t.year, 's'),
               ('%m', lambda t: '%02d' % t.month, 's'),
               ('%d', lambda t: '%02d' % t.day, 's')], 'd'),
    'd mon y': ([('%d', lambda t: '%d' % t.day, 's'),
                 ('%b', lambda t: mon(t, 3), 's'),
                 ('%Y', lambda t: '%04d' % t.year, 's')], 'd'),
    'month y d': ([('%B', mon, 's'), ('%Y', lambda t: '%04d' % t.year, 's'),
                   ('%d', lambda t: '%d' % t.day, 's')], 'd'),
    'y j': ([('%Y', lambda t: '%04d' % t.year, 's'),
             ('%j', lambda t: '%03d' % doy(t), 's')], 'd'),
    'y j hms': ([('%Y', lambda t: '%04d' % t.year, 's'),
                 ('%j', lambda t: '%d' % doy(t), 's'),
                 ('%H:%M:%S', lambda t: '%02d:%02d:%02d' % (
                     t.hour, t.minute, t.second), 's')], 's'),
    'yj hm s': ([('%Y-%j', lambda t: '%04d-%03d' % (t.year, doy(t)), 's'),
                 ('%H:%M', lambda t: '%02d:%02d' % (t.hour, t.minute), 's'),
                 ('%S', lambda t: '%d' % t.second, 's')], 's'),
    'ymd h': ([('%Y', lambda t: '%04d' % t.year, 's'),
               ('%m', lambda t: '%d' % t.month, 's'),
               ('%d', lambda t: '%d' % t.day, 's'),
               ('%H', lambda t: '%d' % t.hour, 's')], 'h'),
    'six': ([('%Y', lambda t: '%04d' % t.year, 's'),
             ('%m', lambda t: '%d' % t.month, 's'),
             ('%d', lambda t: '%d' % t.day, 's'),
             ('%H', lambda t: '%d' % t.hour, 's'),
             ('%M', lambda t: '%d' % t.minute, 's'),
             ('%S', lambda t: '%d' % t.second, 's')], 's'),
    'year soy': ([('YEAR', lambda t: '%04d' % t.year, 'i'),
                  ('SOY', lambda t: '%d' % ((doy(t) - 1) * 86400 + sod(t)),
                   'i')], 's'),
    'year soy low': ([('year', lambda t: '%04d' % t.year, 'i'),
                      ('soy', lambda t: '%08d' % (
                          (doy(t) - 1) * 86400 + sod(t)), 'i')], 's'),
    'date sod': ([('%Y-%m-%d', lambda t: '%04d-%02d-%02d' % (
        t.year, t.month, t.day), 's'),
        ('SOD', lambda t: '%d' % sod(t), 'f')], 's'),
    'date sodfrac': ([('%Y%m%d', lambda t: '%04d%02d%02d' % (
        t.year, t.month, t.day), 's'),
        ('SOD', lambda t: '%d.%06d' % (sod(t), t.microsecond), 'f')], 'f'),
    'y j sod': ([('%Y', lambda t: '%04d' % t.year, 's'),
                 ('%j', lambda t: '%03d' % doy(t), 's'),
                 ('SOD', lambda t: '%d' % sod(t), 'f')], 's'),
    'y m d sodlow': ([('%Y', lambda t: '%04d' % t.year, 's'),
                      ('%m', lambda t: '%02d' % t.month, 's'),
                      ('%d', lambda t: '%02d' % t.day, 's'),
                      ('sod', lambda t: '%d' % sod(t), 'f')], 's'),
    'yyddd': ([('YYDDD', lambda t: '%02d%03d' % (t.year - 1900, doy(t)),
                's')], 'd'),
    'yyddd hms': ([('YYDDD', lambda t: '%02d%03d' % (t.year - 1900, doy(t)),
                    's'),
                   ('%H:%M:%S', lambda t: '%02d:%02d:%02d' % (
                       t.hour, t.minute, t.second), 's')], 's'),
    'yyddd hm': ([('yyddd', lambda t: '%02d%03d' % (t.year - 1900, doy(t)),
                   's'),
                  ('%H-%M', lambda t: '%02d-%02d' % (t.hour, t.minute),
                   's')], 'm'),
    'yyddd sod': ([('yyddd', lambda t: '%02d%03d' % (t.year - 1900, doy(t)),
                    's'),
                   ('SOD', lambda t: '%d' % sod(t), 'f')], 's')}
RES = {'d': dict(hour=0, minute=0, second=0, microsecond=0),
       'h': dict(minute=0, second=0, microsecond=0),
       'm': dict(second=0, microsecond=0), 's': dict(microsecond=0),
       'u': {}, 'f': {}}
INSTANTS = [(1, 1, 0, 0, 0, 0), (2, 28, 23, 59, 59, 999999),
            (3, 1, 12, 0, 1, 1), (12, 31, 11, 59, 58, 500000),
            (7, 4, 9, 8, 7, 60504), (10, 11, 13, 14, 15, 160000),
            (12, 1, 1, 2, 3, 4), (5, 30, 22, 40, 0, 250000),
            (6, 9, 0, 0, 9, 90), (2, 10, 3, 4, 5, 0)]


def orders(cols):
    """Orders in which the time columns are given."""
    out = list(itertools.permutations(range(len(cols))))
    if len(cols) > 4:
        out = out[::7] + [out[-1]]
    return out


def layouts(params, rep):
    """Time layouts x order of columns x placement x rows"""
    cols, res = LAYOUTS[params['layout']]
    path = os.path.join(gen.jobdir(), 'table')
    quick = params['tier'] == 'quick'
    years = [2010, 2012] if quick else [1999, 2000, 2010, 2012]
    nums = [0, 1, 2, 5] if quick else [0, 1, 2, 3, 5, 9, 10]
    place = ['before', 'after', 'between', 'spread']
    count = 0
    ncol = len(cols)
    for order, plc, nrow, year in itertools.product(orders(cols), place, nums,
                                                    years):
        # where the formats of the request name AM/PM before the hour the
        # order is still that of the columns of a time of day
        count += 1
        # physical order of the time columns in the file
        phys = [list(range(ncol)), list(range(ncol))[::-1],
                list(order)][count % 3]
        body = [('T', i) for i in phys]
        data = [('D', i, 'fis'[(count + i) % 3]) for i in range(
            0 if plc == 'before' and count % 2 else 3)]
        if plc == 'before':
            tab = body + data
        elif plc == 'after':
            tab = data + body
        elif plc == 'between':
            tab = data[:2] + body + data[2:]
        else:
            tab = []
            for i in range(max(len(body), len(data))):
                tab += data[i:i + 1] + body[i:i + 1]
        stamps = [D(year, *INSTANTS[(count + 7 * j) % 10]) for j in
                  range(nrow)]
        times = [t.replace(**RES[res]) for t in stamps]
        rows, names, kinds = [], [], []
        icols, scols = [], []
        dcols = [None] * ncol
        ask = None
        for k, item in enumerate(tab):
            if item[0] == 'T':
                names.append('t%d' % item[1])
                kind = cols[item[1]][2]
                dcols[item[1]] = k
                # some time columns are also requested as a type
                digits = cols[item[1]][1](D(2010, 12, 31, 12, 1, 1)).isdigit()
                if count % 5 == 2 and digits and ask is None:
                    ask = kind = 'i'
                    icols.append(k)
                elif count % 5 == 4 and ask is None:
                    ask = kind = 's'
                    scols.append(k)
                kinds.append(kind)
            else:
                names.append('d%d' % item[1])
                kinds.append(item[2])
                if item[2] == 'i':
                    icols.append(k)
                elif item[2] == 's':
                    scols.append(k)
        sep = list(SEPS)[count % 6]
        for j in range(nrow):
            row = []
            for k, item in enumerate(tab):
                if item[0] == 'T':
                    row.append(cols[item[1]][1](stamps[j]))
                else:
                    alpha = {'f': REALS, 'i': INTS, 's': TEXTS}[item[2]]
                    row.append(alpha[(count + 3 * j + item[1]) % len(alpha)])
            rows.append(row)
        head = HEADS[(count // 5) % len(HEADS)]
        hlines, kwargs, header = build(path, names, rows, sep, head)
        fmt = ' '.join(cols[i][0] for i in order)
        maxlen = 50
        if count % 7 == 3:
            # room for the time is always made
            kwargs['max_str_length'] = 0
            maxlen = max(0, len(fmt))
            if 's' in kinds and any(
                    len(r[i]) > maxlen for r in rows
                    for i in range(len(kinds)) if kinds[i] == 's'):
                kwargs['max_str_length'] = maxlen = 50
        dlist = [dcols[i] for i in order]
        if count % 4 == 1:
            dlist = tuple(dlist)
        elif count % 4 == 3:
            dlist = [i - len(tab) for i in dlist]
            icols = [i - len(tab) for i in icols]
        kwargs.update({'datetime_cols': dlist, 'datetime_fmt': fmt})
        if icols or count % 2:
            kwargs['int_cols'] = icols
        if scols or count % 2:
            kwargs['str_cols'] = scols
        case = {'func': 'layouts', 'fmt': fmt, 'cols': list(dlist),
                'place': plc, 'sep': sep, 'head': head, 'kinds': kinds,
                'table': rows[:3], 'ask': ask}
        check(rep, case, path, hlines, kwargs, header, names, kinds, rows,
              times, tol=1 if res == 'f' else 0, maxlen=maxlen)
        rep.state((fmt, plc, nrow, sep, head, ask, tuple(dlist)))
    rep.trace({'layout': params['layout']}, count)


def special(params, rep):
    """Comments, blank lines, line ends, time names, unusual files"""
    from ocbpy.instruments import general
    path = os.path.join(gen.jobdir(), 'table')
    body = ['1 2 x', '3 4 y', '5 6 z']
    rows = [b.split() for b in body]
    names, kinds = ['a', 'b', 'c'], 'fis'
    kwargs = {'int_cols': [1], 'str_cols': [2]}
    for where in range(4):
        for junk in ('', '# a comment', '   ', '#', '\t'):
            for tail in ('', '  # note', ' #'):
                for end in ('\n', '\r\n'):
                    for pad in ('', '  '):
                        lines = [pad + b + tail for b in body]
                        lines.insert(where, junk)
                        with open(path, 'w', newline='') as fout:
                            fout.write(end.join(['a b c'] + lines) + end)
                        check(rep, {'func': 'special', 'where': where,
                                    'junk': junk, 'tail': tail, 'end': end,
                                    'pad': pad}, path, 1, dict(kwargs),
                              ['a b c'], names, kinds, rows)
                        rep.state((where, junk, tail, end, pad))
    # the name of the times avoids the names of the table
    dtn = ['datetime', 'DATETIME', 'DT', 'dt']
    for num in range(5):
        for used in itertools.combinations(dtn, num):
            free = [n for n in dtn if n not in used]
            names = ['d'] + list(used)
            rows = [['2010-06-0%d' % (i + 1)] + [
                '%d.5' % (i + j) for j in range(num)] for i in range(3)]
            hlines, kw, header = build(path, names, rows, 'space', 'plain')
            kw.update({'datetime_cols': [0], 'datetime_fmt': '%Y-%m-%d'})
            if free:
                check(rep, {'func': 'special', 'names': names}, path, hlines,
                      kw, header, names, 's' + 'f' * num, rows,
                      [D(2010, 6, i + 1) for i in range(3)], dtname=free[0])
            else:
                check(rep, {'func': 'special', 'names': names}, path, hlines,
                      kw, header, names, 's' + 'f' * num, rows)
            rep.state(tuple(names))
    # unusable files
    for name, text in (('missing', None), ('empty', ''), ('dir', None)):
        target = os.path.join(gen.jobdir(), name)
        if text is not None:
            open(target, 'w').close()
        if name == 'dir':
            os.makedirs(target, exist_ok=True)
        for header in (None, [], ['a b']):
            got = general.load_ascii_data(target, 1, header=header)
            rep.step(1, 'special')
            if got[0] != (header or []) or got[1] != {}:
                rep.violate({'func': 'special', 'file': name,
                             'header': header}, 'result', got)
            rep.state((name, header))
    # repeated loads are independent
    hlines, kw, header = build(path, ['a', 'b', 'c'], [b.split() for b in
                                                       body], 'space', 'plain')

    for i in range(4):
        check(rep, {'func': 'special', 'repeat': i}, path, hlines,
              dict(kwargs), header, ['a', 'b', 'c'], 'fis',
              [b.split() for b in body])

    rep.trace({'special': 1}, None)


def large(params, rep):
    """Long and wide tables"""
    path = os.path.join(gen.jobdir(), 'table')
    for nrow, ncol in params['sizes']:
        kinds = [('f', 'i', 's')[i % 3] for i in range(ncol)]
        names = ['n%d' % i for i in range(ncol)]
        stamps = [D(2011, 12, 31, 12) + dt.timedelta(seconds=37 * j) for j in
                  range(nrow)]
        rows = [['%d' % t.year, '%d' % ((doy(t) - 1) * 86400 + sod(t))] + [
            {'f': '%r' % (0.37 * j - 3 * i), 'i': '%d' % (j * i - 5),
             's': 'r%dc%d' % (j, i)}[kinds[i]] for i in range(ncol)]
            for j, t in enumerate(stamps)]
        hlines, kw, header = build(path, ['Y', 'S'] + names, rows, 'space',
                                   'three')
        kw.update({'datetime_cols': [0, 1], 'datetime_fmt': 'YEAR SOY',
                   'int_cols': [i + 2 for i in range(ncol)
                                if kinds[i] == 'i'],
                   'str_cols': [i + 2 for i in range(ncol)
                                if kinds[i] == 's']})
        check(rep, {'func': 'large', 'rows': nrow, 'cols': ncol}, path,
              hlines, kw, header, ['Y', 'S'] + names, ['i', 'i'] + kinds, rows,
              stamps)
        rep.state((nrow, ncol))
        rep.trace({'rows': nrow, 'cols': ncol}, None)


def jobs(tier):
    quick = tier == 'quick'
    out = [('shapes', {'ncol': c, 'nrow': r, 'tier': tier})
           for c in range(1, 5 if quick else 6)
           for r in ([0, 1, 2, 3, 5] if quick else range(10))]
    if not quick:
        out += [('shapes', {'ncol': 6, 'nrow': r, 'tier': 'quick'})
                for r in range(1, 5)]
    out += [('layouts', {'layout': name, 'tier': tier}) for name in LAYOUTS]
    out.append(('special', {}))
    out.append(('large', {'sizes': [(300, 5), (20, 40)] if quick else
                          [(5000, 5), (500, 60), (40, 400)]}))
    return out
