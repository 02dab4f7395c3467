"""P10: every supported time format converts to the same calendar instant."""
import datetime as dt

from mc import gen
from mc.gen import np
from ocbpy import ocb_time

TECHNIQUE = ('exhaustive enumeration of calendar days x times of day x '
             'written formats x input types on the real code, against an '
             'independent proleptic Gregorian calendar')
ORACLE = ('the instant computed by integer day counting differs by no more '
          'than the resolution of the format')
BOUND = {'quick': 'every day of 201 years (yyddd), every day of 9 years x 24 '
                  'seconds of the day (year and second), every minute of 3 '
                  'days, 23 date formats x 14 time formats x 60 days x 11 '
                  'times, yyddd with 9 format spellings',
         'thorough': 'every second of one year and of the end of 8 others, '
                     'every day of 201 years in every format'}
ASSUMPTIONS = ['second of year is documented to resolve whole seconds; '
               'seconds of the day microseconds']

CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
MON = ['January', 'February', 'March', 'April', 'May', 'June', 'July',
       'August', 'September', 'October', 'November', 'December']


def leap(y):
    return (y % 4 == 0 and y % 100 != 0) or y % 400 == 0


def ydays(y):
    return 366 if leap(y) else 365


def month_day(y, doy):
    """Month and day of the month of a day of year (from 1)"""
    rest = doy
    for m in range(12):
        num = [31, 29 if leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30,
               31][m]
        if rest <= num:
            return m + 1, rest
        rest -= num
    raise ValueError(doy)


def daynum(y, m, d):
    """Days since 0000-03-01 (proleptic Gregorian)"""
    y0 = y - 1 if m <= 2 else y
    mp = (m + 9) % 12
    return 365 * y0 + y0 // 4 - y0 // 100 + y0 // 400 + (153 * mp + 2) // 5 \
        + d - 1


def micro(t):
    """Absolute microseconds of a datetime, without datetime arithmetic"""
    return ((daynum(t.year, t.month, t.day) * 24 + t.hour) * 60
            + t.minute) * 60000000 + t.second * 1000000 + t.microsecond


def exact(y, doy, us):
    """Absolute microseconds of a microsecond of a day of a year"""
    m, d = month_day(y, doy)
    return daynum(y, m, d) * 86400000000 + us


def check(rep, case, got, want, tol):
    rep.step(1, case['func'])
    if not isinstance(got, dt.datetime) or got.tzinfo is not None:
        rep.violate(case, 'not a datetime', got)
    elif abs(micro(got) - want) > tol:
        rep.violate(case, 'another instant (difference %.6f s)' %
                    ((micro(got) - want) * 1.0e-6), got)


SODS = [0, 1, 2, 59, 60, 61, 3599, 3600, 3661, 7322, 35999, 36000, 43199,
        43200, 43201, 46861, 82799, 82800, 86339, 86340, 86397, 86398, 86399,
        71999]
FRAC = [0.25, 0.499, 0.5, 0.501, 0.75, 0.999, 0.999999]
YEARS = [1900, 1970, 1999, 2000, 2001, 2004, 2010, 2100, 1996]


def year_soy(params, rep):
    y = params['year']
    types = [(int, float), (int, int), (np.int64, np.float64),
             (np.int32, np.int64)]
    for doy in range(1, ydays(y) + 1):
        for i, sod in enumerate(SODS):
            soy = (doy - 1) * 86400 + sod
            ty, ts = types[(doy + i) % 4]
            if (doy + i) % 3:
                got = ocb_time.year_soy_to_datetime(int(y), ts(soy))
            else:
                got = ocb_time.convert_time(year=int(y), soy=ts(soy))
            check(rep, {'func': 'year_soy', 'year': y, 'soy': soy,
                        'type': ts.__name__}, got,
                  exact(y, doy, sod * 1000000), 0)
            rep.state((y, soy))
        for i, frac in enumerate(FRAC):
            sod = SODS[(doy + 3 * i) % len(SODS)]
            soy = (doy - 1) * 86400 + sod + frac
            got = ocb_time.convert_time(year=y, soy=soy)
            check(rep, {'func': 'year_soy', 'year': y, 'soy': soy}, got,
                  exact(y, doy, sod * 1000000 + int(round(frac * 1e6))),
                  500002)
            rep.state((y, soy))
        rep.trace({'year': y, 'doy': doy}, None)
    # beyond the end of the year
    for extra in (0, 1, 86399, 86400, 172801):
        got = ocb_time.convert_time(year=y, soy=ydays(y) * 86400 + extra)
        check(rep, {'func': 'year_soy', 'year': y, 'beyond': extra}, got,
              exact(y + 1, 1, 0) + extra * 1000000, 0)
    if params['tier'] == 'thorough':
        first = 1 if y == 2000 else ydays(y) - 1
        for doy in range(first, ydays(y) + 1):
            for sod in range(86400):
                got = ocb_time.year_soy_to_datetime(
                    y, (doy - 1) * 86400 + sod)
                check(rep, {'func': 'year_soy', 'year': y, 'doy': doy,
                            'sod': sod}, got, exact(y, doy, sod * 1000000), 0)
    else:
        for doy in (1, 60, ydays(y)):
            for sod in range(0, 86400, 60):
                got = ocb_time.year_soy_to_datetime(
                    y, float((doy - 1) * 86400 + sod))
                check(rep, {'func': 'year_soy', 'year': y, 'doy': doy,
                            'sod': sod}, got, exact(y, doy, sod * 1000000), 0)


def yyddd_text(y, doy):
    return '%02d%03d' % (y - 1900, doy)


def day_of_year(params, rep):
    """Years since 1900 and day of year"""
    for y in range(params['lo'], params['hi']):
        for doy in range(1, ydays(y) + 1):
            text = yyddd_text(y, doy)
            want = exact(y, doy, 0)
            got = ocb_time.yyddd_to_date(text)
            check(rep, {'func': 'yyddd_to_date', 'yyddd': text}, got, want, 0)
            rep.state(text)
            if doy in (1, 59, 60, 61, 100, 365, 366) \
               or params['tier'] == 'thorough':
                for dec in ('.0', '.5', '.999', '.'):
                    got = ocb_time.yyddd_to_date(text + dec)
                    check(rep, {'func': 'yyddd_to_date', 'yyddd':
                                text + dec}, got, want, 0)
                got = ocb_time.convert_time(yyddd=text)
                check(rep, {'func': 'yyddd', 'yyddd': text}, got, want, 0)
                for sod in (0, 1, 43200.5, 86399, 86399.75):
                    got = ocb_time.convert_time(yyddd=text, sod=sod)
                    check(rep, {'func': 'yyddd+sod', 'yyddd': text,
                                'sod': sod}, got, want + int(sod * 1e6), 2)
                got = ocb_time.convert_time(yyddd=text, tod='23:59:58')
                check(rep, {'func': 'yyddd+tod', 'yyddd': text}, got,
                      want + 86398000000, 0)
        rep.trace({'year': y, 'format': 'yyddd'}, None)
    for bad in (10126, 100126.0, None, ['100126'], b'100126', np.int64(99001)):
        try:
            got = ocb_time.yyddd_to_date(bad)
            rep.violate({'func': 'yyddd_to_date', 'bad': repr(bad)},
                        'invalid input is accepted', got)
        except ValueError:
            pass
        rep.step(1, 'reject')


DATE_FMTS = {
    '%Y-%m-%d': lambda y, m, d, j: '%04d-%02d-%02d' % (y, m, d),
    '%Y%m%d': lambda y, m, d, j: '%04d%02d%02d' % (y, m, d),
    '%d-%m-%Y': lambda y, m, d, j: '%02d-%02d-%04d' % (d, m, y),
    '%m/%d/%Y': lambda y, m, d, j: '%02d/%02d/%04d' % (m, d, y),
    '%d/%m/%y': lambda y, m, d, j: '%02d/%02d/%02d' % (d, m, y % 100),
    '%y%m%d': lambda y, m, d, j: '%02d%02d%02d' % (y % 100, m, d),
    '%Y-%j': lambda y, m, d, j: '%04d-%03d' % (y, j),
    '%Y%j': lambda y, m, d, j: '%04d%03d' % (y, j),
    '%j.%Y': lambda y, m, d, j: '%03d.%04d' % (j, y),
    '%y %j': lambda y, m, d, j: '%02d %03d' % (y % 100, j),
    '%d %B %Y': lambda y, m, d, j: '%02d %s %04d' % (d, MON[m - 1], y),
    '%B %d, %Y': lambda y, m, d, j: '%s %02d, %04d' % (MON[m - 1], d, y),
    '%b-%d-%Y': lambda y, m, d, j: '%s-%02d-%04d' % (MON[m - 1][:3], d, y),
    '%d%b%y': lambda y, m, d, j: '%02d%s%02d' % (d, MON[m - 1][:3], y % 100),
    '%Y.%m.%d': lambda y, m, d, j: '%04d.%02d.%02d' % (y, m, d),
    '%Y %m %d': lambda y, m, d, j: '%04d %02d %02d' % (y, m, d),
    '%d %m %Y': lambda y, m, d, j: '%d %d %04d' % (d, m, y),
    '(%Y)(%m)(%d)': lambda y, m, d, j: '(%04d)(%02d)(%02d)' % (y, m, d),
    'day %d of %m/%Y': lambda y, m, d, j: 'day %02d of %02d/%04d' % (d, m, y),
    '%Y_%m_%d': lambda y, m, d, j: '%04d_%02d_%02d' % (y, m, d),
    '%Y:%m:%d': lambda y, m, d, j: '%04d:%02d:%02d' % (y, m, d),
    '%Y:%j': lambda y, m, d, j: '%04d:%03d' % (y, j),
    '%YD%j': lambda y, m, d, j: '%04dD%03d' % (y, j)}


def ampm(h):
    return (h % 12 or 12), 'AM' if h < 12 else 'PM'


TIME_FMTS = {
    '%H:%M:%S': (lambda h, m, s, u: '%02d:%02d:%02d' % (h, m, s), 1000000),
    '%H:%M': (lambda h, m, s, u: '%02d:%02d' % (h, m), 60000000),
    '%H': (lambda h, m, s, u: '%02d' % h, 3600000000),
    '%H%M%S': (lambda h, m, s, u: '%02d%02d%02d' % (h, m, s), 1000000),
    '%H-%M-%S': (lambda h, m, s, u: '%02d-%02d-%02d' % (h, m, s), 1000000),
    '%H %M %S': (lambda h, m, s, u: '%02d %02d %02d' % (h, m, s), 1000000),
    '%H%M': (lambda h, m, s, u: '%02d%02d' % (h, m), 60000000),
    '%H:%M:%S.%f': (lambda h, m, s, u: '%02d:%02d:%02d.%06d' % (h, m, s, u),
                    1),
    '%H%M%S%f': (lambda h, m, s, u: '%02d%02d%02d%06d' % (h, m, s, u), 1),
    '%S:%M:%H': (lambda h, m, s, u: '%02d:%02d:%02d' % (s, m, h), 1000000),
    '%I:%M:%S %p': (lambda h, m, s, u: '%02d:%02d:%02d %s' % (
        ampm(h)[0], m, s, ampm(h)[1]), 1000000),
    '%I%p': (lambda h, m, s, u: '%02d%s' % ampm(h), 3600000000),
    'T%H:%M:%SZ': (lambda h, m, s, u: 'T%02d:%02d:%02dZ' % (h, m, s),
                   1000000),
    # decimals beyond the format are dropped
    '%H:%M:%S ': (None, 1000000)}
TODS = [(0, 0, 0, 0), (0, 0, 1, 1), (0, 1, 0, 0), (1, 2, 3, 456789),
        (11, 59, 59, 999999), (12, 0, 0, 0), (12, 30, 5, 500000),
        (13, 1, 59, 1), (21, 45, 10, 250000), (23, 0, 0, 0),
        (23, 59, 59, 999999)]


def days(tier, y):
    last = ydays(y)
    if tier == 'thorough':
        return range(1, last + 1)
    return sorted(set([1, 2, 31, 32, 59, 60, 61, 90, 91, 99, 100, 101, 121,
                       182, 213, 244, 274, 305, last - 30, last - 31,
                       last - 1, last]))


def written(params, rep):
    """Date and time of day in every format"""
    tier, years = params['tier'], params['years']
    tfmts = sorted(TIME_FMTS)
    for y in years:
        for doy in days(tier, y):
            m, d = month_day(y, doy)
            for i, dfmt in enumerate(sorted(DATE_FMTS)):
                if '%y' in dfmt and not 1969 <= y <= 2068:
                    continue
                date = DATE_FMTS[dfmt](y, m, d, doy)
                base = exact(y, doy, 0)
                # the date alone, with or without a time in the format
                for fmt in (dfmt, dfmt + ' %H:%M:%S', dfmt + ' SOD'):
                    got = ocb_time.convert_time(date=date, datetime_fmt=fmt)
                    check(rep, {'func': 'date', 'date': date, 'fmt': fmt},
                          got, base, 0)
                # seconds of the day
                for j, sod in enumerate((0, 59.5, 3600, 86399,
                                         86399.999999, 43200.25, 100000)):
                    if (j + doy) % 2:
                        sod = np.float64(sod)
                    fmt = [dfmt, dfmt + ' SOD', dfmt + ' %H:%M:%S'][
                        (j + doy + i) % 3]
                    got = ocb_time.convert_time(date=date, sod=sod,
                                                datetime_fmt=fmt)
                    check(rep, {'func': 'date+sod', 'date': date, 'sod': sod,
                                'fmt': fmt}, got, base + int(round(
                                    sod * 1e6)), 2)
                for k, tfmt in enumerate(tfmts):
                    if tier == 'quick' and (i + k + doy) % 4:
                        continue
                    func, res = TIME_FMTS[tfmt]
                    for (hh, mm, ss, us) in TODS:
                        tod_us = ((hh * 60 + mm) * 60 + ss) * 1000000 + us
                        if func is None:
                            tod = '%02d:%02d:%02d.%06d' % (hh, mm, ss, us)
                            fmt = dfmt + ' ' + tfmt.strip()
                        else:
                            tod = func(hh, mm, ss, us)
                            fmt = dfmt + ' ' + tfmt
                        got = ocb_time.convert_time(date=date, tod=tod,
                                                    datetime_fmt=fmt)
                        check(rep, {'func': 'date+tod', 'date': date,
                                    'tod': tod, 'fmt': fmt}, got,
                              base + tod_us // res * res, 0)
                        rep.state((date, tod))
                        if (k + hh) % 5 == 0:
                            # as one piece of text
                            if func is not None and res <= 1000000 and \
                               ' %H:%M:%S' not in fmt:
                                got = ocb_time.convert_time(
                                    date=date + ' ' + tod, datetime_fmt=fmt)
                                check(rep, {'func': 'datetime text', 'date':
                                            date, 'tod': tod, 'fmt': fmt},
                                      got, base + tod_us // res * res, 0)
                rep.trace({'date': date, 'fmt': dfmt}, None)


YFMTS = ['YYDDD {}', 'yyddd {}', '{}', '%Y-%m-%d {}']


def yyddd_written(params, rep):
    """Years since 1900 and day of year with a time in every format"""
    tier = params['tier']
    for y in params['years']:
        for doy in days(tier, y):
            text = yyddd_text(y, doy)
            base = exact(y, doy, 0)
            for form in YFMTS:
                for tfmt in sorted(TIME_FMTS):
                    func, res = TIME_FMTS[tfmt]
                    if func is None:
                        continue
                    fmt = form.format(tfmt)
                    for (hh, mm, ss, us) in TODS:
                        tod_us = ((hh * 60 + mm) * 60 + ss) * 1000000 + us
                        got = ocb_time.convert_time(
                            yyddd=text, tod=func(hh, mm, ss, us),
                            datetime_fmt=fmt)
                        check(rep, {'func': 'yyddd+tod', 'yyddd': text,
                                    'tod': func(hh, mm, ss, us), 'fmt': fmt},
                              got, base + tod_us // res * res, 0)
                for fmt in (form.format('SOD'), form.format('%H:%M:%S')):
                    if fmt == 'SOD':
                        continue
                    for sod in (0, 1, 3599.5, 86399.75, 1.0e-6, 86399):
                        got = ocb_time.convert_time(yyddd=text, sod=sod,
                                                    datetime_fmt=fmt)
                        check(rep, {'func': 'yyddd+sod', 'yyddd': text,
                                    'sod': sod, 'fmt': fmt}, got,
                              base + int(round(sod * 1e6)), 2)
            rep.trace({'yyddd': text}, None)


def second_of_day(params, rep):
    """Second of the day, every second (thorough) or minute"""
    step = 1 if params['tier'] == 'thorough' else 7
    for date, y, doy in (('2000-02-29', 2000, 60), ('1999-12-31', 1999, 365)):
        base = exact(y, doy, 0)
        for sod in range(0, 86400, step):
            got = ocb_time.convert_time(date=date, sod=sod)
            check(rep, {'func': 'date+sod', 'date': date, 'sod': sod}, got,
                  base + sod * 1000000, 0)
            rep.state((date, sod))
        for us in range(0, 1000000, 997 * step):
            for sod in (0, 59, 43199, 86399):
                val = sod + us * 1.0e-6
                got = ocb_time.convert_time(date=date, sod=val)
                check(rep, {'func': 'date+sod', 'date': date, 'sod': val},
                      got, base + sod * 1000000 + us, 2)
                rep.state((date, val))
        rep.trace({'date': date, 'sod': 'all'}, None)


def precedence(params, rep):
    """Optional arguments that are None do not matter, year and second take
    precedence over the other forms only when both are given"""
    full = dict(year=2000, soy=5184000, yyddd='100126', sod=7.0,
                date='2003-03-03', tod='04:05:06',
                datetime_fmt='%Y-%m-%d %H:%M:%S')
    want = {('year', 'soy'): exact(2000, 61, 0),
            ('yyddd',): exact(2000, 126, 0),
            ('yyddd', 'sod'): exact(2000, 126, 7000000),
            ('yyddd', 'tod'): exact(2000, 126, 14706000000),
            ('date',): exact(2003, 62, 0),
            ('date', 'sod'): exact(2003, 62, 7000000),
            ('date', 'tod'): exact(2003, 62, 14706000000),
            ('year', 'yyddd', 'sod'): exact(2000, 126, 7000000),
            ('soy', 'date', 'tod'): exact(2003, 62, 14706000000),
            ('year', 'date', 'sod'): exact(2003, 62, 7000000)}
    for keys, inst in want.items():
        for explicit in (False, True):
            for fmt in (False, True):
                kw = {k: full[k] for k in keys}
                if explicit:
                    for k in full:
                        if k != 'datetime_fmt':
                            kw.setdefault(k, None)
                if fmt:
                    kw['datetime_fmt'] = full['datetime_fmt']
                got = ocb_time.convert_time(**kw)
                check(rep, {'func': 'keywords', 'keys': keys, 'explicit':
                            explicit}, got, inst, 0)
                rep.trace({'keys': keys}, got)


def widths(params, rep):
    """Text of any instant fits in the length reported for its format"""
    fmts = [d + (' ' + t if t else '') for d in DATE_FMTS for t in
            [''] + [k.strip() for k in TIME_FMTS]]
    fmts += ['%c', '%x', '%X', '%A %d %B %Y %H:%M:%S.%f', '%a %b %d %Y',
             'YYDDD SOD', '%Y %j %H', 'date %x time %X']
    for fmt in fmts:
        size = ocb_time.get_datetime_fmt_len(fmt)
        rep.step(1, 'length')
        for doy in (1, 120, 244, 268, 269, 270, 271, 366):
            for tod in TODS:
                t = dt.datetime(2000, 1, 1, *tod) + dt.timedelta(
                    days=doy - 1)
                text = t.strftime(fmt)
                rep.step(1, 'length')
                rep.state(text)
                if len(text) > size:
                    rep.violate({'fmt': fmt, 'text': text}, 'text does not '
                                'fit', size, len(text))
                if '%' not in fmt:
                    continue
                # an instant with a time zone
                for end in (' %Z', ' %z', ' %Z %z'):
                    size2 = ocb_time.get_datetime_fmt_len(fmt + end)
                    text = t.replace(tzinfo=dt.timezone.utc).strftime(
                        fmt + end)
                    rep.step(1, 'length with zone')
                    if len(text) > size2:
                        rep.violate({'fmt': fmt + end, 'text': text}, 'text '
                                    'does not fit', size2, len(text))
        rep.trace({'fmt': fmt}, size)


def jobs(tier):
    out = [('year_soy', {'tier': tier, 'year': y}) for y in YEARS]
    out += [('day_of_year', {'tier': tier, 'lo': lo, 'hi': min(lo + 34, 2101)})
            for lo in range(1900, 2101, 34)]
    out += [('written', {'tier': tier, 'years': ys})
            for ys in ([2000], [1999], [2001, 2068], [1970, 2010], [2100])]
    out += [('yyddd_written', {'tier': tier, 'years': ys})
            for ys in ([2000], [1999, 1905])]
    out += [(n, {'tier': tier}) for n in ('second_of_day', 'precedence',
                                          'widths')]
    return out
