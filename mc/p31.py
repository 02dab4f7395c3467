"""P31: results do not depend on the settings of the process."""
import datetime as dt
import itertools
import json
import os
import re
import subprocess
import sys

if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))))
    if 'pysat' in sys.argv[3:]:
        # stands in for the modules of the check that use it
        sys.modules['pysat'] = None
        import types
        for name in ('mc.p17', 'ocbpy.instruments.pysat_instruments'):
            sys.modules[name] = types.ModuleType(name)
from mc import gen, p15, p16, p20, p27  # noqa
from mc.gen import np, ocbpy  # noqa
from ocbpy import ocb_time  # noqa
from ocbpy.boundaries import files  # noqa
from ocbpy.instruments import general, supermag, vort  # noqa
if gen.pysat is None:
    import argparse
    gen.pysat = argparse.Namespace(Instrument=argparse.Namespace)

TECHNIQUE = ('exhaustive enumeration of process settings (time zone, hash '
             'seed, locale and encoding, optimisation flags, working '
             'directory, printing, error and logging options, optional '
             'packages) x every public operation; a new interpreter runs the '
             'real code under each combination')
ORACLE = ('the results, files and public attributes of the same operations '
          'in an interpreter with the settings UTC, seed 0, C locale, no '
          'flags, a scratch folder and the default options')
BOUND = {'quick': '34 operations x 2 sets of inputs and 6 groups of times '
                  'around clock changes; every setting of 12 dimensions by '
                  'itself and combinations that hold every pair of '
                  'settings of any two of the first six',
         'thorough': 'every pair of settings of any two dimensions and every '
                     'combination of time zone, optimisation, hash seed and '
                     'optional package'}
ASSUMPTIONS = ['only the C locales are installed here',
               'the summary may list correction functions in any order']
JOB_CPU_LIMIT = 800

# the first setting of each is the default
DIMS = {
    'TZ': ['UTC', 'EST5EDT,M3.2.0,M11.1.0', 'XXX-14', 'YYY12',
           'IST-5:30', 'CET-1CEST,M3.5.0,M10.5.0/3',
           'BRT3BRST,M10.3.0/0,M2.3.0/0', 'LHST-10:30LHDT-11,M10.1.0,M4.1.0',
           ''],
    'PYTHONHASHSEED': ['0', '1', '2', '7', '4294967295'],
    'flags': ['', '-O', '-OO', '-I', '-X dev'],
    'LC_ALL': ['C', 'C.utf8', 'POSIX'],
    'PYTHONUTF8': ['', '0', '1'],
    'cwd': ['scratch', 'root', 'package', 'decoy'],
    'print': ['default', 'short', 'legacy', 'wide'],
    'seterr': ['ignore', 'warn', 'print'],
    'log': ['critical', 'debug', 'file'],
    'without': ['', 'pysat', 'ssj_auroral_boundary'],
    'umask': ['18', '0', '63'],
    'threads': ['main', 'thread', 'deep']}
WANTED = {}


# In the new interpreter -----------------------------------------------------
# hours around changes of the clock of some time zone
SPANS = [dt.datetime(2010, 3, 14, 0), dt.datetime(2010, 11, 7, 0),
         dt.datetime(2010, 3, 28, 0), dt.datetime(2010, 10, 31, 0),
         dt.datetime(2009, 12, 31, 18), dt.datetime(2012, 2, 28, 20)]


def hours(start):
    return [start + dt.timedelta(minutes=30 * k) for k in range(20)]


def conversions(start):
    out = []
    for tt in hours(start):
        soy = (tt - dt.datetime(tt.year, 1, 1)).total_seconds()
        sod = (tt - dt.datetime(tt.year, tt.month, tt.day)).total_seconds()
        yyd = '%d%s' % ((tt.year - 1900) % 1000, tt.strftime('%j'))
        out.append([
            ocb_time.convert_time(year=tt.year, soy=soy),
            ocb_time.convert_time(yyddd=yyd, sod=sod),
            ocb_time.convert_time(yyddd=yyd, tod=tt.strftime('%H:%M:%S')),
            ocb_time.convert_time(date=tt.strftime('%Y-%m-%d'),
                                  tod=tt.strftime('%H:%M:%S')),
            ocb_time.convert_time(date=tt.strftime('%b %d %y'), sod=sod,
                                  datetime_fmt='%b %d %y %H:%M:%S'),
            ocb_time.glon2slt([10.0, 200.0], tt),
            ocb_time.slt2glon([3.0, 20.0], tt)])
    return out


def calendar(start):
    """Every day of the year, also those without a midnight somewhere"""
    out = []
    first = dt.datetime(start.year, 1, 1)
    for day in range(366):
        tt = first + dt.timedelta(days=day)
        yyd = '%d%s' % ((tt.year - 1900) % 1000, tt.strftime('%j'))
        out.append([
            ocb_time.yyddd_to_date(yyd),
            ocb_time.year_soy_to_datetime(start.year, 86400.0 * day),
            ocb_time.convert_time(yyddd=yyd, sod=0.0),
            ocb_time.convert_time(date=tt.strftime('%Y-%m-%d'),
                                  tod='00:00:00'),
            ocb_time.convert_time(date=tt.strftime('%Y-%m-%d'), sod=86399.0)])
    return out


def loading(start):
    recs = [gen.rec(tt, 14.0 + 0.2 * k, phi=15.0 * k, rc=2.0)
            for k, tt in enumerate(hours(start))]
    out = []
    for inst in ('image', 'ampere', 'dmsp-ssj'):
        path = os.path.join(gen.jobdir(), 'span.' + inst)
        gen.write(inst, recs, path)
        # by a name relative to the folder
        obj = ocbpy.EABoundary(filename=os.path.relpath(path),
                               instrument=inst, hemisphere=1)
        out.append([obj.dtime, obj.r])
        for lim in ({}, {'stime': recs[4]['t'], 'etime': recs[9]['t']}):
            obj = ocbpy.OCBoundary(filename=path, instrument=inst,
                                   hemisphere=1, **lim)
            obj.rec_ind = -1
            out.append([obj.dtime, obj.phi_cent, obj.r_cent, obj.r, obj.fom])
            idat = 0
            while idat is not None and obj.rec_ind < obj.records and idat < 20:
                idat = ocbpy.match_data_ocb(
                    obj, [rec['t'] + dt.timedelta(seconds=50)
                          for rec in recs], idat=idat, max_tol=100)
                out[-1].append([idat, int(obj.rec_ind)])
                idat = None if idat is None else idat + 1
    return out


def reading(start):
    seconds = [(tt - gen.T0).total_seconds() for tt in hours(start)]
    path = os.path.join(gen.jobdir(), 'span.sm')
    p15.write([p15.block(sec, [p15.station('AB%d' % k, 1.0 * k, 2.0, 3.0,
                                           5.0, 70.0 + k)
                               for k in range(1 + i % 3)])
               for i, sec in enumerate(seconds)], path)
    out = [supermag.load_supermag_ascii_data(path)]
    path = os.path.join(gen.jobdir(), 'span.vo')
    p16.write([p16.block(sec, [p16.entry(75.0, 3.0 + k, 0.5, k)
                               for k in range(1 + i % 2)])
               for i, sec in enumerate(seconds)], path, last=True)
    out += [vort.load_vorticity_ascii_data(path),
            vort.load_vorticity_ascii_data(path, save_all=True)]
    path = os.path.join(gen.jobdir(), 'span.tx')
    with open(path, 'w') as fout:
        fout.write('YEAR SOY DATE TIME VAL NAME\n')
        for k, tt in enumerate(hours(start)):
            fout.write('%d %.0f %s %d.%03d n%d\n' % (
                tt.year, (tt - dt.datetime(tt.year, 1, 1)).total_seconds(),
                tt.strftime('%Y-%m-%d %H:%M:%S'), k, k, k))
    for cols, fmt, text in (([0, 1], 'YEAR SOY', [2, 3, 5]),
                            ([2, 3], '%Y-%m-%d %H:%M:%S', [5])):
        out.append(general.load_ascii_data(
            path, 1, datetime_cols=cols, datetime_fmt=fmt, str_cols=text))
    return out


def default_files(start):
    """Names of the boundary files by time; the end of the current ones is
    today and so not compared."""
    table = {key: {name: val for name, val in entry.items()
                   if name != 'etime' or key.find('dmsp') < 0}
             for key, entry in files.get_boundary_files('ocb').items()}
    return [table, [files.get_default_file(
        start, start + dt.timedelta(hours=2), hemi, inst, 'ocb')
        for hemi in (1, -1) for inst in ('', 'image', 'ampere', 'dmsp-ssj')]]


def numbers(start):
    """Magnetic locations and local times of these hours."""
    out = []
    for tt in hours(start)[::4]:
        obj = gen.ocb('image', [gen.rec(tt, 15.0, phi=40.0, rc=3.0)], 1, 0)
        lat, lt = np.array([70.0, 81.0]), np.array([2.0, 14.0])
        out.append(obj.normal_coord(lat, lt, coords='geodetic', height=250.0))
        out.append(obj.revert_coord(lat, lt, coords='geodetic'))
    return out


def words(text):
    return sorted(re.split(r'[\s,;:()\[\]{}]+', text))


def child(out_path, options):
    opts = dict(item.split('=', 1) for item in options if '=' in item)
    err = os.dup(1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    if opts['without']:
        sys.modules[opts['without']] = None
    os.umask(int(opts['umask']))
    if opts['print'] == 'short':
        np.set_printoptions(precision=2, threshold=2, edgeitems=1,
                            suppress=True, linewidth=40)
    elif opts['print'] == 'legacy':
        np.set_printoptions(legacy='1.13', sign='+')
    elif opts['print'] == 'wide':
        np.set_printoptions(precision=17, floatmode='fixed', linewidth=1000)
    np.seterr(all=opts['seterr'])
    if opts['log'] != 'critical':
        import logging
        ocbpy.logger.setLevel(logging.DEBUG)
        ocbpy.logger.handlers = [
            logging.NullHandler() if opts['log'] == 'debug' else
            logging.FileHandler(os.path.join(gen.scratch(), 'log'))]
        # prepares the text of every message
        for handler in ocbpy.logger.handlers:
            handler.setFormatter(logging.Formatter('%(asctime)s %(message)s'))

            def emit(record, handler=handler):
                handler.format(record)
            handler.emit = emit
    if opts['cwd'] == 'decoy':
        # names of inputs and outputs, with other contents
        for name in ('load0', 'span.image', 'asc1', 'out.txt', 'boundaries',
                     'amp_north_radii.ocb', 'image_north_circle.ocb'):
            with open(name, 'w') as fout:
                fout.write('1 2 3\n')
    if opts['threads'] == 'thread':
        import threading
        one = threading.Thread(target=work, args=(out_path, opts))
        one.start()
        one.join()
    elif opts['threads'] == 'deep':
        # far down the stack
        def down(num):
            return down(num - 1) if num else work(out_path, opts)
        down(300)
    else:
        work(out_path, opts)
    os.dup2(err, 1)


def work(out_path, opts):
    base = os.environ['TMPDIR']
    out = {}
    for num, op in enumerate(p27.OPS):
        if opts['without'] == 'pysat' and op[0] == 'pysat':
            continue
        for side in (0, 1):
            got = p27.prepare(num, side)()
            if op[0] == 'repr' and got[0][0] != 'raised':
                if opts['print'] != 'default':
                    got = 'not compared'
                else:
                    got[0] = [words(one) for one in got[0]]
            out['%s %d' % (op[0], side)] = got
    for start in SPANS:
        for func in (conversions, calendar, loading, reading, default_files, numbers):
            out['%s %s' % (func.__name__, start.isoformat())] = p27.plain(
                func(start))
    text = json.dumps(out).replace(base, '<scratch>')
    text = text.replace(gen.REPO, '<repo>')
    text = re.sub(r'<scratch>/job_\w+', '<job>', text)
    with open(out_path, 'w', encoding='utf-8') as fout:
        fout.write(text)


# In the check ---------------------------------------------------------------
def run(settings):
    base = gen.scratch()
    home = os.path.join(base, 'home')
    os.makedirs(os.path.join(home, 'pysatData'))
    tmp = os.path.join(base, 'tmp')
    os.mkdir(tmp)
    cwd = {'scratch': tmp, 'root': '/', 'decoy': os.path.join(base, 'decoy'),
           'package': os.path.join(gen.REPO, 'ocbpy')}[settings['cwd']]
    os.makedirs(cwd, exist_ok=True)
    env = {key: val for key, val in os.environ.items()
           if not key.startswith(('LC_', 'PYTHON', 'LANG')) and key != 'TZ'}
    env.update(HOME=home, TMPDIR=tmp, PYTHONDONTWRITEBYTECODE='1',
               PYTHONWARNINGS='ignore', OCBMC_REPO=gen.REPO)
    for key in ('TZ', 'PYTHONHASHSEED', 'LC_ALL', 'PYTHONUTF8'):
        if settings[key]:
            env[key] = settings[key]
    result = os.path.join(base, 'result')
    proc = subprocess.run(
        [sys.executable, '-B', '-W', 'ignore'] + settings['flags'].split() + [
            os.path.abspath(__file__), 'child', result] + [
                '%s=%s' % (key, settings[key]) for key in DIMS] + [
                    settings['without']], env=env, cwd=cwd,
        stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    out = None
    if os.path.exists(result):
        with open(result, encoding='utf-8') as fin:
            out = json.load(fin)
    text = proc.stderr.decode('utf-8', 'replace')[-1500:]
    import shutil
    shutil.rmtree(base, ignore_errors=True)
    return out, text


def usual():
    return {key: vals[0] for key, vals in DIMS.items()}


def compare(params, rep):
    if 'want' not in WANTED:
        out, text = run(usual())
        if out is None:
            rep.violate([usual()], 'operations do not run', text)
            return
        WANTED['want'] = out
    want = WANTED['want']
    for change in params:
        settings = usual()
        settings.update(change)
        case = {key: val for key, val in settings.items()
                if val != DIMS[key][0]}
        rep.state(case)
        got, text = run(settings)
        if got is None:
            rep.violate(case, 'operations do not run', text)
            continue
        for key in want:
            rep.step(1, key.split()[0])
            rep.trace([case, key], got.get(key))
            if key not in got:
                if settings['without'] != 'pysat' or key[:5] != 'pysat':
                    rep.violate([case, key], 'no result')
                continue
            if got[key] == 'not compared':
                continue
            diff = p27.differ(got[key], want[key])
            if diff is not None:
                rep.violate([case, key], 'result depends on the settings',
                            *diff)


def cover(dims):
    """Few combinations that hold every pair of settings"""
    names = list(dims)
    todo = {((a, x), (b, y)) for a, b in itertools.combinations(names, 2)
            for x in dims[a] for y in dims[b]}
    out = []
    while todo:
        (a, x), (b, y) = min(todo)
        row = {a: x, b: y}
        for name in names:
            if name not in row:
                row[name] = max(dims[name], key=lambda val: (sum(
                    tuple(sorted([(name, val), item], key=lambda it: names
                                 .index(it[0]))) in todo
                    for item in row.items()), val == dims[name][0]))
        out.append(row)
        todo -= {((p, row[p]), (q, row[q]))
                 for p, q in itertools.combinations(names, 2)}
    return out


def jobs(tier):
    quick = tier == 'quick'
    rows = [{}] + [{key: val} for key, vals in DIMS.items()
                   for val in vals[1:]]
    if quick:
        rows += cover({key: DIMS[key] for key in list(DIMS)[:6]})
    else:
        for one, two in itertools.combinations(DIMS, 2):
            rows += [{one: x, two: y} for x in DIMS[one][1:]
                     for y in DIMS[two][1:]]
        rows += cover(DIMS)
        rows += [dict(zip(('TZ', 'flags', 'PYTHONHASHSEED', 'without'), vals))
                 for vals in itertools.product(
                     DIMS['TZ'][:4], DIMS['flags'][1:3],
                     DIMS['PYTHONHASHSEED'][1:3], DIMS['without'][1:])]
    num = 8 if quick else 24
    return [('compare', rows[k::num]) for k in range(num)]


if __name__ == '__main__':
    child(sys.argv[2], sys.argv[3:])
