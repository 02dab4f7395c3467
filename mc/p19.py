"""P19: DMSP downloads restore the environment and keep only wanted files."""
import datetime as dt
import importlib
import io
import itertools
import os
import shutil
import sys
import tempfile
import zipfile

from mc import gen  # noqa
from mc.gen import np
from mc import p20
from mc.p18 import package

TECHNIQUE = ('exhaustive fault injection: every script of what the download '
             'can do (order and outcome of its steps, messages and '
             'exceptions) x archive contents x directory contents x requests, '
             'and sequences of calls, on a scratch copy of the real package '
             'with a stand-in for the network client')
ORACLE = ('directory snapshot before and after, members wanted by a model of '
          'the request, identity of the output streams, error or result')
BOUND = {'quick': '59 download scripts x 5 archives x 4 directories x 4 '
                  'requests; 12 archives x 400 requests; every sequence of 2 '
                  'of 14 calls; formatting after every script',
         'thorough': '59 download scripts x 12 archives x 4 directories x 24 '
                     'requests; every sequence of 3 of 14 calls and of 4 of 7'}
JOB_CPU_LIMIT = 840
ASSUMPTIONS = ['the network client is replaced by a stand-in that follows '
               'zenodo_get 1.6']
D = dt.datetime
NAME = 'dmsp-f%d_ssj_precipitating-electrons-ions_%s_v1.1.2_boundaries.csv'


def member(sc, day):
    return NAME % (sc, day)


DAYS = ['20101230', '20101231', '20110101', '20110228']
BASE = [member(sc, day) for sc in (16, 17, 18) for day in DAYS]
ARCHIVES = {
    'full': BASE, 'mixedorder': BASE[::-1][3:] + BASE[::-1][:3],
    'f16': BASE[:4], 'f18': BASE[8:], 'one': [BASE[5]], 'none': [],
    'oneday': [member(sc, DAYS[1]) for sc in (16, 17, 18)],
    'othersats': [member(19, DAYS[1]), BASE[1], member(6, DAYS[1]),
                  member(160, DAYS[1])],
    'readme': BASE[:2] + ['README.txt', 'LICENSE'] + BASE[6:8],
    'folder': ['ssj/'] + ['ssj/' + m for m in BASE[::2]],
    'folder_': ['ssj_data_v1/', 'ssj_data_v1/notes_a_b_c_d.txt'] + [
        'ssj_data_v1/' + m for m in BASE[1::2]],
    'oddnames': [BASE[0], 'dmsp-f16_ssj_unknown.csv',
                 'dmsp-fXX_ssj_precipitating-electrons-ions_20101231_v1.csv',
                 'dmsp-f17_ssj_precipitating-electrons-ions_2010_v1.csv',
                 BASE[9]]}
ODD = ('readme', 'folder', 'folder_', 'oddnames', 'othersats')
ZIP = 'ssj_auroral_boundaries.zip'
LINK = 'Link: https://zenodo.org/records/3373812/files/%s   size: 12.3 MB'

# Steps of a download.  m: checksum file, z: good archive, b: broken archive,
# t: truncated archive, c: archive with a damaged member, L: link, N: link
# that is no archive, E: the word Link at the end, Q: link to a file within
# the archive, C: checksum correct, A: already there, I: checksum incorrect,
# T: other text, S: replaces the streams, X: raises, H: holds no archive
SCRIPTS = ['mLzC', 'TmLzCT', 'mLAz', 'LzCm', 'SmLzC', 'mQzC',
           'mLC', 'mLA', 'mLbC', 'mLtC', 'mLcC', 'mzC', 'mzCE', 'mNzC', 'mLzI',
           'mLI', 'mLz', 'm', 'mT', 'T', '', 'mC', 'mA', 'mLbA', 'mSLzI',
           'mLzIX']
RAISE = {'value': ValueError('DOI'), 'conn': ConnectionError('offline'),
         'exit': SystemExit(1), 'key': KeyboardInterrupt(),
         'os': OSError(28, 'No space left on device'),
         'exc': Exception('too  many errors')}
GOODSCRIPT = 'mLzC'


def scripts():
    """(script, exception raised at its end, stream used)"""
    out = []
    for i, script in enumerate(SCRIPTS):
        out.append((script, None if not script.endswith('X') else 'exit',
                    ['err', 'out', 'both'][i % 3]))
    # an exception after every step of a good download
    for i, exc in itertools.product(range(len(GOODSCRIPT) + 1), RAISE):
        out.append((GOODSCRIPT[:i] + 'X', exc, ['err', 'out'][i % 2]))
    out.append(('SmX', 'value', 'err'))
    out.append(('mLCX', 'exc', 'err'))
    out.append(('mLAX', 'exit', 'both'))
    return out


def content(name):
    """What a member of the archive holds"""
    if name.endswith('/'):
        return b''
    base = os.path.basename(name)
    if not base.startswith('dmsp-f') or base.count('_') < 3:
        return b'something else\n'
    path = os.path.join(tempfile.gettempdir(), 'member%d' % os.getpid())
    part = base.split('_')
    num = sum(ord(p) for p in part[0] + part[3])
    if part[0][6:].isdigit() and len(part[3]) == 8:
        num = int(part[0][6:]) + int(part[3][-2:])
    p20.write(path, p20.passes_of('both', num % 20))
    with open(path, 'rb') as fin:
        return fin.read()


_zips = {}


def archive(members, damage=None):
    key = (tuple(members), damage)
    if key not in _zips:
        buf = io.BytesIO()
        with zipfile.ZipFile(buf, 'w', zipfile.ZIP_STORED) as zref:
            for name in members:
                zref.writestr(name, content(name))
        data = buf.getvalue()
        if damage == 'broken':
            data = b'<html>503 Service unavailable</html>' * 30
        elif damage == 'truncated':
            data = data[:len(data) // 2 - 3]
        elif damage == 'member' and members:
            # damage the data of the last member
            pos = data.find(content(members[-1])[:40] or b'PK',
                            data.rfind(b'PK\x03\x04'))
            data = data[:pos + 20] + b'?#?' + data[pos + 23:]
        _zips[key] = data
    return _zips[key]


class Client(object):
    """Stand-in for the network client"""

    def __init__(self, script, exc, stream, members):
        self.script, self.exc, self.stream = script, exc, stream
        self.members = members
        self.calls = []

    def say(self, text):
        if self.stream == 'out':
            sys.stdout.write(text + '\n')
        elif self.stream == 'err':
            sys.stderr.write(text + '\n')
        else:
            half = len(text.split(' ')[0])
            sys.stderr.write(text[:half])
            sys.stdout.write(text[half:] + '\n')

    def __call__(self, *args, **kwargs):
        return self.zenodo_get(*args, **kwargs)

    def zenodo_get(self, argv=None, *args, **kwargs):
        self.calls.append(list(argv))
        outdir = '.'
        for i, arg in enumerate(argv):
            if arg in ('-o', '--output-dir'):
                outdir = argv[i + 1]
        for step in self.script:
            path = os.path.join(outdir, ZIP)
            if step == 'm':
                with open(os.path.join(outdir, 'md5sums.txt'), 'w') as fout:
                    fout.write('d41d8cd98f00b204e9800998ecf8427e  %s\n' % ZIP)
            elif step in 'zbtc':
                with open(path, 'wb') as fout:
                    fout.write(archive(self.members, {
                        'z': None, 'b': 'broken', 't': 'truncated',
                        'c': 'member'}[step]))
            elif step == 'L':
                self.say('')
                self.say(LINK % ZIP)
            elif step == 'Q':
                self.say(LINK % (ZIP + '/content'))
            elif step == 'N':
                self.say(LINK % 'boundaries.tar.gz')
            elif step == 'E':
                self.say('Link:')
            elif step == 'C':
                self.say('Checksum is correct. (d41d8cd98f00b204e98)')
                self.say('All files have been downloaded.')
            elif step == 'A':
                self.say('%s is already downloaded correctly.' % ZIP)
            elif step == 'I':
                self.say('Checksum is INCORRECT!(d41d8cd9 got:abcd)')
            elif step == 'T':
                self.say('Title: DMSP Particle Precipitation AE Boundaries')
                self.say('DOI: 10.5281/zenodo.3373811')
            elif step == 'S':
                sys.stdout, sys.stderr = sys.stderr, sys.stdout
                self.say('Keywords: aurora')
            elif step == 'X':
                raise RAISE[self.exc]


def meaning(script, pre):
    """Whether the download worked; state of the archive"""
    if 'X' in script or 'I' in script or not ('C' in script or 'A' in script):
        return False, None
    if not ('L' in script or 'Q' in script) or 'm' not in script:
        return False, None
    state = pre
    for step in script:
        state = {'z': 'good', 'b': 'broken', 't': 'broken',
                 'c': 'member'}.get(step, state)
    return state is not None, state


def wanted(members, req, now):
    """Model of the request"""
    stime, etime, sats = req['stime'], req['etime'], req['sats']
    if stime is None and etime is None and sats is None:
        return [m for m in members]
    out = []
    for name in members:
        part = os.path.basename(name).split('_')
        if not part[0].startswith('dmsp-f') or len(part) < 6:
            continue
        if not (part[0][6:].isdigit() and len(part[3]) == 8):
            continue
        day = D.strptime(part[3], '%Y%m%d')
        if int(part[0][6:]) not in (
                [16, 17, 18] if sats is None else list(sats)):
            continue
        if stime is not None and day < stime:
            continue
        if etime is not None and day >= etime:
            continue
        out.append(name)
    return out


def snapshot(base):
    out = {}
    for root, dirs, files in os.walk(base):
        for name in dirs:
            out[os.path.relpath(os.path.join(root, name), base)] = None
        for name in files:
            path = os.path.join(root, name)
            with open(path, 'rb') as fin:
                out[os.path.relpath(path, base)] = fin.read()
    return out


PRE = {'empty': [], 'busy': [
    'notes.txt', 'other.zip', 'dmsp-ssj_north_20091231_20091231_v1.ocb',
    member(16, '20091231'), member(17, DAYS[1]), 'sub/keep.csv', 'md5.txt',
    'amp_north_radii.ocb', 'ssj_auroral_boundaries.zip.bak'],
    'archive': [ZIP, 'notes.txt'], 'stale': ['md5sums.txt', BASE[0], BASE[5]]}


def prepare(base, pre, members):
    for name in PRE[pre]:
        path = os.path.join(base, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'wb') as fout:
            fout.write(archive(members) if name == ZIP
                       else b'do not touch ' + name.encode())


class Stream(io.StringIO):
    pass


def call(func, client, mod):
    """Run with own streams; returns result, error, streams kept"""
    save = (sys.stdout, sys.stderr, os.getcwd())
    out, err = Stream(), Stream()
    # wherever the code finds the client
    import zenodo_get as package
    places = [(mod, k, v) for k, v in vars(mod).items()
              if v is package or v is package.zenodo_get]
    places.append((package, 'zenodo_get', package.zenodo_get))
    for place, name, _ in places:
        setattr(place, name, client)
    sys.stdout, sys.stderr = out, err
    res = exc = None
    try:
        try:
            res = func()
        except BaseException as error:  # noqa
            exc = error
        kept = sys.stdout is out and sys.stderr is err
    finally:
        sys.stdout, sys.stderr = save[:2]
        os.chdir(save[2])
        for place, name, real in places:
            setattr(place, name, real)
    if exc is not None and type(exc).__name__ == 'Hang':
        raise exc
    return res, exc, kept


def module():
    ocbpy, bdir = package(listing=False)
    return importlib.import_module('ocbpy.boundaries.dmsp_ssj_files'), bdir


def one(rep, case, base, script, members, req, fmt=False):
    """A call in a directory, compared with the model"""
    mod, bdir = module()
    steps, exc, stream = script
    client = Client(steps, exc, stream, members)
    before = snapshot(base)
    now = D(2100, 1, 1)
    kwargs = {}
    if not req.get('default'):
        kwargs['out_dir'] = base
    if req['rm'] is not None:
        kwargs['rm_temp'] = req['rm']
    if fmt:
        res, err, kept = call(lambda: mod.fetch_format_ssj_boundary_files(
            req['stime'], req['etime'], **kwargs), client, mod)
    else:
        if req['sats'] is not None:
            kwargs['sat_nums'] = req['sats']
        if req['stime'] is not None:
            kwargs['stime'] = req['stime']
        if req['etime'] is not None:
            kwargs['etime'] = req['etime']
        if req.get('doi'):
            kwargs['doi'] = req['doi']
        res, err, kept = call(lambda: mod.fetch_ssj_boundary_files(**kwargs),
                              client, mod)
    after = snapshot(base)
    rep.step(1, case['func'])
    if not kept:
        rep.violate(case, 'output streams not restored', str(err))
    for argv in client.calls:
        if (req.get('doi') or '10.5281/zenodo.3373811') not in argv:
            rep.violate(case, 'another archive requested', argv)
    pre = None
    if ZIP in before:
        pre = 'good'
        if before[ZIP] != archive(members):
            pre = 'other'
    works, state = meaning(steps, pre)
    want = wanted(members, req, now)
    if fmt:
        want = wanted(members, dict(req, sats=[16, 17, 18])
                      if req['stime'] or req['etime'] else
                      dict(req, sats=None), now)
    allreq = not (req['stime'] or req['etime']) and (fmt
                                                     or req['sats'] is None)
    if works and state == 'broken':
        works = False
    if works and state == 'member' and (members and members[-1] in want):
        works = False
    if works and pre == 'other' and not set(steps) & set('zbtc'):
        raise AssertionError('ambiguous archive')
    if fmt and not want:
        works = False
    extracted = set(os.path.normpath(w) for w in want)
    folders = set()
    for name in extracted:
        while os.path.dirname(name):
            name = os.path.dirname(name)
            folders.add(name)
    rm = req['rm'] is not False
    rep.outcome((works, state, len(want), rm, type(err).__name__))
    # other files are never touched
    mine = extracted | folders | {ZIP, 'md5sums.txt'}
    for name, data in before.items():
        if name not in mine and (name not in after or after[name] != data):
            rep.violate(case, 'other file touched', name)
    if not works:
        if err is None:
            rep.violate(case, 'failure reported as a result', res)
        made = set(after) - set(before) - mine
        if made and not allreq:
            rep.violate(case, 'files appeared', sorted(made))
        return False
    if err is not None:
        rep.violate(case, 'failed', '%s: %s' % (type(err).__name__, err))
        return False
    target = {n: d for n, d in before.items()}
    target.pop('md5sums.txt', None)
    if set(steps) & set('zbtc'):
        target[ZIP] = archive(members, {'member': 'member'}.get(state))
    if rm:
        target.pop(ZIP, None)
    for name in folders:
        target[name] = None
    for name in want:
        key = os.path.normpath(name)
        target[key] = None if name.endswith('/') else content(name)
    if not fmt:
        got = sorted(os.path.normpath(os.path.abspath(str(f))) for f in res)
        exp = sorted(os.path.join(base, os.path.normpath(w)) for w in want)
        if got != exp:
            rep.violate(case, 'files returned', got, exp)
        if after != target:
            rep.violate(case, 'directory', sorted(
                n for n in after if n not in target or after[n] != target[n]),
                sorted(n for n in target
                       if n not in after or after[n] != target[n]))
        return True
    # formatted boundaries
    if rm:
        for name in want:
            target.pop(os.path.normpath(name), None)
    got = [os.path.normpath(os.path.abspath(str(f))) for f in res]
    rel = [os.path.relpath(f, base) for f in got]
    rest = {n: d for n, d in after.items() if n not in rel}
    target = {n: d for n, d in target.items() if n not in rel}
    if rest != target:
        rep.violate(case, 'directory after formatting', sorted(
            n for n in rest if n not in target or rest[n] != target[n]),
            sorted(n for n in target if n not in rest
                   or rest[n] != target[n]))
    passes = []
    for name in want:
        part = os.path.basename(name).split('_')
        sc, day = int(part[0][6:]), D.strptime(part[3], '%Y%m%d')
        num = sc + int(part[3][-2:])
        passes += [(p, day, sc) for p in p20.passes_of('both', num % 20)]
    if any(not os.path.isfile(f) or not f.startswith(base + os.sep)
           for f in got):
        rep.violate(case, 'boundary files', got)
    else:
        p20.compare(rep, case, got, passes, 830.0, 'GEOCENTRIC|ALLOWTRACE')
    return True


REQS = [{'stime': s, 'etime': e, 'sats': n, 'rm': r}
        for s, e in [(None, None), (D(2010, 12, 31), D(2011, 1, 1)),
                     (D(2010, 12, 31), D(2010, 12, 31, 0, 0, 1)),
                     (D(2010, 12, 31), D(2010, 12, 31)),
                     (None, D(2010, 12, 31)), (D(2010, 12, 31), None),
                     (D(2010, 12, 30), D(2011, 2, 28)),
                     (D(2010, 12, 31, 0, 0, 0, 1), D(2011, 1, 1, 12)),
                     (D(2011, 1, 1), D(2010, 12, 30)),
                     (D(2015, 1, 1), D(2016, 1, 1)),
                     (D(2011, 1, 2), D(2011, 3, 1))]
        for n in [None, [16], [17, 18], (18,), [18, 16, 18], [], 'array']
        for r in (None, True, False)]


def request(req):
    req = dict(req)
    if isinstance(req['sats'], str):
        req['sats'] = np.array([17, 16])
    elif req['sats'] is not None:
        req['sats'] = type(req['sats'])(req['sats'])
    return req


def faults(params, rep):
    """Download scripts x archives x directories x requests"""
    todo = scripts()[params['part']::params['parts']]
    count = 0
    for script, arch, pre in itertools.product(todo, params['arch'], PRE):
        for ireq in params['reqs']:
            req = request(REQS[ireq])
            if arch in ODD and not (req['stime'] or req['etime'] or
                                    req['sats'] is not None):
                continue
            count += 1
            base = os.path.realpath(tempfile.mkdtemp(prefix='dl_'))
            members = ARCHIVES[arch]
            prepare(base, pre, members)
            case = {'func': 'faults', 'script': script, 'archive': arch,
                    'dir': pre, 'req': {k: str(v) for k, v in req.items()}}
            one(rep, case, base, script, members, req, fmt=params['fmt'])
            rep.state((script, arch, pre, ireq, params['fmt']))
            shutil.rmtree(base)
    rep.trace({'part': params['part'], 'fmt': params['fmt']}, count)


def requests(params, rep):
    """All requests on a good download"""
    count = 0
    mod, bdir = module()
    for arch, pre in itertools.product(params['arch'], params['pre']):
        for ireq, req in enumerate(REQS):
            req = request(req)
            if arch in ODD and not (req['stime'] or req['etime'] or
                                    req['sats'] is not None):
                continue
            count += 1
            req['doi'] = [None, '10.5281/zenodo.42', None][count % 3]
            default = count % 4 == 0
            if default:
                # the package's own directory (of the scratch copy)
                req['default'] = True
                base = os.path.realpath(bdir)
                first = snapshot(base)
            else:
                base = os.path.realpath(tempfile.mkdtemp(prefix='rq_'))
            prepare(base, pre, ARCHIVES[arch])
            case = {'func': 'requests', 'archive': arch, 'dir': pre,
                    'req': {k: str(v) for k, v in req.items()}}
            one(rep, case, base, (['mLzC', 'mLAz', 'TmLzCT'][count % 3], None,
                                  ['err', 'out', 'both'][count % 3]),
                ARCHIVES[arch], req)
            rep.state((arch, pre, ireq, default))
            if default:
                for name in snapshot(base):
                    path = os.path.join(base, name)
                    if name not in first and os.path.exists(path):
                        (shutil.rmtree if os.path.isdir(path)
                         else os.remove)(path)
            else:
                shutil.rmtree(base)
    # unusable requests
    base = os.path.realpath(tempfile.mkdtemp(prefix='rq_'))
    prepare(base, 'busy', [])
    first = snapshot(base)
    for kwargs in [{'sat_nums': [19]}, {'sat_nums': [16, 15]},
                   {'sat_nums': [0]}, {'out_dir': os.path.join(base, 'no')},
                   {'out_dir': os.path.join(base, 'notes.txt')}]:
        kwargs = dict({'out_dir': base}, **kwargs)
        client = Client('mLzC', None, 'err', BASE)
        res, err, kept = call(lambda: mod.fetch_ssj_boundary_files(**kwargs),
                              client, mod)
        case = {'func': 'requests', 'unusable': repr(sorted(kwargs))}
        rep.step(1, 'requests')
        if not isinstance(err, ValueError) or not kept:
            rep.violate(case, 'no error', repr(err))
        if snapshot(base) != first or client.calls:
            rep.violate(case, 'downloaded', client.calls)
    shutil.rmtree(base)
    rep.trace({'arch': params['arch']}, count)


CALLS = [(('mLzC', None, 'err'), 'full', 26, False),
         (('mLzC', None, 'out'), 'full', 23, False),
         (('mLA', None, 'err'), 'full', 28, False),
         (('mLzI', None, 'err'), 'full', 26, False),
         (('mLbC', None, 'both'), 'full', 24, False),
         (('mX', 'exit', 'err'), 'full', 26, False),
         (('mLzC', None, 'err'), 'full', 26, True),
         (('mLzC', None, 'err'), 'full', 0, False),
         (('mLzCX', 'key', 'out'), 'full', 29, False),
         (('mLzC', None, 'err'), 'full', 23, True),
         (('SmLzC', None, 'out'), 'full', 125, False),
         (('mLC', None, 'out'), 'full', 30, False),
         (('mLtC', None, 'out'), 'full', 29, True),
         (('mzCE', None, 'out'), 'full', 2, False)]


def history(params, rep):
    """Sequences of calls in one directory"""
    for rest in itertools.product(CALLS[:params['num']],
                                  repeat=params['rest']):
        seq = tuple(CALLS[i] for i in params['first']) + rest
        base = os.path.realpath(tempfile.mkdtemp(prefix='hs_'))
        prepare(base, 'busy', ARCHIVES['full'])
        for i, (script, arch, ireq, fmt) in enumerate(seq):
            req = request(REQS[ireq])
            here = os.path.join(base, ZIP)
            if os.path.exists(here) and not set(script[0]) & set('zbtc'):
                with open(here, 'rb') as fin:
                    good = fin.read() == archive(ARCHIVES[arch])
                if not good:
                    # an earlier failure left an unusable archive, which the
                    # client would not report as correct
                    os.remove(here)
            case = {'func': 'history', 'seq': [
                [s[0][0], s[0][1], s[2], s[3]] for s in seq[:i + 1]]}
            one(rep, case, base, script, ARCHIVES[arch], req, fmt=fmt)
        rep.state(tuple((s[0], s[2], s[3]) for s in seq))
        shutil.rmtree(base)
    rep.trace({'first': params['first'], 'rest': params['rest']}, None)


def jobs(tier):
    quick = tier == 'quick'
    some = ['full', 'f18', 'none', 'folder', 'oneday']
    parts = 8
    out = []
    for part in range(parts):
        out.append(('faults', {
            'part': part, 'parts': parts, 'fmt': False,
            'arch': some if quick else list(ARCHIVES),
            'reqs': [0, 24, 29, 2] if quick else list(range(
                0, len(REQS), 9)) + [1, 2]}))
        out.append(('faults', {
            'part': part, 'parts': parts, 'fmt': True,
            'arch': ['oneday', 'none'] if quick else ['oneday', 'f18',
                                                      'readme'],
            'reqs': [24, 23] if quick else [24, 23, 0, 129, 86]}))
    for arch in ARCHIVES:
        out.append(('requests', {'arch': [arch],
                                 'pre': ['busy', 'stale'] if quick
                                 else list(PRE)}))
    for i in range(len(CALLS)):
        out.append(('history', {'first': [i], 'rest': 1 if quick else 2,
                                'num': len(CALLS)}))
    if not quick:
        out += [('history', {'first': [i, j], 'rest': 2, 'num': 7})
                for i in range(7) for j in range(7)]
    return out
