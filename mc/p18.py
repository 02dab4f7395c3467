"""P18: the default boundary file depends only on request and directory."""
import contextlib
import datetime as dt
import importlib
import io
import itertools
import logging
import os
import shutil
import sys
import tempfile

from mc.core import canon

TECHNIQUE = ('exhaustive enumeration of directory contents (every subset of a '
             'file-name alphabet up to a size) x every listing order x every '
             'request, each run on a scratch copy of the real package; the '
             'result is compared with a model of the selection and across '
             'listing orders')
ORACLE = ('model selection from the file names: hemisphere, type, instrument, '
          'overlapping times, documented preference')
BOUND = {'quick': '33 names; every subset of up to 2 x both orders x 757 '
                  'requests, every subset of 3 of 24 names x 6 orders x 11 '
                  'requests; class defaults for 100 directories',
         'thorough': 'every subset of up to 2 x all requests; every subset of '
                     '3 x 6 orders x 60 requests; every subset of 4 of 18 '
                     'names x 24 orders x 6 requests'}
JOB_CPU_LIMIT = 840
REPO = os.environ.get('OCBMC_REPO', '/repo')
D = dt.datetime
_pkg = {}
ORDER = {'dir': None, 'perm': None}


def package(listing=True):
    """Import a private copy of the package, with an empty directory."""
    pid = os.getpid()
    if pid in _pkg:
        return _pkg[pid]
    base = tempfile.mkdtemp(prefix='pkg_')
    shutil.copytree(os.path.join(REPO, 'ocbpy'), os.path.join(base, 'ocbpy'),
                    ignore=shutil.ignore_patterns('tests', '__pycache__',
                                                  '*.ocb', '*.eab'))
    for name in [m for m in sys.modules if m.split('.')[0] == 'ocbpy']:
        del sys.modules[name]
    sys.path.insert(0, base)
    with contextlib.redirect_stdout(io.StringIO()):
        ocbpy = importlib.import_module('ocbpy')
    ocbpy.logger.setLevel(logging.CRITICAL)
    assert ocbpy.__file__.startswith(base), ocbpy.__file__
    bdir = os.path.join(base, 'ocbpy', 'boundaries')
    keep = set(os.listdir(bdir))
    real_list, real_scan = os.listdir, os.scandir

    def order(names):
        perm = ORDER['perm']
        mine = sorted(n for n in names if n not in keep)
        rest = sorted(n for n in names if n in keep)
        if perm is None or len(perm) != len(mine):
            return rest + mine
        out = [mine[i] for i in perm]
        return out[:1] + rest + out[1:]

    def listdir(path='.'):
        names = real_list(path)
        if not isinstance(path, int) and os.path.realpath(path) == os.path.realpath(bdir):
            names = order(names)
        return names

    class Scan(list):
        def __enter__(self):
            return self

        def __exit__(self, *args):
            return False

        def close(self):
            pass

        def __next__(self):
            if not self:
                raise StopIteration
            return self.pop(0)

    def scandir(path='.'):
        if not isinstance(path, int) and os.path.realpath(path) == os.path.realpath(bdir):
            ents = {e.name: e for e in real_scan(path)}
            return Scan(ents[n] for n in order(list(ents)))
        return real_scan(path)

    if listing:
        os.listdir, os.scandir = listdir, scandir
    _pkg[pid] = (ocbpy, bdir)
    return _pkg[pid]


# name -> (instrument, hemisphere, bound, start, end) or None
IMG = (D(2000, 5, 4), D(2002, 11, 1))
SI13 = (D(2000, 5, 3), D(2002, 11, 1))
AMP = (D(2010, 1, 1), D(2022, 1, 1))
SSJ = (D(2010, 1, 1), D(2099, 1, 1))
FILES = {
    'amp_north_radii.ocb': ('amp', 1, 'ocb', AMP),
    'amp_south_radii.ocb': ('amp', -1, 'ocb', AMP),
    'amp_south_radii.eab': ('amp', -1, 'eab', AMP),
    'si12_north_circle.ocb': ('si12', 1, 'ocb', IMG),
    'si12_south_circle.ocb': ('si12', -1, 'ocb', IMG),
    'si13_north_circle.ocb': ('si13', 1, 'ocb', SI13),
    'wic_north_circle.ocb': ('wic', 1, 'ocb', IMG),
    'wic_north_circle.eab': ('wic', 1, 'eab', IMG),
    'image_north_circle.ocb': ('image', 1, 'ocb', SI13),
    'image_north_circle.eab': ('image', 1, 'eab', SI13),
    'image_south_circle.ocb': ('image', -1, 'ocb', SI13),
    'dmsp-ssj_north_20100101_20101231_v1.1.2.ocb': ('dmsp-ssj', 1, 'ocb',
                                                    SSJ),
    'dmsp-ssj_south_20100101_20101231_v1.1.2.ocb': ('dmsp-ssj', -1, 'ocb',
                                                    SSJ),
    'dmsp-ssj_north_20100101_20101231_v1.1.2.eab': ('dmsp-ssj', 1, 'eab',
                                                    SSJ),
    'swarm_north_20150101_20151231.ocb': ('swarm', 1, 'ocb', (
        D(2015, 1, 1), D(2015, 12, 31))),
    'swarm_north_20160101_20161231_v2.ocb': ('swarm', 1, 'ocb', (
        D(2016, 1, 1), D(2016, 12, 31))),
    'swarm_south_20150101_20151231_a_b.ocb': ('swarm', -1, 'ocb', (
        D(2015, 1, 1), D(2015, 12, 31))),
    'swarm_north_20150101_20151231.eab': ('swarm', 1, 'eab', (
        D(2015, 1, 1), D(2015, 12, 31))),
    'abc_north_19990101_20300101.ocb': ('abc', 1, 'ocb', (
        D(1999, 1, 1), D(2030, 1, 1))),
    'zed_south_20150615_20150615.ocb': ('zed', -1, 'ocb', (
        D(2015, 6, 15), D(2015, 6, 15))),
    'SWARM_North_20170101_20171231.OCB': ('swarm', 1, 'ocb', (
        D(2017, 1, 1), D(2017, 12, 31))),
    # names without usable times
    'abc_north_someday.ocb': ('abc', 1, 'ocb', None),
    'zed_south_2015_2016.ocb': ('zed', -1, 'ocb', None),
    # not boundary files, or not readable as such
    'notes.ocb': None, 'amp_east_radii.ocb': None, 'amp.ocb': None,
    'README_north_20150101_20151231.ocb': None,
    'image_north_circle.txt': None, 'amp_north_radii.ocb.gz': None,
    'wic_north_helper.py': None, 'north_amp_radii.ocb': None,
    'amp_southern_radii.ocb': None, 'image_south_dir.ocb/': None}
NAMES = list(FILES)
CORE = [n for n in NAMES if FILES[n] is not None][:21] + [
    'notes.ocb', 'abc_north_someday.ocb', 'amp_east_radii.ocb']
FOUR = ['amp_north_radii.ocb', 'amp_south_radii.ocb', 'si12_north_circle.ocb',
        'si12_south_circle.ocb', 'si13_north_circle.ocb',
        'wic_north_circle.ocb', 'image_north_circle.ocb',
        'image_north_circle.eab', 'wic_north_circle.eab',
        'image_south_circle.ocb',
        'dmsp-ssj_north_20100101_20101231_v1.1.2.ocb',
        'dmsp-ssj_south_20100101_20101231_v1.1.2.ocb',
        'swarm_north_20150101_20151231.ocb',
        'swarm_north_20160101_20161231_v2.ocb',
        'swarm_south_20150101_20151231_a_b.ocb',
        'abc_north_19990101_20300101.ocb', 'zed_south_20150615_20150615.ocb',
        'notes.ocb']
PREF = ['image', 'amp', 'si13', 'si12', 'wic', 'dmsp-ssj']
LONG = {'amp': 'ampere', 'si12': 'image', 'si13': 'image', 'wic': 'image'}
SHORT = {'ampere': ['amp'], 'image': ['image', 'si12', 'si13', 'wic'],
         'dmsp-ssj': ['dmsp-ssj'],
         '': ['amp', 'image', 'si12', 'si13', 'wic', 'dmsp-ssj']}
INSTS = ['', 'amp', 'ampere', 'image', 'si12', 'si13', 'wic', 'dmsp-ssj',
         'swarm', 'abc', 'zed']
SEC = dt.timedelta(seconds=1)
WINS = [(None, None), (D(2001, 1, 1), D(2001, 1, 2)),
        (D(2005, 6, 1), D(2005, 6, 1)), (D(2012, 1, 1), D(2012, 2, 1)),
        (D(2015, 6, 15), D(2015, 6, 15)),
        (D(2014, 12, 1), D(2015, 1, 1)), (D(2014, 12, 1),
                                          D(2015, 1, 1) - SEC),
        (D(2015, 12, 31), D(2015, 12, 31, 12)),
        (D(2017, 1, 1), D(2018, 6, 1)), (D(1980, 1, 1), D(2060, 1, 1)),
        (D(1995, 1, 1), D(1996, 1, 1)), (D(2002, 10, 1), D(2010, 2, 1)),
        (None, D(1995, 1, 1)), (D(2150, 1, 1), None),
        (D(2150, 1, 1), D(2151, 1, 1)),
        # first and last days of the documented data sets, and beside them
        (D(2000, 4, 28), D(2000, 5, 1)), (D(2000, 5, 3, 3), D(2000, 5, 3, 12)),
        (D(2000, 5, 4, 4), D(2000, 5, 4, 12)),
        (D(2002, 10, 31, 20), D(2002, 10, 31, 20, 30)),
        (D(2002, 11, 3), D(2002, 11, 4)), (D(2009, 12, 29), D(2009, 12, 30)),
        (D(2010, 1, 1), D(2010, 1, 1, 12)),
        (D(2021, 12, 31), D(2021, 12, 31, 12)),
        (D(2022, 1, 3), D(2022, 1, 4)),
        # data up to the present
        (D.now().replace(microsecond=0) - 7200 * SEC, D.now())]


def requests(tier, level):
    out = [(st, et, hemi, inst, bound) for (st, et), hemi, inst, bound in
           itertools.product(WINS, (1, -1), INSTS, ('ocb', 'eab'))]
    if level == 0:
        return out if tier == 'thorough' else [
            v for i, v in enumerate(out)
            if v[4] == 'ocb' or v[3] in ('', 'image', 'swarm') or i % 7 == 0]
    some = [(WINS[0], '', 'ocb'), (WINS[3], '', 'ocb'), (WINS[1], 'image',
                                                         'ocb'),
            (WINS[4], 'swarm', 'ocb'), (WINS[9], '', 'ocb')]
    if level == 1 and tier == 'thorough':
        some += [(w, i, b) for w, i, b in itertools.product(
            (WINS[0], WINS[1], WINS[5], WINS[8]), ('', 'image', 'swarm',
                                                   'abc'),
            ('ocb', 'eab'))][:26]
    if level == 2:
        some = some[:3]
    out = [(w[0], w[1], h, i, b) for (w, i, b), h in itertools.product(
        some, (1, -1))]
    return out + ([(None, None, 1, '', 'eab')] if level == 1 else [])


def qualify(names, req):
    st, et, hemi, inst, bound = req
    insts = SHORT.get(inst, [inst])
    good = []
    for name in names:
        info = FILES[name]
        if info is None or info[1] != hemi or info[2] != bound or \
           info[0] not in insts:
            continue
        if st is not None and et is not None:
            if info[3] is None or st > info[3][1] or et < info[3][0]:
                continue
        good.append(name)
    if not good:
        return [], good
    rank = {n: PREF.index(FILES[n][0]) if FILES[n][0] in PREF else len(PREF)
            for n in good}
    best = [n for n in good if rank[n] == min(rank.values())]
    if hemi == -1 and st is None and et is None:
        # the documentation prefers AMPERE without times in the south
        best += [n for n in good if FILES[n][0] == 'amp']
    return best, good


def populate(bdir, names, content=None):
    for name in names:
        path = os.path.join(bdir, name)
        if name.endswith('/'):
            os.mkdir(path.rstrip('/'))
        else:
            with open(path, 'w') as fout:
                fout.write('x\n' if content is None else content)


def clean(bdir, names):
    for name in names:
        path = os.path.join(bdir, name.rstrip('/'))
        if name.endswith('/'):
            os.rmdir(path)
        else:
            os.remove(path)


def explore(names, reqs, rep, perms=None):
    ocbpy, bdir = package()
    files = ocbpy.boundaries.files
    names = tuple(names)
    populate(bdir, names)
    results = {}
    for perm in (itertools.permutations(range(len(names)))
                 if perms is None else perms):
        ORDER['perm'] = perm
        for req in reqs:
            st, et, hemi, inst, bound = req
            case = [names, perm, req]
            rep.step(1, 'choose')
            got, ginst = files.get_default_file(st, et, hemi, inst, bound)
            best, good = qualify(names, req)
            base = None
            if got is not None:
                if not os.path.isfile(got) or os.path.realpath(
                        os.path.dirname(got)) != os.path.realpath(bdir):
                    rep.violate(case, 'not a file of the directory',
                                got.replace(bdir, ''), best)
                base = os.path.basename(got)
            if base is None and good or base is not None and (
                    base not in best):
                rep.violate(case, 'chosen file', base, best)
            elif base is not None:
                want = LONG.get(FILES[base][0], FILES[base][0])
                if ginst != want:
                    rep.violate(case, 'instrument', ginst, want)
            elif ginst != inst:
                rep.violate(case, 'instrument without a file', ginst, inst)
            if req in results and results[req] != (base, ginst):
                rep.violate(case, 'choice depends on the listing order',
                            base, results[req][0])
            results[req] = (base, ginst)
        for bound in ('ocb', 'eab', 'OCB'):
            rep.step(1, 'list')
            info = files.get_boundary_files(bound=bound)
            want = {n for n in names if FILES[n] is not None
                    and FILES[n][2] == bound.lower()}
            if set(info) != want or any(
                    info[n]['hemisphere'] != FILES[n][1]
                    or info[n]['instrument'] != FILES[n][0] for n in want):
                rep.violate([names, perm, bound], 'boundary files',
                            {n: [info[n]['hemisphere'],
                                 info[n]['instrument']] for n in info}, want)
                continue
            for n in want:
                times = FILES[n][3]
                if FILES[n][0] in ('swarm', 'abc', 'zed') and times is not \
                        None and (info[n]['stime'], info[n]['etime']) != times:
                    rep.violate([names, perm, bound, n], 'time range',
                                info[n], times)
    ORDER['perm'] = None
    for req in reqs:
        rep.state([names, req])
        rep.trace([names, req], results[req])
    clean(bdir, names)


def jobs(tier):
    subs = list(itertools.chain([()], itertools.combinations(NAMES, 1),
                                itertools.combinations(NAMES, 2)))
    out = [('subsets', [tier, 0, part, 16]) for part in range(16)]
    out += [('subsets', [tier, 1, part, 16]) for part in range(16)]
    if tier == 'thorough':
        out += [('subsets', [tier, 2, part, 16]) for part in range(16)]
    out += [('classes', [tier, part, 4]) for part in range(4)]
    assert len(subs) > 500
    return out


def subsets(params, rep):
    tier, level, part, parts = params
    if level == 0:
        subs = itertools.chain([()], itertools.combinations(NAMES, 1),
                               itertools.combinations(NAMES, 2))
    elif level == 1:
        subs = itertools.combinations(CORE if tier == 'quick' else NAMES, 3)
    else:
        subs = itertools.combinations(FOUR, 4)
    reqs = requests(tier, level)
    for i, names in enumerate(subs):
        if i % parts == part:
            explore(names, reqs, rep)


# the classes use the file ---------------------------------------------------
LINES = {'image': '2001 86400.0 20 10.0 2.0 %s 0.5 0.1 1.0\n',
         'amp': '20120101 12:00 %s 1.0 2.0 0.5\n',
         'dmsp-ssj': '#head\n16 2012-01-01 12:00:00 %s 1.0 2.0 3.5 1 2 3 4\n'}
LOAD = [n for n in NAMES if FILES[n] is not None
        and FILES[n][0] in PREF]


def classes(params, rep):
    tier, part, parts = params
    ocbpy, bdir = package()
    for i, names in enumerate(itertools.combinations(
            LOAD, 3 if tier == 'thorough' else 2)):
        if i % parts != part:
            continue
        for k, name in enumerate(names):
            kind = FILES[name][0]
            text = LINES[kind if kind in LINES else 'image'] % (10.5 + k)
            populate(bdir, [name], text)
        for hemi, inst, win in itertools.product(
                (1, -1), ('', 'image', 'ampere', 'amp', 'wic', 'dmsp-ssj'),
                ((None, None), (D(2000, 12, 1), D(2001, 3, 1)),
                 (D(2011, 1, 1), D(2012, 1, 2)))):
            for bound, cls in (('ocb', ocbpy.OCBoundary),
                               ('eab', ocbpy.EABoundary)):
                req = (win[0], win[1], hemi, inst, bound)
                case = [names, 'class', req]
                rep.state(case)
                rep.step(1, 'construct')
                obj = cls(instrument=inst, hemisphere=hemi, stime=win[0],
                          etime=win[1])
                base = None if obj.filename is None else os.path.basename(
                    obj.filename)
                rep.trace(case, base)
                best, good = qualify(names, req)
                if base is None and good or base is not None and \
                   base not in best:
                    rep.violate(case, 'file used by the class', base, best)
                elif base is not None:
                    want = [1, LONG.get(FILES[base][0], FILES[base][0]),
                            10.5 + names.index(base)]
                    if canon([obj.records, obj.instrument,
                              float(obj.r[0])]) != canon(want):
                        rep.violate(case, 'loaded', [
                            obj.records, obj.instrument, obj.r], want)
                elif obj.records != 0:
                    rep.violate(case, 'records without a file', obj.records)
            # both members of a dual boundary
            req = (win[0], win[1], hemi, inst)
            rep.step(1, 'construct')
            obj = ocbpy.DualBoundary(
                eab_instrument=inst, ocb_instrument=inst, hemisphere=hemi,
                stime=win[0], etime=win[1])
            for bound in ('ocb', 'eab'):
                fname = getattr(obj, bound).filename
                base = None if fname is None else os.path.basename(fname)
                best, good = qualify(names, req + (bound,))
                if base is None and good or base is not None and \
                   base not in best:
                    rep.violate([names, 'dual', req, bound],
                                'file used by the dual boundary', base, best)
        clean(bdir, names)
