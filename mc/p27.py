"""P27: work on separate objects, arrays and files never interacts."""
import copy
import datetime as dt
import os
import sys
import threading
import warnings

from mc import gen, p15, p16, p17, p20
from mc.core import canon
from mc.gen import np, ocbpy, ocbcor
from ocbpy import ocb_scaling, ocb_time, vectors
from ocbpy.boundaries import dmsp_ssj_files, files
from ocbpy.instruments import general, pysat_instruments, supermag, vort

TECHNIQUE = ('stateless exploration of the real code under a controlled '
             'scheduler: two threads, each running one public operation on '
             'objects, arrays and files of its own, are switched at every '
             'source line of the package (one preemption for every pair of '
             'operations, two preemptions for pairs of short operations); '
             'each schedule is compared with both operations run alone')
ORACLE = ('the result, the files written and the public attributes of the '
          'objects of each operation, run alone on a fresh copy')
BOUND = {'quick': '34 operations; each interrupted at the first visit of '
                  'every executed line by itself and by every fourth other '
                  'operation, in turn (the pysat conversion at every '
                  'eighth line by itself); twelve short '
                  'operations against themselves, switched twice at every '
                  'pair of lines',
         'thorough': '34 operations; every ordered pair, switched at the '
                     'first four visits of every executed line (by the '
                     'pysat conversion at every fourth); all pairs of '
                     'short operations with two switches'}
ASSUMPTIONS = ['the libraries (numpy, aacgmv2, datetime) are atomic: a switch '
               'happens between source lines of the package']
JOB_CPU_LIMIT = 800
PKG = os.path.dirname(os.path.realpath(ocbpy.__file__)) + os.sep
WAIT = 60.0
# the state of the warning filters belongs to the process: keep them out
warnings.showwarning = lambda *args, **kwargs: None


# Controlled scheduler -------------------------------------------------------
class Runner(object):
    """One thread under control: runs up to given line events."""

    def __init__(self, func, visits):
        self.func, self.visits = func, visits
        self.stop = None          # number of the event to stop at
        self.count = 0
        self.seen = {}
        self.go, self.paused = threading.Event(), threading.Event()
        self.out, self.done = None, False
        self.thread = threading.Thread(target=self.body, daemon=True)

    def trace(self, frame, event, arg):
        code = frame.f_code
        if not code.co_filename.startswith(PKG) or code.co_name == '<module>':
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == 'line':
            key = (frame.f_code, frame.f_lineno)
            num = self.seen.get(key, 0)
            if num < self.visits:
                self.seen[key] = num + 1
                if self.count == self.stop:
                    self.go.clear()
                    self.paused.set()
                    self.go.wait(WAIT)
                self.count += 1
        return self.line

    def body(self):
        self.go.wait(WAIT)
        sys.settrace(self.trace)
        try:
            self.out = self.func()
        finally:
            sys.settrace(None)
            self.done = True
            self.paused.set()

    def run(self, stop=None):
        """Run to the event with this number or to the end."""
        self.stop = stop
        self.paused.clear()
        if self.thread.ident is None:
            self.thread.start()
        self.go.set()
        return self.paused.wait(WAIT)


def schedule(first, second, points, visits):
    """Run both, switching at the points (numbers of line events of the first
    and second in turn); the rest of the first, then of the second."""
    runs = [Runner(first, visits), Runner(second, visits)]
    who = 0
    for point in list(points):
        if not runs[who].run(point):
            return None, runs
        who = 1 - who
    for num in (who, 1 - who):
        if not runs[num].done and not runs[num].run(None):
            return None, runs
    for one in runs:
        one.thread.join(WAIT)
    return [one.out for one in runs], runs


# Operations -----------------------------------------------------------------
# side 0 and 1 have different records, data and settings; 'twin' has the files
# of side 0 and other arguments
def recs(side, kind='ocb'):
    base = 13.0 if kind == 'ocb' else 26.0
    return [gen.rec(60 * k + side, base + side + 0.7 * k,
                    phi=20.0 + 100.0 * side + 40.0 * k, rc=2.0 + 0.5 * k,
                    fom=[2.0, 9.0, 1.0, 0.5][(k + side) % 4])
            for k in range(4)]


def single(side, cls=None, keep=False):
    kwargs, _ = gen.corrections(['kwarray', 'array'][side % 2], 'image', 4)
    return gen.ocb('image', recs(side), 1, rec_ind=1 + side, cls=cls,
                   keep=keep, boundary_lat=74.0 + side, **kwargs)


def pair(side):
    return gen.dual('image', recs(side), 'image', recs(side, 'eab'), 1,
                    olat=74.0 + side, elat=64.0 - side)


def points(side, num=4):
    i = np.arange(num)
    return (62.0 + side + 7.0 * i) % 90.0, (1.5 + 3.0 * side + 5.0 * i) % 24.0


def times(side):
    return [gen.T0 + dt.timedelta(seconds=20 * k + 3 * side)
            for k in range(8)]


def obj_single(side):
    return [single(side)]


def obj_dual(side):
    return [pair(side)]


def obj_vect(side):
    lat, lt = points(side, 3)
    return [single(side), ocb_scaling.VectorData(
        np.arange(3), 1 + side, lat, lt, vect_n=np.array([50.0, -20.0, 3.0])
        + side, vect_e=np.array([10.0, 30.0, -7.0]) * (1 + side),
        vect_z=np.array([1.0, 2.0, 3.0]), scale_func=[
            ocb_scaling.normal_evar, ocb_scaling.normal_curl_evar][side])]


def obj_geo(side):
    lat, lt = points(side, 2)
    return [single(side), ocb_scaling.VectorData(
        np.arange(2), 1 + side, lat, lt, vect_n=np.array([50.0, -20.0]),
        vect_e=np.array([10.0, 30.0]) * (1 + side), vect_z=np.zeros(2),
        loc_coord=['geodetic', 'geocentric'][side],
        vect_coord=['geodetic', 'geocentric'][side], height=300.0)]


def obj_dvect(side):
    lat, lt = points(side, 2)
    return [pair(side), ocb_scaling.VectorData(
        np.arange(2), np.array([0, 1]), lat, lt, vect_n=np.array([5.0, 9.0]),
        vect_e=np.array([4.0, 2.0 + side]), vect_z=np.zeros(2),
        scale_func=ocb_scaling.normal_evar)]


def nothing(side):
    return []


def op_load(objs, side):
    path = os.path.join(gen.jobdir(), 'load%d' % side)
    gen.write('image', recs(side), path)
    kwargs, _ = gen.corrections('kwarray', 'image', 4)
    out = ocbpy.OCBoundary(filename=path, instrument='image', stime=gen.T0,
                           etime=gen.T0 + dt.timedelta(seconds=130 + side))
    objs.append(out)
    return out.records


def op_loadxy(objs, side):
    path = os.path.join(gen.jobdir(), 'loadxy%d' % side)
    inst = ['ampere', 'dmsp-ssj'][side]
    gen.write(inst, recs(side), path)
    objs.append(ocbpy.EABoundary(filename=path, instrument=inst))
    return objs[-1].records


def op_dualnew(objs, side):
    objs.append(pair(side))
    objs[-1].set_good_ind(ocb_max_merit=1.5 + side)
    return objs[-1].records


def op_cycle(objs, side):
    objs[0].rec_ind = -1
    out = []
    while objs[0].rec_ind < objs[0].records:
        objs[0].get_next_good_ocb_ind(r=('min', 13.5 + side))
        out.append(objs[0].rec_ind)
    return out


def op_match(objs, side):
    objs[0].rec_ind = -1 if side else 0
    out, idat, tt = [], 0, times(side)
    while idat is not None and idat < len(tt) and (
            objs[0].rec_ind < objs[0].records):
        idat = ocbpy.match_data_ocb(objs[0], tt, idat=idat,
                                    max_tol=15 + side)
        out.append((idat, int(objs[0].rec_ind)))
        if idat is not None:
            idat += 1
    return out


def op_track(objs, side):
    lat, mlt = points(side)
    bound = gen.ocb('dmsp-ssj', [gen.rec(0, 14.0 + side, x=1.0, y=0.5,
                                         extra={'x_1': 12.0, 'y_1': 3.0 + side,
                                                'x_2': -9.0, 'y_2': -4.0})],
                    rec_ind=0)
    return ocbpy.cycle_boundary.satellite_track(
        lat, mlt, bound.x_1[0], bound.y_1[0], bound.x_2[0], bound.y_2[0],
        1, [10.0, 30.0][side])


def op_time(objs, side):
    return [ocb_time.convert_time(year=2008 + side, soy=5000000.5 + side),
            ocb_time.convert_time(yyddd='10%d126' % (side + 1), sod=1234.5),
            ocb_time.convert_time(date='2011-02-0%d' % (side + 1),
                                  tod='10:1%d:00' % side),
            ocb_time.get_datetime_fmt_len('%Y-%m-%d %H:%M:%S')]


def op_angle(objs, side):
    vals = np.array([-400.0, -3.0, 0.0, 7.25, 25.0, 800.0, np.nan]) + side
    return [ocb_time.deg2hr(vals), ocb_time.hr2deg(vals / 15.0),
            ocb_time.hr2rad(vals / 15.0), ocb_time.rad2hr(vals / 60.0),
            ocb_time.slt2glon(vals, times(side)[1]),
            ocb_time.glon2slt(vals, times(side)[2]),
            ocb_time.fix_range(vals, -5.0 - side, 5.0)]


def op_correct(objs, side):
    mlt = points(side)[1]
    inst, meth = [('ampere', 'median'), ('si13', 'eab')][side]
    return [ocbcor.circular(mlt, 1.0 + side), ocbcor.elliptical(
        mlt, method=['median', 'gaussian'][side]), ocbcor.harmonic(
            mlt, instrument=inst, method=meth)]


def op_hav(objs, side):
    vals = np.array([0.1, 0.7, np.nan, 1e-17, -2.0]) + 0.1 * side
    return [ocb_scaling.hav(vals), ocb_scaling.archav(vals)]


def op_adjust(objs, side):
    lat, lt = points(side, 4)
    pole_lt, pole_lat = vectors.get_pole_loc(
        np.array([10.0, 70.0, 200.0, 300.0]) + 31.0 * side,
        np.array([2.0, 3.0, 4.0, 5.0]))
    ang = vectors.calc_vec_pole_angle(lt, lat, pole_lt, pole_lat)
    vn, ve = np.array([1.0, -2.0, 0.0, 3.0]), np.array([2.0, side, 0.0, -1.0])
    return vectors.adjust_vector(
        lt, lat, vn, ve, np.ones(4), vectors.define_vect_quadrants(vn, ve),
        pole_lt, pole_lat, ang, vectors.define_pole_quadrants(
            lt, pole_lt, ang))


def op_ascii(objs, side):
    path = os.path.join(gen.jobdir(), 'asc%d' % side)
    with open(path, 'w') as fout:
        fout.write('first line\nSC DATE TIME A B\n')
        for k in range(3):
            fout.write('F%d 2010-0%d-11 10:00:%02d %d %.2f\n' % (
                16 + k, side + 1, k, 5 * k + side, 0.25 * k - side))
    return general.load_ascii_data(
        path, 2, datetime_cols=[1, 2], datetime_fmt='%Y-%m-%d %H:%M:%S',
        int_cols=[3], str_cols=[0])


def op_vort(objs, side):
    keys = [k for part in p16.KEYS for k in part]
    blocks = []
    for b in range(2):
        ents = []
        for e in range(2):
            vals = {k: 1 if k.endswith('FLG') else 10.0 + e + 0.5 * b
                    for k in keys}
            vals.update(MLT=3.0 + 4.0 * e + side, CENTRE_MLAT=80.0 - 3.0 * b,
                        VORTICITY=0.01 * (1 + e + side))
            ents.append(vals)
        blocks.append(p16.block(120 * b + side, ents))
    path = os.path.join(gen.jobdir(), 'vort%d' % side)
    p16.write(blocks, path)
    out = path + '.out'
    vort.vort2ascii_ocb(path, out, ocb=objs[0], max_sdiff=30,
                        save_all=bool(side))
    with open(out) as fin:
        return fin.read()


def op_smag(objs, side):
    blocks = [p15.block(120 * b + side, [
        p15.station('AB%d' % e, 100.0 + side, -40.0 * e, 25.0,
                    3.0 + 4.0 * e, 75.0 + b) for e in range(2)],
        -195 - side, 124 + b) for b in range(2)]
    path = os.path.join(gen.jobdir(), 'smag%d' % side)
    p15.write(blocks, path)
    out = path + '.out'
    supermag.supermag2ascii_ocb(path, out, ocb=objs[0], max_sdiff=30,
                                scale_func=[None, ocb_scaling.normal_evar][
                                    side])
    with open(out) as fin:
        return fin.read()


def op_dmsp(objs, side):
    base = os.path.join(gen.jobdir(), 'dmsp%d' % side)
    os.makedirs(base, exist_ok=True)
    day = dt.datetime(2010, 1, 3 + side)
    paths = []
    for k in range(2):
        pss = [p20.make_pass([1, -1][k], (((75.0 + side) * [1, -1][k], 20.0),
                                          (76.0 * [1, -1][k], 200.0)),
                             ((66.0 * [1, -1][k], 25.0 + side),
                              (65.0 * [1, -1][k], 205.0)),
                             (100, 200 + side, 400, 500), 3.5)]
        paths.append(p20.write(os.path.join(base, p20.name(day, 16 + k)), pss))
    out = dmsp_ssj_files.format_ssj_boundary_files(paths)
    text = []
    for name in sorted(out):
        with open(name) as fin:
            text.append((os.path.basename(name), fin.read()))
        os.remove(name)
    return text


def op_files(objs, side):
    # a package directory of our own, the same for both
    base = os.path.join(gen.jobdir(), 'ocbpy', 'boundaries')
    if not os.path.isdir(base):
        os.makedirs(base)
        for name in ['image_north_circle.ocb', 'wic_north_circle.eab',
                     'amp_south_radii.ocb', 'si12_south_circle.eab',
                     'swarm_north_20150101_20151231.ocb',
                     'abc_south_20150101_20151231.eab', '__init__.py']:
            with open(os.path.join(base, name), 'w') as fout:
                fout.write('1 2 3\n')
    ocbpy.boundaries.__file__ = os.path.join(base, '__init__.py')
    stime = dt.datetime([2001, 2015][side], 1, 20)
    bound = ['ocb', 'eab'][side]
    first = files.get_boundary_files(bound)
    return [sorted(first), [files.get_default_file(
        stime, stime + dt.timedelta(days=40), [1, -1][side], inst, bound)
        for inst in ('', 'image', 'abc')]]


def obj_pysat(side):
    tt = times(side)
    inst = p17.instrument(p17.make_data('pandas', tt, {}, 1), ['ev'])
    return [single(side), inst.copy()]


def op_pysat(objs, side):
    ocb, inst = objs
    pysat_instruments.add_ocb_to_data(
        inst, 'lat', 'lt', evar_names=['ev'], vector_names={'vel': {
            'vect_n': 'vn', 'vect_e': 've', 'vect_z': 'vz', 'dat_name': 'v',
            'dat_units': 'm/s', 'scale_func': ocb_scaling.normal_evar}},
        ocb=ocb, max_sdiff=20 + side)
    return [sorted(inst.variables), [np.array(inst[name]) for name in sorted(
        inst.variables)], [sorted(str(v) for v in inst.meta[
            name].to_dict().values()) for name in sorted(inst.variables)
        if name in inst.meta.keys()]]


def op_bad(objs, side):
    """Operations that raise or that have nothing to do."""
    out = []
    for func in (lambda: ocbcor.harmonic(1.0, instrument='none'),
                 lambda: ocb_time.fix_range(1.0, 5.0 + side, 2.0),
                 lambda: general.load_ascii_data('/no/such/file', 1),
                 lambda: ocbpy.OCBoundary(filename=None, hemisphere=3 + side),
                 lambda: objs[1].set_ocb(objs[0], trace_method='none')
                 if side else objs[1].scale_vector()):
        try:
            out.append(func())
        except (ValueError, RuntimeError) as exc:
            out.append([type(exc).__name__, str(exc)])
    return out


def op_lats(objs, side):
    objs[0].get_aacgm_boundary_lat(points(side)[1])
    objs[0].get_aacgm_boundary_lat(points(1 - side)[1], rec_ind=0,
                                   overwrite=True)
    return [copy.deepcopy(objs[0].aacgm_boundary_lat),
            copy.deepcopy(objs[0].aacgm_boundary_mlt)]


def op_dlats(objs, side):
    objs[0].get_aacgm_boundary_lats(points(side)[1], overwrite=bool(side))
    return [copy.deepcopy(objs[0].ocb.aacgm_boundary_lat),
            copy.deepcopy(objs[0].eab.aacgm_boundary_lat)]


def op_update(objs, side):
    objs[1].update_loc_coords(times(side)[0])
    objs[1].update_loc_coords(times(side)[0], coord='geodetic')
    return [objs[1].lat, objs[1].lt]


def op_set(objs, side):
    objs[1].set_ocb(objs[0])
    return [objs[1].ocb_n, objs[1].ocb_e, objs[1].ocb_mag]


OPS = [
    ('normal', obj_single, lambda o, s: o[0].normal_coord(*points(s))),
    ('normalgeo', obj_single, lambda o, s: o[0].normal_coord(
        *points(s), coords=['geodetic', 'geocentric'][s], height=200.0)),
    ('revert', obj_single, lambda o, s: o[0].revert_coord(
        *points(s), 0.25 * s)),
    ('revertgeo', obj_single, lambda o, s: o[0].revert_coord(
        *points(s), 0.25, coords='geodetic', height=110.0 + s)),
    ('lats', obj_single, op_lats),
    ('cycle', obj_single, op_cycle),
    ('all', obj_single, lambda o, s: ocbpy.cycle_boundary
     .retrieve_all_good_indices(o[0])),
    ('match', obj_single, op_match),
    ('repr', obj_single, lambda o, s: [repr(o[0]), str(o[0])]),
    ('load', nothing, op_load),
    ('loadxy', nothing, op_loadxy),
    ('dualnew', nothing, op_dualnew),
    ('dualnormal', obj_dual, lambda o, s: o[0].normal_coord(*points(s))),
    ('dualrevert', obj_dual, lambda o, s: o[0].revert_coord(
        *points(s), is_ocb=False, aacgm_mlt=points(1 - s)[1])),
    ('duallats', obj_dual, op_dlats),
    ('dualmatch', obj_dual, op_match),
    ('dualr', obj_dual, lambda o, s: o[0].calc_r(
        points(s)[0], points(s)[1], points(s)[1], 0.25)),
    ('set', obj_vect, op_set),
    ('setgeo', obj_geo, op_set),
    ('setdual', obj_dvect, op_set),
    ('update', obj_geo, op_update),
    ('adjust', nothing, op_adjust),
    ('time', nothing, op_time),
    ('angle', nothing, op_angle),
    ('correct', nothing, op_correct),
    ('hav', nothing, op_hav),
    ('track', nothing, op_track),
    ('ascii', nothing, op_ascii),
    ('vort', obj_single, op_vort),
    ('smag', obj_single, op_smag),
    ('dmsp', nothing, op_dmsp),
    ('files', nothing, op_files),
    ('pysat', obj_pysat, op_pysat),
    ('bad', obj_vect, op_bad)]
# number of jobs of the longer operations
LONG = {'set': 3, 'setgeo': 4, 'setdual': 4, 'smag': 4, 'dualnew': 2,
        'adjust': 2, 'vort': 2, 'dualnormal': 2, 'dualrevert': 2,
        'pysat': 6}
SLOW = ['pysat']
SHORT = ['normal', 'revert', 'cycle', 'all', 'match', 'angle', 'hav', 'time',
         'lats', 'correct', 'files', 'dualmatch']
_proto, _alone = {}, {}


def plain(obj):
    """Nested lists of plain values that no later operation can change."""
    if isinstance(obj, dict):
        return [[str(k), plain(obj[k])] for k in sorted(obj, key=str)]
    if isinstance(obj, np.ndarray):
        return [str(obj.shape), [plain(v) for v in obj.ravel().tolist()]]
    if isinstance(obj, (list, tuple)):
        return [plain(v) for v in obj]
    if isinstance(obj, (float, np.floating)):
        return float(obj)
    return canon(obj)


def number(text):
    try:
        return float(text)
    except ValueError:
        return None


def differ(got, want):
    """The first difference beyond the rounding of the magnetic model, whose
    last digits depend on the times it was used for before."""
    if type(got) is not type(want):
        return [got, want]
    if isinstance(got, list):
        if len(got) != len(want):
            return [got, want]
        for gg, ww in zip(got, want):
            diff = differ(gg, ww)
            if diff is not None:
                return diff
        return None
    if isinstance(got, float):
        good = got == want or gen.close(got, want, 1.0e-6)
        return None if good else [got, want]
    if got == want:
        return None
    parts = [str(val).split() for val in (got, want)]
    if len(parts[0]) == len(parts[1]) and isinstance(got, str):
        nums = [(number(gg), number(ww)) for gg, ww in zip(*parts) if gg != ww]
        if all(gg is not None and ww is not None and abs(gg - ww) < 1.1e-3
               for gg, ww in nums):
            return None
    return [got, want]


def state(obj):
    """Public attributes, with those of the members."""
    out = {}
    if not type(obj).__module__.startswith('ocbpy'):
        return out
    for key, val in gen.public(obj).items():
        if callable(val) or key in ('rfunc', 'filename'):
            continue
        out[key] = state(val) if type(val).__module__.startswith(
            'ocbpy') else val
    return out


def prepare(num, side):
    """A call of the operation on its own copy of the objects."""
    _, make, run = OPS[num]
    if (num, side) not in _proto:
        _proto[(num, side)] = make(side)
    objs = [obj.copy() if isinstance(obj, gen.pysat.Instrument)
            else copy.deepcopy(obj) for obj in _proto[(num, side)]]

    def call():
        try:
            out = run(objs, side)
        except Exception as exc:
            out = ['raised', type(exc).__name__, str(exc)]
        return plain([out, [state(obj) for obj in objs]])

    return call


def alone(num, side, visits):
    """Outcome alone and number of switch points."""
    if (num, side, visits) not in _alone:
        prepare(num, side)()
        out, runs = schedule(prepare(num, side), lambda: None, [], visits)
        assert differ(out[0], prepare(num, side)()) is None, OPS[num][0]
        _alone[(num, side, visits)] = (out[0], runs[0].count)
    return _alone[(num, side, visits)]


def judge(rep, case, out, wants):
    rep.step(1, 'schedules')
    rep.state(case)
    if out is None:
        rep.violate(case, 'an operation does not finish')
        return False
    for num in range(2):
        diff = differ(out[num], wants[num])
        if diff is not None:
            rep.violate(case, '%s operation differs from the same operation '
                        'alone' % ['interrupted', 'interrupting'][num], *diff)
            return False
    rep.trace(case, out)
    return True


class Nested(object):
    """Run a call and, at one of its line events, some others to their end."""

    def __init__(self, visits, point, others):
        self.visits, self.point, self.others = visits, point, others
        self.seen, self.count = {}, 0
        self.outs = []

    trace = Runner.trace

    def line(self, frame, event, arg):
        if event == 'line':
            key = (frame.f_code, frame.f_lineno)
            num = self.seen.get(key, 0)
            if num < self.visits:
                self.seen[key] = num + 1
                if self.count == self.point:
                    self.outs = [other() for other in self.others]
                self.count += 1
        return self.line

    def run(self, func):
        sys.settrace(self.trace)
        try:
            out = func()
        finally:
            sys.settrace(None)
        return out


def once(params, rep):
    """One switch: the first is interrupted at every line by others that run
    from start to end."""
    num, part, parts, visits, every = params
    want1, count = alone(num, 0, visits)
    slow = 8 if OPS[num][0] in SLOW and every > 1 else 1
    for point in range(part, count, parts):
        step = point // parts
        if step % slow:
            continue
        step //= slow
        seconds = [num] + [
            other for other in range(len(OPS))
            if other != num and other % every == step % every
            and (OPS[other][0] not in SLOW or every == 1 and step % 4 == 0)]
        turn = point % len(seconds)
        seconds = seconds[turn:] + seconds[:turn]
        nest = Nested(visits, point, [prepare(k, 1) for k in seconds])
        first = nest.run(prepare(num, 0))
        for k, out in zip(seconds, nest.outs):
            if not judge(rep, [OPS[num][0], OPS[k][0], point], [first, out],
                         [want1, alone(k, 1, 1)[0]]):
                break
        if rep.nviol > 5:
            return


def twice(params, rep):
    """Two switches: the first stops at every line, the second at every line
    of its own, then the first runs to its end."""
    num, other, lower, upper = params
    want1, count = alone(num, 0, 1)
    want2, count2 = alone(other, 1, 1)
    for i in range(lower, min(upper, count)):
        for j in range(count2):
            out, _ = schedule(prepare(num, 0), prepare(other, 1), [i, j], 1)
            if not judge(rep, [OPS[num][0], OPS[other][0], i, j], out,
                         [want1, want2]):
                return


def jobs(tier):
    ops = range(len(OPS))
    out = []
    for num in ops:
        # parts of about the same length
        parts = LONG.get(OPS[num][0], 1)
        if tier != 'quick':
            parts *= 4
        for part in range(parts):
            out.append(('once', [num, part, parts] + (
                [1, 4] if tier == 'quick' else [4, 1])))
        for other in ops:
            if OPS[num][0] in SHORT and OPS[other][0] in SHORT and (
                    tier != 'quick' or num == other):
                out += [('twice', [num, other, k, k + 20])
                        for k in range(0, 160, 20)]
    return sorted(out, key=lambda job: job[0] == 'once' and
                  job[1][2] == 1)
