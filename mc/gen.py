"""Boundary files and objects built from explicit records."""
import datetime as dt
import itertools
import math
import os
import sys
import tempfile
import warnings

REPO = os.environ.get('OCBMC_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
warnings.simplefilter('ignore')

import numpy as np  # noqa
np.seterr(all='ignore')
import contextlib  # noqa
import io  # noqa
with contextlib.redirect_stdout(io.StringIO()):
    try:
        import pysat
        if os.path.isdir(os.path.join(os.environ.get('HOME', ''),
                                      'pysatData')):
            pysat.params['data_dirs'] = os.path.join(os.environ['HOME'],
                                                     'pysatData')
    except ImportError:
        pysat = None
    import ocbpy
import logging  # noqa
ocbpy.logger.setLevel(logging.CRITICAL)

from ocbpy import ocb_correction as ocbcor  # noqa

T0 = dt.datetime(2010, 6, 1, 12, 0, 0)
LIMITS = {'image': (-np.inf, 5.0), 'ampere': (0.15, np.inf),
          'dmsp-ssj': (3.0, np.inf)}
GOOD = {'image': 2.5, 'ampere': 0.5, 'dmsp-ssj': 3.5}
BAD = {'image': 7.5, 'ampere': 0.05, 'dmsp-ssj': 1.5}
_count = itertools.count()


def scratch():
    return tempfile.mkdtemp(prefix='job_')


_dir = {}


def jobdir():
    pid = os.getpid()
    if pid not in _dir or not os.path.isdir(_dir[pid]):
        _dir[pid] = scratch()
    return _dir[pid]


def rec(t=0, r=14.0, x=None, y=None, phi=None, rc=None, fom=None, extra=None):
    """One record; t is seconds after T0 or a datetime."""
    if not isinstance(t, dt.datetime):
        t = T0 + dt.timedelta(seconds=t)
    if x is None and phi is None:
        x, y = 0.0, 0.0
    if x is None:
        # phi is the angle from midnight towards dawn
        x = rc * math.sin(math.radians(phi))
        y = -rc * math.cos(math.radians(phi))
    elif phi is None:
        rc = math.hypot(x, y)
        phi = (math.degrees(math.atan2(y, x)) + 90.0) % 360.0
    return {'t': t, 'r': r, 'x': x, 'y': y, 'phi': phi, 'rc': rc, 'fom': fom,
            'extra': extra}


def line(inst, rr):
    fom = GOOD[inst] if rr['fom'] is None else rr['fom']
    ext = rr['extra'] or {}
    t = rr['t']
    if inst == 'image':
        soy = (t - dt.datetime(t.year, 1, 1)).total_seconds()
        return '%d %r %d %r %r %r %r %r %r' % (
            t.year, soy, ext.get('num_sectors', 20), float(rr['phi']),
            float(rr['rc']), float(rr['r']), float(ext.get('a', 0.5)),
            float(ext.get('r_err', 0.1)), float(fom))
    if inst == 'ampere':
        return '%s %r %r %r %r' % (t.strftime('%Y%m%d %H:%M'), float(rr['r']),
                                   float(rr['x']), float(rr['y']), float(fom))
    return '%d %s %r %r %r %r %r %r %r %r' % (
        ext.get('sc', 16), t.strftime('%Y-%m-%d %H:%M:%S'), float(rr['r']),
        float(rr['x']), float(rr['y']), float(fom), float(ext.get('x_1', 1.0)),
        float(ext.get('y_1', 2.0)), float(ext.get('x_2', 3.0)),
        float(ext.get('y_2', 4.0)))


def write(inst, recs, path=None):
    if path is None:
        path = os.path.join(jobdir(), 'b%d.%s' % (next(_count), inst))
    with open(path, 'w') as fout:
        if inst == 'dmsp-ssj':
            fout.write('#sc date time r x y fom x_1 y_1 x_2 y_2\n')
        for rr in recs:
            fout.write(line(inst, rr) + '\n')
    return path


def ocb(inst, recs, hemi=1, rec_ind=None, cls=None, keep=False, **kw):
    """Load an OCBoundary (or ``cls``) holding the records."""
    path = write(inst, recs)
    cls = ocbpy.OCBoundary if cls is None else cls
    out = cls(filename=path, instrument=inst, hemisphere=hemi, **kw)
    if not keep:
        os.remove(path)
    if rec_ind is not None:
        out.rec_ind = rec_ind
    return out


def eab(inst, recs, hemi=1, rec_ind=None, keep=False, **kw):
    return ocb(inst, recs, hemi, rec_ind, cls=ocbpy.EABoundary, keep=keep,
               **kw)


def dual(oinst, orecs, einst, erecs, hemi=1, max_delta=60, rec_ind=None,
         olat=74.0, elat=64.0, okw=None, ekw=None, keep=False):
    ocb_obj = ocb(oinst, orecs, hemi, boundary_lat=olat, keep=keep,
                  **(okw or {}))
    eab_obj = eab(einst, erecs, hemi, boundary_lat=elat, keep=keep,
                  **(ekw or {}))
    out = ocbpy.DualBoundary(ocb=ocb_obj, eab=eab_obj, hemisphere=hemi,
                             eab_lat=elat, ocb_lat=olat, max_delta=max_delta)
    if rec_ind is not None:
        out.rec_ind = rec_ind
    return out


# Module level correction functions ----------------------------------------
def bump(mlt, amp=1.5, width=1.0):
    """Smooth correction without symmetry, arbitrary keywords."""
    mlt = np.asarray(mlt, dtype=float)
    ang = mlt * np.pi / 12.0
    return amp * (0.4 * np.sin(width * ang) + 0.6 * np.cos(
        2.0 * width * ang + 0.3))


def bump_ref(mlt, amp=1.5, width=1.0):
    ang = mlt * math.pi / 12.0
    return amp * (0.4 * math.sin(width * ang)
                  + 0.6 * math.cos(2.0 * width * ang + 0.3))


def isnan(val):
    return val != val


def close(got, want, tol=1.0e-7):
    """Scalar comparison with NaN equal to NaN."""
    if isnan(want):
        return isnan(got)
    return abs(got - want) <= tol * max(1.0, abs(want)) if got == got else False


def close_mlt(got, want, tol=1.0e-7, period=24.0):
    if isnan(want):
        return isnan(got)
    if got != got:
        return False
    diff = abs(got - want) % period
    return min(diff, period - diff) <= tol


# Boundary configurations ---------------------------------------------------
def corrections(name, inst, num, cls='ocb'):
    """Keyword arguments for a boundary and the reference correction of each
    record."""
    from mc import ref
    if name == 'default':
        if inst == 'ampere' and cls == 'ocb':
            return {}, [ref.elliptical] * num
        return {}, [lambda m: 0.0] * num
    single = {
        'circ': (ocbcor.circular, {'r_add': 1.25}, lambda m: 1.25),
        'ell': (ocbcor.elliptical, {'method': 'gaussian'},
                lambda m: ref.elliptical(m, method='gaussian')),
        'harm': (ocbcor.harmonic, {}, ref.harmonic),
        'harmg': (ocbcor.harmonic, {'method': 'gaussian'},
                  lambda m: ref.harmonic(m, method='gaussian')),
        'si12': (ocbcor.harmonic, {'instrument': 'si12', 'method': cls},
                 lambda m: ref.harmonic(m, 'si12', cls)),
        'si13': (ocbcor.harmonic, {'instrument': 'si13', 'method': cls},
                 lambda m: ref.harmonic(m, 'si13', cls)),
        'wic': (ocbcor.harmonic, {'instrument': 'wic', 'method': cls},
                lambda m: ref.harmonic(m, 'wic', cls)),
        'bump': (bump, {'amp': -1.5, 'width': 2.0},
                 lambda m: bump_ref(m, -1.5, 2.0))}
    if name in single:
        func, kwargs, corr = single[name]
        return {'rfunc': func, 'rfunc_kwargs': kwargs}, [corr] * num
    # one function, one set of arguments for each record
    if name == 'kwarray':
        kws = np.array([{'amp': 0.5 * i - 1.0, 'width': 1.0 + i % 3}
                        for i in range(num)])
        return ({'rfunc': bump, 'rfunc_kwargs': kws},
                [lambda m, i=i: bump_ref(m, 0.5 * i - 1.0, 1.0 + i % 3)
                 for i in range(num)])
    # a different function for each record
    keys = ['bump', 'circ', 'ell', 'harm']
    funcs = np.array([single[keys[i % 4]][0] for i in range(num)])
    kws = np.array([dict(single[keys[i % 4]][1]) for i in range(num)])
    return ({'rfunc': funcs, 'rfunc_kwargs': kws},
            [single[keys[i % 4]][2] for i in range(num)])


CORRS = ['default', 'circ', 'ell', 'harm', 'harmg', 'si12', 'si13', 'wic',
         'bump', 'kwarray', 'array']


def containers(vals):
    """The same values in every kind of container."""
    vals = [float(v) for v in vals]
    arr = np.array(vals)
    out = [('list', list(vals)), ('tuple', tuple(vals)), ('array', arr)]
    ro = np.array(vals)
    ro.setflags(write=False)
    out.append(('readonly', ro))
    wide = np.full((2 * len(vals),), -77.0)
    wide[::2] = vals
    out.append(('strided', wide[::2]))
    out.append(('reversed', np.array(vals[::-1])[::-1]))
    if all(v == int(v) for v in vals if v == v) and all(v == v for v in vals):
        out.append(('int', np.array([int(v) for v in vals])))
        out.append(('intlist', [int(v) for v in vals]))
    return out


def scalars(val):
    val = float(val)
    out = [('float', val), ('0d', np.array(val)), ('np', np.float64(val))]
    if val == val and val == int(val):
        out.append(('intscalar', int(val)))
    return out


def full(val, shape):
    return np.broadcast_to(np.asarray(val, dtype=float), shape)


def public(obj):
    """Public attributes of an object, also those kept under a private name."""
    out = {}
    for name in vars(obj):
        name = name.lstrip('_')
        if hasattr(obj, name):
            out[name] = getattr(obj, name)
    return out
