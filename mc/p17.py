"""P17: pysat conversion adds correct, aligned boundary data and metadata."""
import copy
import datetime as dt
import itertools
import math
import os
import warnings

import pandas as pd
import xarray as xr

from mc import gen, ref
from mc.gen import np
from mc.p13 import sphere
from mc.p14 import SCALE
from mc.p15 import chooser, make

import ocbpy.instruments.pysat_instruments as ocb_pysat

TECHNIQUE = ('exhaustive enumeration of data layouts (tables and arrays of '
             'every mix of dimensions) x converted quantities x boundary '
             'kinds x hemispheres, of every pattern of undefined and other-'
             'hemisphere samples of a small array, and of timelines of '
             'boundaries and samples x tolerances; the real function runs on '
             'a real pysat Instrument')
ORACLE = ('independent coordinates, rotation, scaling and nearest-time '
          'choice for every sample by its labels; deep copy of the data and '
          'metadata from before')
BOUND = {'quick': '15 layouts x 3 sizes x 8 sets of quantities x 4 boundary '
                  'kinds x 2 hemispheres; 3^4 patterns of latitudes x 2 '
                  'layouts and 2^6 patterns of undefined values in 6 '
                  'variables x 5 layouts; 8 goodness patterns (seconds and '
                  'days to years apart) x 63 subsets of '
                  '6 times x 5 tolerances; 10 corrections x 4 kinds x 2 '
                  'hemispheres; 3 coordinate systems x height inputs x '
                  'layouts; ways of naming boundaries; hidden name clashes '
                  'and errors',
         'thorough': 'twice as many sizes, 3^6 patterns, 255 subsets of 8 '
                     'times'}
JOB_CPU_LIMIT = 840
ASSUMPTIONS = ['sample times of an instrument are in order and unique (pysat '
               'requires it)', 'tolerance in whole seconds',
               'components of one vector have the dimensions of one of them']
warnings.simplefilter('ignore')
NAN = float('nan')
T0 = gen.T0
_inst = {}


def instrument(data, units=('ev', 'cv', 'vn')):
    """pysat Instrument that holds the data"""
    pandas = isinstance(data, pd.DataFrame)
    key = (os.getpid(), pandas)
    if key not in _inst:
        inst = gen.pysat.Instrument(
            'pysat', 'testing' if pandas else 'ndtesting', num_samples=2,
            use_header=True)
        inst.load(2009, 1)
        _inst[key] = (inst, inst.meta.copy())
    inst, meta = _inst[key]
    inst.data = data
    inst.meta = meta.copy()
    for i, name in enumerate(units):
        inst.meta[name] = {inst.meta.labels.units: 'unit%d' % i,
                           inst.meta.labels.name: 'long %s' % name,
                           inst.meta.labels.desc: 'about %s' % name,
                           inst.meta.labels.min_val: -10.0 - i,
                           inst.meta.labels.max_val: 1.0e5 + i}
    return inst


# Layouts: variable -> dimensions; dimensions with coordinates ---------------
LAYOUTS = {
    'pandas': None,
    'series': ({'lat': 't', 'lt': 't', '*': 't'}, 't'),
    'model': ({'lat': 'L', 'lt': 'tO', '*': 'tLO'}, 'tLO'),
    'modelalt': ({'lat': 'L', 'lt': 'tO', 'ev': 'tLOA', '*': 'tLO'}, 'tLOA'),
    'fixed': ({'lat': 'L', 'lt': 't', '*': 'tL'}, 'tL'),
    'fixedswap': ({'lat': 'L', 'lt': 't', 'ev': 'Lt', '*': 'tL'}, 'tL'),
    'profile': ({'lat': 't', 'lt': 't', 'ev': 'tz', 'vn': 'tz', '*': 't'},
                'tz'),
    'profilebare': ({'lat': 't', 'lt': 't', 'ev': 'tz', 'vn': 'tz',
                     '*': 't'}, 't'),
    'swath': ({'lat': 'tx', 'lt': 'tx', '*': 'tx'}, 'tx'),
    'swathbare': ({'lat': 'tx', 'lt': 'tx', 'cv': 't', '*': 'tx'}, 't'),
    'image': ({'lat': 'txy', 'lt': 'txy', 've': 'tx', 'cv': 'tyx',
               '*': 'txy'}, 'txy'),
    'swathalt': ({'lat': 'tx', 'lt': 'tx', 'ev': 'txz', 've': 'txz',
                  'vn': 'tzx', '*': 'tx'}, 'txz'),
    'latdim': ({'lat': 'tx', 'lt': 't', '*': 'tx'}, 'tx'),
    'ltdim': ({'lat': 't', 'lt': 'tx', '*': 'tx'}, 'tx'),
    'turned': ({'lat': 'xt', 'lt': 'xt', 'ev': 'xt', '*': 'tx'}, 'tx')}
NAMES = {'t': 'time', 'L': 'lat', 'O': 'lon', 'A': 'alt', 'z': 'z', 'x': 'x',
         'y': 'y'}
VARS = ['ev', 'cv', 'vn', 've', 'vz', 'hgt']


def field(name, shape, hemi):
    """Values of a variable: all different"""
    num = int(np.prod(shape))
    i = np.arange(num)
    if name == 'lat':
        # same values whatever the number of samples
        val = hemi * (30.0 + 59.0 * ((i * 0.618034 + 0.73) % 1.0)**0.5)
    elif name == 'lt':
        val = (0.3 + 24.0 * i * 0.3819) % 24.0
    elif name == 'hgt':
        val = 110.0 + 37.0 * i
    else:
        size = {'ev': 3.0, 'cv': 0.02, 'vn': 250.0, 've': 300.0,
                'vz': 40.0}[name]
        val = size * np.sin(1.0 + i * 2.399963 + 0.7 * VARS.index(name))
    return np.round(val, 5).reshape(shape)


def make_data(lay, times, sizes, hemi, hgt=None):
    """Instrument data of a layout"""
    if times and not isinstance(times[0], dt.datetime):
        times = [T0 + dt.timedelta(seconds=t) for t in times]
    index = pd.DatetimeIndex(times)
    if lay == 'pandas':
        index.name = 'Epoch'
        return pd.DataFrame({name: field(name, (len(times),), hemi)
                             for name in ['lat', 'lt'] + VARS}, index=index)
    dims, coords = LAYOUTS[lay]
    sizes = dict(sizes, t=len(times))
    cdat = {'time': index}
    for c in coords[1:]:
        if c == 'L':
            cdat['lat'] = field('lat', (sizes[c],), hemi)
        else:
            cdat[NAMES[c]] = 1.5 * np.arange(sizes[c])
    out = {}
    for name in ['lat', 'lt'] + VARS:
        dd = dims.get(name, dims['*'])
        if name == 'hgt' and hgt is not None:
            dd = hgt
        if name == 'lat' and dd == 'L':
            continue
        out[name] = ([NAMES[d] for d in dd],
                     field(name, tuple(sizes[d] for d in dd), hemi))
    return xr.Dataset(out, coords=cdat)


QUANT = {
    'none': {}, 'ev': {'evar_names': ['ev']}, 'cv': {'curl_evar_names': [
        'cv']}, 'both': {'evar_names': ['ev', 'vz'],
                         'curl_evar_names': ['cv']},
    'vect': {'vector_names': {'vel': {
        'vect_n': 'vn', 'vect_e': 've', 'vect_z': 'vz', 'dat_name': 'v',
        'dat_units': 'm/s'}}, 'evar_names': ['vel']},
    'horiz': {'vector_names': {'vel': {
        'vect_n': 'vn', 'vect_e': 've', 'dat_name': 'v', 'dat_units': 'm/s'}},
        'curl_evar_names': ['cv', 'vel']},
    'many': {'vector_names': {
        'own': {'vect_n': 'vn', 'vect_e': 've', 'vect_z': 'vz',
                'scale_func': SCALE[3][1]},
        'raw': {'vect_e': 'vn', 'vect_n': 've', 'scale_func': None},
        'vel': {'vect_n': 'vn', 'vect_e': 've', 'dat_units': 'm/s'}},
        'evar_names': ['ev', 'vel']},
    'single': {'vector_names': {'vel': {'vect_n': 'vn', 'scale_func': None}}}}


def plan(kw):
    """Vectors as (name, components, power) and scalars as (name, power)"""
    vects = []
    ev = list(kw.get('evar_names', []))
    cv = list(kw.get('curl_evar_names', []))
    for name, val in kw.get('vector_names', {}).items():
        if name in ev:
            power = 1
            ev.remove(name)
        elif name in cv:
            power = 2
            cv.remove(name)
        else:
            power = {id(f): p for _, f, p in SCALE}[id(val['scale_func'])]
        vects.append((name, [val.get('vect_%s' % c) for c in 'nez'], power))
    return vects, [(n, 1) for n in ev] + [(n, 2) for n in cv]


class Source(object):
    """Access to instrument data by labels"""

    def __init__(self, data):
        self.data = data.to_xarray() if isinstance(
            data, pd.DataFrame) else data
        self.time = 'Epoch' if isinstance(data, pd.DataFrame) else 'time'

    def over(self, name, like):
        """Values of a variable at every element of ``like``"""
        var = self.data[name]
        pos = [like.dims.index(d) for d in var.dims]
        vals = var.values
        return lambda idx: float(vals[tuple(idx[p] for p in pos)])


def close(got, want, tol=1.0e-6):
    if want != want:
        return got != got
    return abs(got - want) <= tol * max(1.0, abs(want))


def compare(rep, case, inst, before, kw, bname, hemi, choose, locate=None):
    """Every added value and everything that was there before"""
    rep.step(1, case['func'])
    old, oldmeta = before
    pandas = isinstance(old, pd.DataFrame)
    new = inst.data
    vects, scalars = plan(kw)
    added = ['lat_' + bname, 'lt_' + bname, 'r_corr_' + bname]
    vnames = {}
    for name, _, _ in vects:
        vnames[name] = {k: '%s_%s_%s' % (name, bname, k) for k in (
            'n', 'e', 'z', 'mag')}
        for k in ('unscaled_r', 'scaled_r'):
            vnames[name][k] = [v for v in (
                '%s_%s_%s' % (name, bname, k), '%s_%s' % (name, k))
                if v in new][:1]
            if not vnames[name][k]:
                rep.violate(case, 'no %s of %s' % (k, name), list(new))
                return
            vnames[name][k] = vnames[name][k][0]
        added += list(vnames[name].values())
    added += ['%s_%s' % (n, bname) for n, _ in scalars]
    have = list(new.columns if pandas else new.variables)
    was = list(old.columns if pandas else old.variables)
    if sorted(have) != sorted(set(was + added)):
        rep.violate(case, 'variables', sorted(have), sorted(set(was + added)))
        return
    # earlier data and metadata
    for name in was:
        if name in added:
            continue
        if pandas:
            bad = not (new[name].equals(old[name])
                       and new[name].dtype == old[name].dtype)
        else:
            bad = not new[name].identical(old[name])
        if bad:
            rep.violate(case, 'existing %s changed' % name)
    if not inst.index.equals(old.index if pandas else old.indexes['time']):
        rep.violate(case, 'times changed')
    gone = [k for k in oldmeta if k not in added
            and not same_meta(inst.meta[k], oldmeta[k])]
    if gone:
        rep.violate(case, 'existing metadata changed', gone)
    keys = list(inst.meta.keys())
    lab = inst.meta.labels
    for name in added:
        if name not in keys:
            rep.violate(case, 'no metadata of %s' % name)
            continue
        meta = inst.meta[name]
        fill = meta[lab.fill_val]
        if not (fill != fill) or not meta[lab.name] or not meta[lab.desc] \
           or not meta[lab.notes]:
            rep.violate(case, 'metadata of %s' % name, dict(meta))
    for name, _ in scalars:
        if name in oldmeta and inst.meta['%s_%s' % (name, bname)][
                lab.units] != oldmeta[name][lab.units]:
            rep.violate(case, 'units of %s' % name,
                        dict(inst.meta['%s_%s' % (name, bname)]))
    # values
    src, out = Source(old), Source(new)
    arr = {n: out.data[n] for n in added}
    like = arr[added[0]]
    for name in added:
        if arr[name].dims != like.dims:
            rep.violate(case, 'dimensions of %s' % name, arr[name].dims,
                        like.dims)
            return
    need = ['lat', 'lt'] + [c for _, cs, _ in vects for c in cs if c] + [
        n for n, _ in scalars]
    for name in need:
        if not set(src.data[name].dims) <= set(like.dims):
            rep.violate(case, 'dimensions', like.dims, src.data[name].dims)
            return
    get = {n: src.over(n, like) for n in set(need)}
    tdim = like.dims.index(src.time)
    index = [t.to_pydatetime() for t in inst.index]
    chosen = {i: choose(t) for i, t in enumerate(index)}
    vals = {n: arr[n].values for n in added}
    rep.outcome((like.dims, [len(chosen[i]) for i in sorted(chosen)],
                 int(np.isfinite(vals[added[0]]).sum())))
    for idx in np.ndindex(*like.shape):
        rep.step(1, 'samples')
        lat, lt = get['lat'](idx), get['lt'](idx)
        refs = chosen[idx[tdim]]
        usable = lat == lat and ref.sign(lat) == hemi and refs
        if not usable:
            for name in added:
                g = vals[name][idx]
                if g == g:
                    rep.violate(dict(case, at=idx), 'unusable sample: ' + name,
                                g, NAN)
                    return
            continue
        why = None
        for bounds in refs:
            why = sample(rep, {n: float(vals[n][idx]) for n in added},
                         {n: f(idx) for n, f in get.items()}, bounds, vects,
                         scalars, vnames, bname, locate and locate(
                             idx, idx[tdim]))
            if why is None:
                break
        if why is not None:
            rep.violate(dict(case, at=idx, sample={
                n: f(idx) for n, f in get.items()}), why[0], *why[1:])
            return


def sample(rep, got, val, bounds, vects, scalars, vnames, bname, loc=None):
    """One sample -> None or what is wrong"""
    lat, lt = val['lat'], val['lt']
    if loc is not None:
        lat, lt = loc
    margin, single = 1.0, bounds
    if isinstance(bounds, ref.Dual):
        olat, olt, _, corr, _, margin = bounds.normal(lat, lt)
        single = bounds.ob
    else:
        olat, olt, corr = bounds.normal(lat, lt)
    tol = 1.0e-6
    if margin > 1.0e-5 and not close(got['lat_' + bname], olat, tol):
        return 'lat_' + bname, got['lat_' + bname], olat
    if olat == olat and not gen.close_mlt(got['lt_' + bname], olt, 1.0e-5) \
       and 90.0 - abs(olat) > 1.0e-3:
        return 'lt_' + bname, got['lt_' + bname], olt
    if olat != olat:
        if margin == 1.0 and got['lt_' + bname] == got['lt_' + bname]:
            return 'lt_' + bname, got['lt_' + bname], olt
        corr = NAN
    if corr == corr and not close(got['r_corr_' + bname], corr, tol):
        return 'r_corr_' + bname, got['r_corr_' + bname], corr
    rref = 90.0 - abs(single.blat)
    for name, power in scalars:
        want = val[name] * ((single.r + corr) / rref)**power
        if corr != corr and val[name] == val[name]:
            continue
        if not close(got['%s_%s' % (name, bname)], want, tol):
            return '%s_%s' % (name, bname), got['%s_%s' % (name, bname)], want
    if corr != corr:
        return None
    plt, plat = single.phi / 15.0 % 24.0, 90.0 - single.rc
    la = abs(lat)
    xx = (90.0 - la) * math.cos(ref.ang(lt)) - single.xc
    yy = (90.0 - la) * math.sin(ref.ang(lt)) - single.yc
    far = math.hypot(xx, yy) > 0.3 and la < 89.7
    for name, comps, power in vects:
        n, e, z = [0.0 if c is None else val[c] for c in comps]
        fac = ((single.r + corr) / rref)**power
        names = vnames[name]
        mag = math.sqrt(n * n + e * e + z * z) * fac
        want = {'unscaled_r': single.r + corr, 'scaled_r': rref, 'mag': mag}
        if mag == mag:
            want['z'] = z * fac
        elif n != n or e != e:
            want.update({'n': NAN, 'e': NAN})
        else:
            want['z'] = NAN
        bad = None
        if mag == mag and far:
            if single.hemi > 0:
                wn, we, _, _ = sphere(lt, la, n, e, plt, plat)
            else:
                wn, we, _, _ = sphere(lt, -la, -n, -e, plt, -plat)
                fn, fe, _, _ = sphere(lt, -la, n, e, plt, plat)
                bad = (float(fn) * fac, float(fe) * fac)
            want.update({'n': float(wn) * fac, 'e': float(we) * fac})
        size = max(1.0, 0.0 if mag != mag else mag)
        for key, w in want.items():
            g = got[names[key]]
            if w != w:
                if key == 'mag' or not g == g:
                    if key == 'mag' and g == g:
                        return names[key], g, w
                    continue
                return names[key], g, w
            if abs(g - w) <= 1.0e-5 * size:
                continue
            if bad is not None and key in 'ne' and abs(
                    got[names['n']] - bad[0]) <= 1e-5 * size and abs(
                        got[names['e']] - bad[1]) <= 1e-5 * size:
                rep.know('southern-vectors', 'horizontal components of '
                         'southern vectors are relative to the mirror image '
                         'of the boundary pole')
                continue
            return names[key], g, w
    return None


def same_meta(one, two):
    for key in two:
        a, b = one[key], two[key]
        if not (a == b or (a != a and b != b)):
            return False
    return True


def snapshot(inst):
    keys = [k for k in inst.meta.keys() if k in inst.variables]
    return (inst.data.copy(deep=True),
            {k: dict(inst.meta[k]) for k in keys})


BNAME = {'dual': 'dualb', 'eab': 'eab'}


def rewind(kind, obj, start=-1):
    for k in (['ocb', 'eab'] if kind == 'dual' else []):
        getattr(obj, k).rec_ind = -1
    obj.rec_ind = start


def run(rep, case, data, kw, kind, hemi, choose, obj, tol, locate=None,
        **more):
    inst = instrument(data)
    before = snapshot(inst)
    ocb_pysat.add_ocb_to_data(inst, 'lat', 'lt', ocb=obj, max_sdiff=tol,
                              **copy.deepcopy({k: v for k, v in kw.items()
                                               if k != 'vector_names'}),
                              **{k: kw[k] for k in kw if k == 'vector_names'},
                              **more)
    compare(rep, case, inst, before, kw, BNAME.get(kind, 'ocb'), hemi, choose,
            locate)


def layouts(params, rep):
    lay, kind, hemi = params['lay'], params['kind'], params['hemi']
    times, good = [0, 60, 120], [True] * 3
    obj, bounds, _ = make(kind, params['corr'], hemi, 74.0, times, good)
    count = 0
    for sizes in params['sizes']:
        for qname in params['quant']:
            kw = QUANT[qname]
            data = make_data(lay, [t + 3 for t in times], sizes, hemi)
            rewind(kind, obj)
            count += 1
            case = {'func': 'layouts', 'layout': lay, 'kind': kind,
                    'hemi': hemi, 'sizes': sizes, 'quant': qname}
            run(rep, case, data, kw, kind, hemi, chooser(
                times, good, bounds, 30), obj, 30,
                hemisphere=[0, hemi][count % 2])
            rep.state((lay, kind, hemi, tuple(sizes.items()), qname))
    rep.trace({'layout': lay, 'kind': kind, 'hemi': hemi}, count)


def patterns(params, rep):
    """Usable, other-hemisphere and undefined locations in every pattern"""
    lay, kind, hemi = params['lay'], params['kind'], params['hemi']
    times, good = [0, 60], [True] * 2
    obj, bounds, _ = make(kind, 'default', hemi, 74.0, times, good)
    sizes = params['sizes']
    count = 0
    base = make_data(lay, times, sizes, hemi)
    shape = base['lat'].values.shape
    for pat in itertools.product([1, -1, 0], repeat=params['cells']):
        data = base.copy(deep=True)
        lat = data['lat'].values.copy().ravel()
        for i, p in enumerate(pat):
            j = params['at'] + i
            lat[j] = {1: lat[j], -1: -lat[j], 0: NAN}[p]
        if lay == 'pandas':
            data['lat'] = lat
        else:
            data['lat'] = (data['lat'].dims, lat.reshape(shape))
        rewind(kind, obj)
        count += 1
        qname = params['quant'][count % len(params['quant'])]
        case = {'func': 'patterns', 'layout': lay, 'kind': kind, 'hemi': hemi,
                'pattern': pat, 'quant': qname}
        run(rep, case, data, QUANT[qname], kind, hemi, chooser(
            times, good, bounds, 10), obj, 10, hemisphere=hemi)
        rep.state((lay, kind, hemi, pat))
    rep.trace({k: params[k] for k in ('lay', 'kind', 'hemi', 'sizes')}, count)


def undefined(params, rep):
    """Undefined values in every subset of the variables"""
    lay, kind, hemi = params['lay'], params['kind'], params['hemi']
    times, good = [0, 60, 120], [True] * 3
    obj, bounds, _ = make(kind, 'default', hemi, 74.0, times, good)
    names = ['lt', 'ev', 'cv', 'vn', 've', 'vz']
    base = make_data(lay, times, params['sizes'], hemi)
    count = 0
    for mask in range(2**len(names)):
        data = base.copy(deep=True)
        for i, name in enumerate(names):
            if mask >> i & 1:
                vals = data[name].values.astype(float).copy()
                flat = vals.ravel()
                flat[[1, min(3 + i % 2, flat.size - 1)]] = NAN
                if lay == 'pandas':
                    data[name] = flat
                else:
                    data[name] = (data[name].dims, flat.reshape(vals.shape))
        for qname in params['quant']:
            rewind(kind, obj)
            count += 1
            case = {'func': 'undefined', 'layout': lay, 'kind': kind,
                    'hemi': hemi, 'nan': [n for i, n in enumerate(names)
                                          if mask >> i & 1], 'quant': qname}
            run(rep, case, data.copy(deep=True), QUANT[qname], kind, hemi,
                chooser(times, good, bounds, 10), obj, 10, hemisphere=hemi)
            rep.state((lay, kind, hemi, mask, qname))
    rep.trace({'layout': lay, 'kind': kind, 'hemi': hemi}, count)


def timeline(params, rep):
    grid, tols, times = params['grid'], params['tols'], params['times']
    kind, hemi, lay = params['kind'], params['hemi'], params['lay']
    num = 0
    for goodness in itertools.product([True, False], repeat=len(times)):
        if kind == 'dual' and not any(goodness):
            continue
        obj, bounds, _ = make(kind, 'default', hemi, 74.0, times, goodness)
        for mask in range(1, 2**len(grid)):
            num += 1
            secs = [t for i, t in enumerate(grid) if mask >> i & 1]
            for k, tol in enumerate(tols):
                if (num + k) % params['thin']:
                    continue
                start = -1
                if num % 2 and any(goodness):
                    start = 0 if kind == 'dual' else goodness.index(True)
                rewind(kind, obj, start)
                qname = ['none', 'vect', 'ev'][num % 3]
                data = make_data(lay, secs, {'x': 2, 'L': 2, 'O': 1}, hemi)
                case = {'func': 'timeline', 'kind': kind, 'hemi': hemi,
                        'layout': lay, 'bounds': times, 'good': goodness,
                        'data': secs, 'tol': tol, 'start': start}
                run(rep, case, data, QUANT[qname], kind, hemi, chooser(
                    times, goodness, bounds, tol), obj, tol,
                    hemisphere=[0, hemi][num % 2])
                rep.state((goodness, mask, tol, kind, hemi, lay))
    rep.trace({k: params[k] for k in ('kind', 'hemi', 'lay', 'times')}, num)


def values(params, rep):
    kind, hemi, name, blat = (params[k] for k in ('kind', 'hemi', 'name',
                                                  'blat'))
    times, good = [0, 60, 120, 180], [True] * 4
    for lay in params['lays']:
        for qname in ('vect', 'horiz', 'many', 'both'):
            obj, bounds, _ = make(kind, name, hemi, blat, times, good)
            data = make_data(lay, [t + 4 for t in times],
                             {'x': 3, 'L': 3, 'O': 2, 'y': 2}, hemi)
            case = {'func': 'values', 'kind': kind, 'hemi': hemi,
                    'corr': name, 'blat': blat, 'layout': lay,
                    'quant': qname}
            run(rep, case, data, QUANT[qname], kind, hemi, chooser(
                times, good, bounds, 29), obj, 29)
            rep.state((kind, hemi, name, blat, lay, qname))
    rep.trace({'kind': kind, 'hemi': hemi, 'corr': name}, None)


def heights(params, rep):
    """Geographic locations with a height for every sample"""
    lay, kind, hemi, coord = (params[k] for k in ('lay', 'kind', 'hemi',
                                                  'coord'))
    times, good = [0, 60, 120], [True] * 3
    obj, bounds, _ = make(kind, 'default', hemi, 74.0, times, good)
    for form, (how, hdims) in enumerate(params['forms']):
        data = make_data(lay, times, {'x': 2, 'L': 2, 'O': 3, 'y': 2, 'z': 2,
                                      'A': 2}, hemi,
                         None if how in ('scalar', 'array') else hdims)
        more = {}
        src = Source(data)
        if how == 'named':
            more['height_name'] = 'hgt'
            hvar = src.data['hgt']
        elif how == 'scalar':
            more['height'] = 180.0
            hvar = xr.DataArray(180.0)
        else:
            hvar = src.data['ev']
            vals = 130.0 + 31.0 * np.arange(hvar.size).reshape(hvar.shape)
            hvar = xr.DataArray(vals, dims=hvar.dims)
            more['height'] = vals
        qname = ['ev', 'both'][form % 2]
        inst = instrument(data)
        before = snapshot(inst)
        rewind(kind, obj)
        ocb_pysat.add_ocb_to_data(inst, 'lat', 'lt', ocb=obj, max_sdiff=10,
                                  loc_coord=coord, **QUANT[qname], **more)
        out = Source(inst.data).data['lat_' + BNAME.get(kind, 'ocb')]
        lat, lt = src.over('lat', out), src.over('lt', out)
        hpos = [out.dims.index(d) for d in hvar.dims]

        def locate(idx, itime):
            hgt = float(hvar.values[tuple(idx[p] for p in hpos)])
            la, lo = lat(idx), lt(idx)
            key = (la, lo, hgt, itime)
            if key not in cache:
                cache[key] = magnetic(la, lo, hgt, T0 + dt.timedelta(
                    seconds=60 * itime), coord)
            return cache[key]
        cache = {}
        case = {'func': 'heights', 'layout': lay, 'kind': kind, 'hemi': hemi,
                'coord': coord, 'how': how, 'dims': hdims, 'quant': qname}
        compare(rep, case, inst, before, QUANT[qname],
                BNAME.get(kind, 'ocb'), hemi, chooser(times, good, bounds,
                                                      10), locate)
        rep.state((lay, kind, hemi, coord, how, hdims))
    rep.trace({k: params[k] for k in ('lay', 'kind', 'hemi', 'coord')}, None)


def magnetic(lat, slt, hgt, time, coord):
    """Magnetic equivalent of a geographic location given by local time"""
    import aacgmv2
    uth = time.hour + time.minute / 60.0 + (
        time.second + time.microsecond * 1e-6) / 3600.0
    lon = (slt - uth) * 15.0 % 360.0
    if lon > 180.0:
        lon -= 360.0
    code = 'ALLOWTRACE|G2A' + ('|GEOCENTRIC' if coord == 'geocentric' else '')
    mlat, mlon, _ = aacgmv2.convert_latlon(lat, lon, hgt, time, code)
    mlt = aacgmv2.convert_mlt(mlon, time, m2a=False)
    return float(np.ravel(mlat)[0]), float(np.ravel(mlt)[0])


def requests(params, rep):
    """Ways of choosing the boundary, refused requests"""
    hemi, lay = params['hemi'], params['lay']
    times, good = [0, 60, 120], [True] * 3
    data = make_data(lay, times, {'x': 2, 'L': 2, 'O': 2}, hemi)
    here = gen.jobdir()
    files = {}
    for kind, fname in (('image', 'my_ocb_file'), ('eab', 'my_EAB_file'),
                        ('dual', None)):
        if fname:
            inst = 'image'
            _, bounds, _ = make(kind, 'default', hemi, 74.0, times, good)
            shape = [(b.r, b.phi, b.rc) for b in bounds]
            path = gen.write(inst, [gen.rec(t, r, phi=p, rc=c) for t, (
                r, p, c) in zip(times, shape)], os.path.join(here, fname))
            defaults = {'image': 74.0, 'eab': 64.0}[kind]
            files[kind] = (path, [ref.Bound(r, p, c, hemi, defaults)
                                  for r, p, c in shape])
    cases = []
    for kind in ('image', 'eab'):
        path, bounds = files[kind]
        for auto in (hemi, 0):
            cases.append((kind, {'ocbfile': path, 'instrument': 'image',
                                 'hemisphere': auto}, bounds))
    obounds = files['image'][1]
    wide = [gen.rec(t, 33.0 + i, phi=20.0 * i, rc=1.0)
            for i, t in enumerate(times)]
    wpath = gen.write('image', wide, os.path.join(here, 'wide'))
    duals = [ref.Dual(b, ref.Bound(33.0 + i, 20.0 * i, 1.0, hemi, 64.0))
             for i, b in enumerate(obounds)]
    for auto in (hemi, 0):
        cases.append(('dual', {
            'ocbfile': 'dual', 'instrument': 'image', 'hemisphere': auto,
            'ocb_filename': files['image'][0], 'eab_filename': wpath}, duals))
        cases.append(('dual', {
            'ocbfile': 'Dual', 'hemisphere': auto, 'ocb_instrument': 'image',
            'ocb_filename': files['image'][0], 'eab_filename': wpath,
            'eab_instrument': 'image', 'max_delta': 5}, duals))
    for kind, kw, bounds in cases:
        for qname in ('none', 'vect', 'both'):
            # corrections of the files are those of the instrument
            case = {'func': 'requests', 'kind': kind, 'hemi': hemi,
                    'layout': lay, 'quant': qname, 'auto': kw['hemisphere'],
                    'file': os.path.basename(kw['ocbfile'])}
            given = dict(kw)
            run(rep, case, data.copy(deep=True), QUANT[qname], kind, hemi,
                chooser(times, good, bounds, 60), None, 60, **kw)
            rep.state(('requests', kind, hemi, lay, qname, kw['hemisphere']))
            if given != kw:
                rep.violate(case, 'keywords changed', kw, given)
    # criteria
    obj, bounds, _ = make('image', 'default', hemi, 74.0, times, good)
    for crit, keep in (({'r': ('max', 12.0)}, None),
                       ({'min_merit': 100.0}, [False] * 3),
                       ({'max_merit': 100.0}, [True] * 3)):
        if keep is None:
            keep = [b.r < 12.0 for b in bounds]
        rewind('image', obj)
        case = {'func': 'requests', 'kind': 'criteria', 'hemi': hemi,
                'layout': lay, 'criteria': sorted(crit)}
        run(rep, case, data.copy(deep=True), QUANT['vect'], 'image', hemi,
            chooser(times, keep, bounds, 60), obj, 60, **crit)
        rep.state(('requests', 'criteria', str(sorted(crit)), hemi, lay))
    # no boundaries: nothing is added
    late = gen.write('image', [gen.rec(9.0e6, 15.0)],
                     os.path.join(here, 'late_ocb'))
    for kw in ({'ocbfile': late, 'instrument': 'image'},
               {'ocbfile': os.path.join(here, 'absent_ocb'),
                'instrument': 'image'}):
        refuse(rep, {'func': 'requests', 'kind': 'nothing', 'hemi': hemi,
                     'layout': lay, 'file': os.path.basename(
                         kw['ocbfile'])}, data, dict(kw, hemisphere=hemi),
               None)
    # refused requests leave the data as they were
    mixed = data.copy(deep=True)
    if lay == 'pandas':
        mixed.loc[mixed.index[1], 'lat'] *= -1.0
    elif 'lat' in mixed.coords:
        mixed = mixed.assign_coords(lat=mixed['lat'] * np.array([1.0, -1.0]))
    else:
        vals = mixed['lat'].values.copy()
        vals.flat[1] *= -1.0
        mixed['lat'] = (mixed['lat'].dims, vals)
    path = files['image'][0]
    for dat, kw in (
            (mixed, {'ocbfile': path, 'instrument': 'image'}),
            (data, {'mlat_name': 'unknown', 'ocb': obj}),
            (data, {'mlt_name': 'unknown', 'ocb': obj}),
            (data, {'evar_names': ['unknown'], 'ocb': obj}),
            (data, {'curl_evar_names': ['unknown', 'ev'], 'ocb': obj}),
            (data, {'vector_names': {'v': {'vect_n': 'unknown',
                                           'scale_func': None}},
                    'ocb': obj}),
            (data, {'vector_names': {'v': {'vect_n': 'vn',
                                           'vect_e': 've'}}, 'ocb': obj}),
            (data, {'ocbfile': os.path.join(here, 'late'),
                    'instrument': 'image', 'hemisphere': hemi}),
            (data, {'ocbfile': None, 'hemisphere': hemi}),
            (data, {'height': np.ones((7, 11)), 'ocb': obj,
                    'loc_coord': 'geodetic'})):
        refuse(rep, {'func': 'requests', 'kind': 'refused', 'hemi': hemi,
                     'layout': lay, 'keywords': sorted(kw)}, dat, kw,
               ValueError)
    for wrong in (None, data, 'inst'):
        rep.step(1, 'refused')
        try:
            ocb_pysat.add_ocb_to_data(wrong, 'lat', 'lt', ocb=obj)
            rep.violate({'func': 'requests'}, 'not an instrument')
        except ValueError:
            pass
    rep.trace({'hemi': hemi, 'lay': lay}, None)


def refuse(rep, case, data, kw, error):
    inst = instrument(data.copy(deep=True))
    before = snapshot(inst)
    names = [n for n in inst.meta.keys()]
    kw = dict({'mlat_name': 'lat', 'mlt_name': 'lt'}, **kw)
    rep.step(1, 'refused')
    rep.state(str(case))
    try:
        ocb_pysat.add_ocb_to_data(inst, **kw)
        if error is not None:
            rep.violate(case, 'no error')
    except ValueError as exc:
        if error is None:
            rep.violate(case, 'error', repr(exc))
    same = (inst.data.equals(before[0]) if isinstance(data, pd.DataFrame)
            else inst.data.identical(before[0]))
    if not same or [n for n in inst.meta.keys()] != names:
        rep.violate(case, 'data or metadata changed')


def custom(params, rep):
    """As a function that pysat applies when loading"""
    hemi = params['hemi']
    for module, names in (('testing', ('latitude', 'mlt')),
                          ('ndtesting', ('latitude', 'mlt')),
                          ('testmodel', ('latitude', 'mlt'))):
        plain = gen.pysat.Instrument('pysat', module, num_samples=6,
                                     use_header=True)
        plain.load(2009, 1)
        index = [t.to_pydatetime() for t in plain.index]
        secs = [(t - T0).total_seconds() for t in index]
        for kind in ('image', 'eab', 'dual'):
            obj, bounds, _ = make(kind, 'default', hemi, 74.0, secs,
                                  [True] * len(secs))
            inst = gen.pysat.Instrument('pysat', module, num_samples=6,
                                        use_header=True)
            inst.custom_attach(ocb_pysat.add_ocb_to_data, kwargs={
                'mlat_name': names[0], 'mlt_name': names[1], 'ocb': obj,
                'evar_names': ['dummy1'], 'max_sdiff': 0})
            inst.load(2009, 1)
            rep.step(1, 'custom')
            rep.state((module, kind, hemi))
            bname = BNAME.get(kind, 'ocb')
            src, out = Source(plain.data), Source(inst.data)
            like = out.data['latitude_' + bname]
            lat, lt = (src.over(n, like) for n in names)
            ev = src.over('dummy1', like)
            tdim = like.dims.index(src.time)
            case = {'func': 'custom', 'module': module, 'kind': kind,
                    'hemi': hemi}
            glat, glt, gev = (out.data[n].values for n in (
                'latitude_' + bname, 'mlt_' + bname, 'dummy1_' + bname))
            for idx in list(np.ndindex(*like.shape))[::params['thin']]:
                bb = bounds[idx[tdim]]
                la = lat(idx)
                rep.step(1, 'samples')
                if ref.sign(la) != hemi:
                    if any(g[idx] == g[idx] for g in (glat, glt, gev)):
                        rep.violate(dict(case, at=idx), 'other hemisphere')
                        break
                    continue
                why = sample(rep, {'lat_' + bname: glat[idx],
                                   'lt_' + bname: glt[idx],
                                   'ev_' + bname: gev[idx],
                                   'r_corr_' + bname: out.data[
                                       'r_corr_' + bname].values[idx]},
                             {'lat': la, 'lt': lt(idx), 'ev': ev(idx)}, bb,
                             [], [('ev', 1)], {}, bname)
                if why is not None:
                    rep.violate(dict(case, at=idx), *why)
                    break
    rep.trace({'hemi': hemi}, None)


DAY = 86400


def jobs(tier):
    quick = tier == 'quick'
    out = []
    kinds = ['image', 'dual', 'eab', 'ampere']
    sizes = [{'x': 2, 'y': 2, 'z': 2, 'L': 2, 'O': 2, 'A': 2},
             {'x': 3, 'y': 1, 'z': 2, 'L': 3, 'O': 2, 'A': 1},
             {'x': 1, 'y': 3, 'z': 3, 'L': 1, 'O': 3, 'A': 2}]
    if not quick:
        sizes += [{'x': a, 'y': b, 'z': c, 'L': a, 'O': b, 'A': c}
                  for a, b, c in ((4, 3, 1), (3, 3, 3), (2, 5, 4))]
    for i, lay in enumerate(LAYOUTS):
        for k, kind in enumerate(kinds):
            for h, hemi in enumerate((1, -1)):
                qq = list(QUANT)
                ss = sizes
                if lay in ('pandas', 'series'):
                    ss = sizes[:1]
                elif quick:
                    ss = sizes[:2] if (k + h) % 2 else sizes[2:]
                out.append(('layouts', {
                    'lay': lay, 'kind': kind, 'hemi': hemi, 'sizes': ss,
                    'quant': qq, 'corr': ['default', 'circ'][(i + k) % 2]}))
    for lay, cells, at, size in [
            ('swath', 4, 0, {'x': 3}), ('image', 4, 0, {'x': 2, 'y': 2}),
            ('pandas', 2, 0, {}), ('series', 2, 0, {}),
            ('swathalt', 4, 0, {'x': 2, 'z': 2}),
            ('turned', 4, 0, {'x': 2}), ('latdim', 4, 0, {'x': 2})] + (
                [] if quick else [('image', 6, 1, {'x': 2, 'y': 2}),
                                  ('swath', 6, 0, {'x': 4}),
                                  ('image', 6, 4, {'x': 3, 'y': 2})]):
        for kind, hemi in (('image', 1), ('dual', -1)) if quick else (
                ('image', 1), ('dual', -1), ('eab', 1), ('image', -1)):
            out.append(('patterns', {
                'lay': lay, 'kind': kind, 'hemi': hemi, 'cells': cells,
                'at': at, 'sizes': size, 'quant': [
                    'both', 'vect', 'none', 'many']}))
    for lay in ('pandas', 'series', 'swath', 'model', 'profile'):
        for kind, hemi in (('image', 1), ('dual', -1)):
            out.append(('undefined', {
                'lay': lay, 'kind': kind, 'hemi': hemi, 'sizes': sizes[0],
                'quant': ['both', 'vect'] if quick else list(QUANT)}))
    grid = [-61, -60, 20, 59, 100, 185]
    gridt = [-61, -60, -1, 20, 59, 61, 100, 185]
    for i, (kind, hemi, lay) in enumerate([
            ('image', 1, 'pandas'), ('image', -1, 'series'),
            ('eab', 1, 'swath'), ('dual', 1, 'pandas'),
            ('dual', -1, 'model'), ('ampere', 1, 'fixed')]):
        for times in ([0, 60, 120], [0, 120, 180]) if quick else (
                [0, 60, 120], [0, 120, 180], [0, 60, 240]):
            out.append(('timeline', {
                'kind': kind, 'hemi': hemi, 'lay': lay, 'times': times,
                'grid': grid if quick else gridt, 'thin': 5 if quick else 3,
                'tols': [0, 5, 60, 39, 600]}))
    # days, months and years apart
    for kind, hemi, lay in [('image', 1, 'pandas'), ('ampere', -1, 'swath'),
                            ('dual', 1, 'model')]:
        out.append(('timeline', {
            'kind': kind, 'hemi': hemi, 'lay': lay,
            'times': [0, DAY, 31 * DAY + 60],
            'grid': [-DAY, 20, DAY - 30, DAY + 60, 2 * DAY, 31 * DAY + 100],
            'thin': 8 if quick else 2, 'tols': [60, 3600, DAY]}))
    names = ['default', 'circ', 'ell', 'harm', 'si12', 'wic', 'bump',
             'kwarray', 'array', 'harmg']
    for kind in ('image', 'ampere', 'eab', 'dual'):
        for hemi in (1, -1):
            for i, name in enumerate(names):
                out.append(('values', {
                    'kind': kind, 'hemi': hemi, 'name': name,
                    'blat': [74.0, 70.0, 78.5][i % 3],
                    'lays': [['pandas', 'swath'], ['series', 'model']][
                        i % 2] if quick else ['pandas', 'series', 'model',
                                              'swath', 'image']}))
    for lay, forms in (
            ('pandas', [('named', 't'), ('scalar', ''), ('array', '')]),
            ('series', [('named', 't'), ('scalar', ''), ('array', '')]),
            ('model', [('named', 't'), ('named', 'tLO'), ('named', 'OLt'),
                       ('named', 'L'), ('named', 'O'), ('scalar', ''),
                       ('array', '')]),
            ('modelalt', [('named', 'A'), ('named', 'AO'), ('scalar', ''),
                          ('array', '')]),
            ('swath', [('named', 't'), ('named', 'tx'), ('named', 'x'),
                       ('named', 'xt'), ('scalar', ''), ('array', '')]),
            ('profile', [('named', 'z'), ('named', 'tz'), ('scalar', ''),
                         ('array', '')])):
        for coord in ('geodetic', 'geocentric'):
            for kind, hemi in (('image', 1), ('eab', -1)) if quick else (
                    ('image', 1), ('eab', -1), ('dual', 1), ('dual', -1)):
                out.append(('heights', {'lay': lay, 'forms': forms,
                                        'coord': coord, 'kind': kind,
                                        'hemi': hemi}))
    for lay in ('pandas', 'series', 'model', 'swath'):
        for hemi in (1, -1):
            out.append(('requests', {'lay': lay, 'hemi': hemi}))
    for hemi in (1, -1):
        out.append(('custom', {'hemi': hemi, 'thin': 7 if quick else 1}))
    return out
