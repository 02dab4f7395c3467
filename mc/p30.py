"""P30: errors and interruptions at any point are reported and contained."""
import builtins
import copy
import errno
import gc
import io
import itertools
import os
import shutil
import sys

from mc import gen, p15, p16, p20, p27, p28
from mc.core import canon
from mc.gen import np, ocbpy
from ocbpy.boundaries import dmsp_ssj_files
from ocbpy.instruments import general, supermag, vort

TECHNIQUE = ('fault injection, exhaustive over the points: an input or output '
             'error at every opening, reading, writing and closing of a file '
             'that a public operation makes, and an interruption at every '
             'source line of the package that it executes; the real code '
             'runs on each')
ORACLE = ('the injected error itself; the complete output, of which the '
          'output after an error is the first part; the process and the '
          'boundary data before the operation; the same operation, not '
          'interrupted, on fresh objects')
BOUND = {'quick': '19 operations on files x every input or output event x 5 '
                  'errors x 3 states of the output file, each followed by a '
                  'repetition; 34 operations interrupted at the first visit '
                  'of every line (the pysat conversion at every eighth '
                  'line), each followed by a repetition and by every fourth '
                  'other operation, in turn',
         'thorough': 'longer files; interruptions at the first four visits '
                     'of every line (the pysat conversion: at the first of '
                     'every line), each followed by every '
                     'other operation'}
ASSUMPTIONS = ['errors of the file system appear when Python opens, reads, '
               'writes or closes a file']
JOB_CPU_LIMIT = 800
ERRORS = {'io': OSError(errno.EIO, 'Input/output error'),
          'full': OSError(errno.ENOSPC, 'No space left on device'),
          'perm': PermissionError(errno.EACCES, 'Permission denied'),
          'memory': MemoryError('injected'),
          'stop': KeyboardInterrupt('injected')}


# Faults of files ------------------------------------------------------------
class Plan(object):
    """Counts the events of files below a folder; fails at one of them."""

    def __init__(self, base, point=None, error=None):
        self.base, self.point, self.error = base, point, error
        self.events = []
        self.live = True

    def tick(self, what, path):
        if not self.live:
            return
        self.events.append([what, os.path.basename(path)])
        if self.point is not None and len(self.events) == self.point + 1:
            raise copy.copy(ERRORS[self.error])


class File(object):
    """An open file that can fail"""

    def __init__(self, real, plan, path, write):
        self.__dict__.update(_real=real, _plan=plan, _path=path, _write=write)

    def __getattr__(self, name):
        return getattr(self._real, name)

    def __setattr__(self, name, val):
        setattr(self._real, name, val)

    def read(self, *args):
        self._plan.tick('read', self._path)
        return self._real.read(*args)

    def readline(self, *args):
        self._plan.tick('read', self._path)
        return self._real.readline(*args)

    def readlines(self, *args):
        self._plan.tick('read', self._path)
        return self._real.readlines(*args)

    def __iter__(self):
        return self

    def __next__(self):
        self._plan.tick('read', self._path)
        return next(self._real)

    def write(self, text):
        self._plan.tick('write', self._path)
        return self._real.write(text)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def close(self):
        was = self._real.closed
        self._real.close()
        if self._write and not was:
            self._plan.tick('close', self._path)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    def __del__(self):
        self._real.close()


def opener(plan, real):
    def fopen(file, mode='r', *args, **kwargs):
        if not isinstance(file, (str, os.PathLike)) or not os.path.abspath(
                os.fspath(file)).startswith(plan.base):
            return real(file, mode, *args, **kwargs)
        path = os.fspath(file)
        plan.tick('open', path)
        return File(real(file, mode, *args, **kwargs), plan, path,
                    any(c in mode for c in 'wax+'))
    return fopen


class Faults(object):
    """The plan is in force within the context."""

    def __init__(self, plan):
        self.plan = plan

    def __enter__(self):
        self.keep = builtins.open, io.open
        fopen = opener(self.plan, io.open)
        builtins.open = io.open = fopen
        self.table = getattr(getattr(np.lib, '_datasource', None),
                             '_file_openers', None)
        if self.table is not None:
            self.table._load()
            self.old = self.table._file_openers[None]
            self.table._file_openers[None] = fopen
        return self.plan

    def __exit__(self, *args):
        self.plan.live = False
        builtins.open, io.open = self.keep
        if self.table is not None:
            self.table._file_openers[None] = self.old


def recs(kind, num):
    return [gen.rec(60 * i, (14.0 if kind == 'ocb' else 26.0) + i,
                    phi=40.0 * i, rc=2.0) for i in range(num)]


class Case(object):
    """An operation on files in a folder: inputs, outputs, the call"""

    def __init__(self, name, base, size):
        self.name, self.base, self.size = name, base, size
        self.inputs = []
        self.obj = None
        getattr(self, 'set_' + name.split('-')[0])(*name.split('-')[1:])

    def file(self, name):
        path = os.path.join(self.base, name)
        if name not in self.inputs:
            self.inputs.append(name)
        return path

    def out(self, name='out.txt'):
        return os.path.join(self.base, name)

    def set_load(self, inst, cls):
        path = self.file('bound.dat')
        gen.write(inst, recs(cls, self.size), path)
        build = {'ocb': ocbpy.OCBoundary, 'eab': ocbpy.EABoundary}[cls]
        self.call = lambda: plain(build(filename=path, instrument=inst))

    def set_reload(self, inst):
        """Records of another file into an object that has some"""
        one, two = self.file('one.dat'), self.file('two.dat')
        gen.write(inst, recs('ocb', 2), one)
        gen.write(inst, recs('eab', self.size), two)
        self.obj = ocbpy.OCBoundary(filename=one, instrument=inst)
        self.obj.rfunc = self.obj.rfunc_kwargs = None
        self.obj.filename = two
        hlines, cols, fmt = self.obj.inst_defaults()
        cols = {'ocb_cols': cols} if cols else {}

        def call():
            self.obj.load(hlines=hlines, datetime_fmt=fmt, **cols)
            return plain(self.obj)

        self.call = call

    def set_dual(self):
        one, two = self.file('one.ocb'), self.file('two.eab')
        gen.write('image', recs('ocb', self.size), one)
        gen.write('ampere', recs('eab', self.size), two)
        self.call = lambda: [plain(v) for v in (lambda d: (
            d.ocb, d.eab))(ocbpy.DualBoundary(
                eab_filename=two, ocb_filename=one, eab_instrument='ampere',
                ocb_instrument='image'))]

    def set_table(self, kind):
        path = self.file('table.txt')
        names, rows, kwargs = p28.TABLES[kind]
        p28.put(path, '\n'.join(' '.join(r) for r in [names] + rows).encode())
        self.call = lambda: p27.plain(general.load_ascii_data(
            path, 1, **copy.deepcopy(kwargs)))

    def data(self, conv):
        path = self.file(conv + '.in')
        if conv == 'smag':
            p15.write([p15.block(60 * i, [
                p15.station('A%d%d' % (i, j), mlat=75.0 + j, mlt=3.0 + i)
                for j in range(1 + i % 2)]) for i in range(self.size)], path)
        else:
            p16.write([p16.block(60 * i, [
                p16.entry(75.0 + j, 3.0 + i, 0.5 + i, j)
                for j in range(1 + i % 2)]) for i in range(self.size)], path,
                last=True)
        return path

    def set_smag(self):
        path = self.data('smag')
        self.call = lambda: p27.plain(
            supermag.load_supermag_ascii_data(path))

    def set_vort(self, full):
        path = self.data('vort')
        self.call = lambda: p27.plain(vort.load_vorticity_ascii_data(
            path, save_all=full == 'all'))

    def set_convert(self, conv, bound):
        path = self.data(conv)
        func = {'smag': supermag.supermag2ascii_ocb,
                'vort': vort.vort2ascii_ocb}[conv]
        if bound == 'file':
            bfile = self.file('bound.dat')
            gen.write('image', recs('ocb', self.size), bfile)
            kw = {'ocbfile': bfile, 'instrument': 'image'}
        elif bound == 'dual':
            self.obj = gen.dual('image', recs('ocb', self.size), 'image',
                                recs('eab', self.size), 1, 30, -1)
            kw = {'ocb': self.obj}
        else:
            self.obj = gen.ocb(bound, recs('ocb', self.size), 1, -1)
            kw = {'ocb': self.obj}

        def call():
            func(path, self.out(), **kw)
            with open(self.out()) as fin:
                return fin.read()

        self.call = call

    def set_format(self, num):
        files = []
        for i in range(int(num)):
            day = gen.dt.datetime(2010, 12, 30 + i)
            path = os.path.join(self.base, p20.name(day))
            p20.write(path, [p20.make_pass((1, -1)[(i + j) % 2], [
                ((1, -1)[(i + j) % 2] * 71.0, 20.0 + 40 * i + 5 * j),
                ((1, -1)[(i + j) % 2] * 70.0, 190.0)], [
                    ((1, -1)[(i + j) % 2] * 61.0, 25.0 + 40 * i),
                    ((1, -1)[(i + j) % 2] * 62.0, 180.0 - 7 * j)],
                [1000.0 + 3000 * j, 1100.0 + 3000 * j, 1500.0 + 3000 * j,
                 1600.0 + 3000 * j], 3.5 + j) for j in range(2)],
                notes=p20.NOTES[:1])
            files.append(path)
            self.inputs.append(os.path.basename(path))

        def call():
            names = p20.quiet(dmsp_ssj_files.format_ssj_boundary_files,
                              list(files))
            out = []
            for name in sorted(names):
                with open(name) as fin:
                    out.append([os.path.basename(name), fin.read()])
            return out

        self.call = call


def plain(obj):
    out = {key: val for key, val in gen.public(obj).items()
           if key not in ('rfunc', 'filename')}
    return canon(out)


FILES = ['load-image-ocb', 'load-ampere-ocb', 'load-dmsp-ssj-eab',
         'load-image-eab', 'reload-image', 'reload-ampere', 'dual',
         'table-num', 'table-text', 'table-time', 'smag', 'vort-all',
         'vort-some', 'convert-smag-image', 'convert-smag-dual',
         'convert-smag-file', 'convert-vort-image', 'convert-vort-dual',
         'convert-vort-file', 'format-1', 'format-2']


def folder(base):
    out = {}
    for name in sorted(os.listdir(base)):
        with io.open(os.path.join(base, name), 'rb') as fin:
            out[name] = fin.read()
    return out


def inert(obj):
    """The part of the boundaries that no conversion changes"""
    if obj is None:
        return None
    parts = [obj.ocb, obj.eab] if hasattr(obj, 'ocb') else [obj]
    return canon([[getattr(one, key, None) for key in (
        'records', 'dtime', 'phi_cent', 'r_cent', 'r', 'fom', 'hemisphere',
        'boundary_lat', 'filename', 'instrument', 'rfunc_kwargs')]
        for one in parts])


def case_of(name, base, size):
    if name.startswith('load-dmsp'):
        out = Case.__new__(Case)
        out.name, out.base, out.size = name, base, size
        out.inputs, out.obj = [], None
        out.set_load('dmsp-ssj', 'eab')
        return out
    return Case(name, base, size)


def faults(params, rep):
    name, error, size = params
    base = os.path.join(gen.scratch(), 'io')
    shutil.rmtree(base, ignore_errors=True)
    os.mkdir(base)

    def fresh(old):
        for item in os.listdir(base):
            os.remove(os.path.join(base, item))
        out = case_of(name, base, size)
        for item in outputs:
            if old is not None:
                p28.put(os.path.join(base, item), old)
        return out

    outputs = []
    # the events and the result without an error
    one = fresh(None)
    before = set(os.listdir(base))
    with Faults(Plan(base)) as plan:
        want = one.call()
    events = plan.events
    whole = folder(base)
    outputs = sorted(set(whole) - before)
    if not events:
        rep.violate([name], 'no events', events)
    outer = p28.world()
    for point, old in itertools.product(range(len(events)), (
            (None, b'', b'earlier result\n' * 400) if outputs else (None,))):
        one = fresh(old)
        start = folder(base)
        seen = inert(one.obj)
        case = [name, error, size, point, events[point], None if old is None
                else len(old)]
        rep.state(case)
        rep.step(1, events[point][0])
        got, exc = None, None
        try:
            with Faults(Plan(base, point, error)):
                one.call()
        except BaseException as err:
            exc = err
            got = type(err).__name__
        chain = exc
        while chain is not None and str(chain) != str(ERRORS[error]):
            chain = chain.__cause__ or chain.__context__
        rep.trace(case, got)
        # the last event reads the result for the comparison
        if exc is None:
            rep.violate(case, 'error not reported')
        elif chain is None:
            rep.violate(case, 'another error', repr(exc),
                        repr(ERRORS[error]))
        elif error == 'stop' and not isinstance(exc, KeyboardInterrupt):
            rep.violate(case, 'interruption caught', repr(exc))
        exc = chain = None
        if p28.world()['files'] != outer['files']:
            gc.collect()
        p28.unchanged(rep, case, outer)
        after = folder(base)
        for item in set(after) | set(start):
            if item in one.inputs:
                if after.get(item) != start[item]:
                    rep.violate(case, 'input file changed', item)
            elif item not in outputs:
                rep.violate(case, 'another file', item, outputs)
            elif after.get(item) == start.get(item):
                continue
            elif item not in after or not whole[item].startswith(
                    after[item]):
                rep.violate(case, 'output file', after.get(item),
                            whole[item])
        if inert(one.obj) != seen:
            rep.violate(case, 'boundary data changed', *p28.apart(
                inert(one.obj), seen))
        # again, in the folder as it is now
        rep.step(1, 'repeat')
        two = case_of(name, base, size)
        try:
            have = two.call()
        except Exception as err:
            have = repr(err)
        if have != want or {k: v for k, v in folder(base).items()
                            if k in outputs} != {
                                k: whole[k] for k in outputs}:
            rep.violate(case, 'repetition', have, want)
    shutil.rmtree(base)


# Interruptions --------------------------------------------------------------
class Stop(BaseException):
    pass


class Cutter(p27.Nested):
    """Raise at one of the line events of a call."""

    def line(self, frame, event, arg):
        if event == 'line':
            key = (frame.f_code, frame.f_lineno)
            num = self.seen.get(key, 0)
            if num < self.visits:
                self.seen[key] = num + 1
                self.count += 1
                if self.count == self.point + 1:
                    self.where = [os.path.basename(frame.f_code.co_filename),
                                  frame.f_code.co_name]
                    raise Stop('injected')
        return self.line


def bounds(objs):
    return canon([inert(obj) for obj in objs
                  if hasattr(obj, 'rec_ind') and hasattr(obj, 'records')])


def stops(params, rep):
    num, part, parts, visits, every = params
    name, make, run = p27.OPS[num]
    want, count = p27.alone(num, 0, visits)
    slow = 8 if name in p27.SLOW and visits == 1 and every > 1 else 1
    outer = p28.world()
    for point in range(part, count, parts):
        step = point // parts
        if step % slow:
            continue
        step //= slow
        if (num, 0) not in p27._proto:
            p27.prepare(num, 0)
        objs = [obj.copy() if isinstance(obj, gen.pysat.Instrument)
                else copy.deepcopy(obj) for obj in p27._proto[(num, 0)]]
        kept = list(objs)
        seen = bounds(kept)
        cut = Cutter(visits, point, [])
        case = [name, point]
        rep.state(case)
        rep.step(1, 'interruption')
        got = 'nothing'
        try:
            cut.run(lambda: run(objs, 0))
        except Stop:
            got = 'Stop'
        except BaseException as exc:
            got = type(exc).__name__
        sys.settrace(None)
        if not hasattr(cut, 'where'):
            # the comparison of the objects has executed the line
            continue
        rep.trace(case + cut.where, got)
        if got != 'Stop':
            rep.violate(case + cut.where,
                        'interruption not reported', got)
        if p28.world()['files'] != outer['files']:
            gc.collect()
        p28.unchanged(rep, case, outer)
        if bounds(kept) != seen:
            rep.violate(case, 'boundary data changed', *p28.apart(
                bounds(kept), seen))
        later = [(num, 0)] + [
            (k, 1) for k in range(len(p27.OPS)) if k % every == step % every
            and (p27.OPS[k][0] not in p27.SLOW or step % 40 == 0)]
        for k, side in later:
            rep.step(1, 'later')
            diff = p27.differ(p27.prepare(k, side)(),
                              p27.alone(k, side, visits if k == num and
                                        side == 0 else 1)[0])
            if diff is not None:
                rep.violate(case + [p27.OPS[k][0], side],
                            'later operation', *diff)
                break
        if rep.nviol > 5:
            return


def jobs(tier):
    quick = tier == 'quick'
    out = []
    for name, error in itertools.product(FILES, ERRORS):
        out.append(('faults', [name, error, 3 if quick else 6]))
    for num, op in enumerate(p27.OPS):
        parts = p27.LONG.get(op[0], 1)
        if not quick:
            parts *= 4
        for part in range(parts):
            slow = op[0] in p27.SLOW
            out.append(('stops', [num, part, parts,
                                  1 if quick or slow else 4,
                                  4 if quick else 1]))
    return out
