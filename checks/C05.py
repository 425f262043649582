"""C05: cancelled or failed runs leave closed, readable products that are a prefix of the complete ones."""
import os
import sys

import netCDF4 as nc

from vlib import core, l1a, pipeline, scen

LEVEL = 'fault_enumeration'


def passes():
    return {
        'gap': (l1a.orbit(9) + l1a.shift_time(l1a.orbit(6, tag=1), 100.0), {}),
        'three': (l1a.orbit(5) + l1a.shift_time(l1a.orbit(7, tag=1), 50.0) + l1a.shift_time(l1a.orbit(4, tag=2), 99.0),
                  {'output_format_flag_cnf': 'sentinel-3'}),
        'long': (l1a.orbit(100), {}),
        'focus': (l1a.orbit(9) + l1a.shift_time(l1a.orbit(6, tag=1), 100.0),
                  {'flag_surface_focusing_cnf': True, 'surface_focusing_lat_cnf': 10.1,
                   'surface_focusing_lon_cnf': 20.02}),
    }


class Stop(Exception):
    pass


def make_monitor(kind, at):
    from dedop.util.monitor import Monitor

    class Mon(Monitor):
        def __init__(self):
            self.polls = self.steps = self.started = self.finished = 0
            self.steps_after = None
            self.cancelled = kind == 'cancel' and at == 0

        def start(self, label, total_work=None):
            self.started += 1

        def done(self):
            self.finished += 1

        def progress(self, work=None, msg=None):
            self.steps += 1
            if kind == 'raise' and self.steps == at:
                raise Stop('injected')

        def is_cancelled(self):
            self.polls += 1
            if kind == 'poll-raise' and self.polls == at:
                raise Stop('injected')
            if kind == 'cancel' and self.polls >= at:
                if self.steps_after is None:
                    self.steps_after = self.steps
                return True
            return False

    return Mon()


def open_files(d):
    out = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            target = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            continue
        if target.startswith(d + os.sep):
            out.append(os.path.basename(target))
    return out


def one(d, name, l1bs, kind, at, cnf_extra=None):
    bursts, cnf = passes()[name]
    path = l1a.write_l1a(os.path.join(d, 'L1A_x.nc'), bursts)
    proc = pipeline.make_processor(d, dict(cnf, **(cnf_extra or {})), None, None, l1bs)
    mon = make_monitor(kind, at)
    err = None
    try:
        pipeline.call(proc, path, mon)
    except Exception as e:
        err = e
        core.raised_by_code_under_test(e)
        e.__traceback__ = None
    # the processor object stays alive: closing must not be left to the garbage collector
    return proc, mon, err, path


FULL = {}


def full(item):
    pipeline.fast_fit()
    name, l1bs = item
    part = core.Part()
    with core.scratch('c05') as d:
        proc, mon, err, path = one(d, name, l1bs, 'none', 0)
        if err is not None:
            part.violation('%s: fails: %r' % (name, err))
            return part
        pb, ps = pipeline.read_products(d, path, l1bs)
        part['key'] = item
        part['full'] = (scen.records(pb), scen.records(ps) if ps else None, mon.polls, mon.steps)
        if open_files(d):
            part.violation('%s: files are still open after the run: %s' % (name, open_files(d)))
        if mon.started != mon.finished:
            part.violation('%s: monitor started %d times, finished %d times' % (name, mon.started, mon.finished))
    return part


def case(item):
    pipeline.fast_fit()
    name, l1bs, kind, at = item
    part = core.Part()
    part['key'] = item
    label = 'pass %s (%s L1BS), %s at %d' % (name, 'with' if l1bs else 'no', kind, at)
    with core.scratch('c05') as d:
        proc, mon, err, path = one(d, name, l1bs, kind, at)
        part.count(evaluations=1, states=1, transitions=mon.polls)
        left = open_files(d)
        if left:
            part.violation('%s: files are still open after the run: %s' % (label, sorted(left)), item)
        if mon.started != mon.finished:
            part.violation('%s: monitor started %d times, finished %d times' % (label, mon.started, mon.finished),
                           item)
        if kind != 'cancel':
            if not isinstance(err, Stop) and not isinstance(getattr(err, '__cause__', None), Stop) and \
                    not isinstance(getattr(err, '__context__', None), Stop):
                part.violation('%s: the failure is not reported (%r)' % (label, err), item)
        elif err is not None:
            part.violation('%s: cancellation fails with %s: %s' % (label, type(err).__name__, err), item)
        pb, ps = pipeline.names(path)
        fb, fs, polls, steps = FULL[name, l1bs]
        n = None
        for file_name, want in ((pb, fb), (ps, fs)):
            if want is None:
                continue
            p = os.path.join(d, 'out', file_name)
            if not os.path.exists(p):
                part.violation('%s: product %s is missing' % (label, file_name), item)
                continue
            try:
                got = scen.records(pipeline.Product(p))
            except (OSError, RuntimeError) as e:
                part.violation('%s: product %s cannot be read: %s' % (label, file_name, e), item)
                continue
            if got != want[:len(got)]:
                part.violation('%s: the %d records of %s are not the first records of the complete product' % (
                    label, len(got), file_name), item)
            if n is not None and n != len(got):
                part.violation('%s: %d L1B records, but %d L1BS records' % (label, n, len(got)), item)
            n = len(got)
        part['n'] = n
        if kind == 'cancel' and mon.steps_after is not None and mon.steps > mon.steps_after + 4:
            part.violation('%s: goes on after the cancellation (%d more progress reports)' % (
                label, mon.steps - mon.steps_after), item)
        if n:
            part.nontriv((name, l1bs, n, len(fb)))
        part.sample('%s -> %s of %d records, %s' % (label, n, len(fb), err))
    return part


# failures of the surroundings: (what, configuration, preparation of the folder -> the input file or None, whether the
# processing has begun when it fails)
def no_variables(d, path):
    out = os.path.join(d, 'L1A_y.nc')
    with nc.Dataset(path) as a, nc.Dataset(out, 'w') as b:
        for n, x in a.dimensions.items():
            b.createDimension(n, x.size)
        for n, v in list(a.variables.items())[1:]:
            b.createVariable(n, v.dtype, v.dimensions)
    return out


def no_netcdf(d, path):
    out = os.path.join(d, 'L1A_z.nc')
    with open(out, 'w') as fp:
        fp.write('this is no product')
    return out


def in_the_way(kind):
    def prepare(d, path):
        if kind == 'out':
            with open(os.path.join(d, 'out'), 'w') as fp:
                fp.write('a file where the folder should be')
        else:
            os.makedirs(os.path.join(d, 'out', pipeline.names(path)[kind]))
    return prepare


BROKEN = {
    'calibration table': ({'flag_cal2_table_index_cnf': 9}, None),
    'antenna tables missing': ({'flag_antenna_weighting_cnf': True}, None),
    'region without records': ({'min_lat_cnf': 85.0}, None),
    'region that is no number': ({'min_lat_cnf': 'north'}, None),
    'input without a variable': ({}, no_variables),
    'input that is no netCDF file': ({}, no_netcdf),
    'input that is not there': ({}, lambda d, path: os.path.join(d, 'L1A_none.nc')),
    'a folder where the L1B product should be': ({}, in_the_way(0)),
    'a folder where the L1BS product should be': ({}, in_the_way(1)),
    'a file where the output folder should be': ({}, in_the_way('out')),
}


def broken(item):
    """failures of the configuration, the input and the output folder"""
    pipeline.fast_fit()
    what, l1bs = item
    part = core.Part()
    extra, prepare = BROKEN[what]
    with core.scratch('c05') as d:
        bursts, cnf = passes()['gap']
        path = l1a.write_l1a(os.path.join(d, 'L1A_x.nc'), bursts)
        path = prepare and prepare(d, path) or path
        proc = pipeline.make_processor(d, dict(cnf, **extra), None, None, l1bs)
        mon = make_monitor('none', 0)
        err = None
        try:
            pipeline.call(proc, path, mon)
        except Exception as e:      # kept with its traceback: the files must have been closed, not collected
            err = e
        part.count(evaluations=1, states=1)
        if err is None and not ('L1BS' in what and not l1bs):
            part.violation('failure (%s): no error is reported' % what)
        left = open_files(d)
        if left:
            part.violation('failure (%s): files are still open after the run: %s' % (what, sorted(left)))
        if mon.started != mon.finished:
            part.violation('failure (%s): monitor started %d times, finished %d times' % (
                what, mon.started, mon.finished))
        out = os.path.join(d, 'out')
        for n in os.listdir(out) if os.path.isdir(out) else ():
            if os.path.isfile(os.path.join(out, n)):
                try:
                    with nc.Dataset(os.path.join(out, n)) as ds:
                        for v in ds.variables.values():
                            v[:]
                except (OSError, RuntimeError) as e:
                    part.violation('failure (%s): product %s cannot be read: %s' % (what, n, e))
    return part


# ---- failures inside of the processing ---------------------------------------------------------------------------
INSIDE = ('dedop/proc/sar/algorithms/', 'dedop/proc/sar/cal/', 'dedop/proc/geo/', 'dedop/proc/functions/',
          'dedop/model/', 'dedop/data/')


class Halt(BaseException):
    pass


def cleaning(frame):
    """in a constructor, or while files are being closed"""
    while frame is not None:
        n = frame.f_code.co_name
        if n == '__init__' and frame.f_code.co_filename.startswith(core.REPO) or 'close' in n or 'exit' in n:
            return True
        frame = frame.f_back
    return False


def tracer(note):
    """calls note(function, frame) at the entry of every function of the processing"""
    folders = tuple(os.path.join(core.REPO, p) for p in INSIDE)
    names, alive = {}, []

    def trace(frame, event, arg):
        code = frame.f_code
        key = names.get(id(code))
        if key is None:
            file = code.co_filename
            alive.append(code)
            key = names[id(code)] = '%s:%s' % (os.path.relpath(file, core.REPO), code.co_name) \
                if file.startswith(folders) and not code.co_name.startswith('<') else ''
        if key:
            note(key, frame)
        return None

    return trace


def traced(d, name, l1bs, note):
    bursts, cnf = passes()[name]
    path = l1a.write_l1a(os.path.join(d, 'L1A_x.nc'), bursts)
    proc = pipeline.make_processor(d, dict(cnf), None, None, l1bs)
    mon = make_monitor('none', 0)
    err = None
    sys.settrace(tracer(note))
    try:
        pipeline.call(proc, path, mon)
    except (Exception, Halt) as e:
        err = e
    finally:
        sys.settrace(None)
    return proc, mon, err, path


def calls(item):
    pipeline.fast_fit()
    name, l1bs = item
    part = core.Part()
    counts = {}

    def note(key, frame):
        counts[key] = counts.get(key, 0) + 1

    with core.scratch('c05') as d:
        traced(d, name, l1bs, note)
    part['key'], part['calls'] = item, counts
    return part


def inside(item):
    pipeline.fast_fit()
    name, l1bs, key, nth, kind = item
    part = core.Part()
    label = 'pass %s (%s L1BS), %s at call %d of %s' % (name, 'with' if l1bs else 'no', kind.__name__, nth, key)
    seen = {'n': 0, 'writing': False, 'done': False}

    def note(k, frame):
        if k == key and not seen['done']:
            seen['n'] += 1
            if seen['n'] >= nth and not cleaning(frame):
                seen['done'] = True
                f = frame
                while f is not None:
                    if '/data/output/' in f.f_code.co_filename:
                        seen['writing'] = True
                    f = f.f_back
                raise kind('injected')

    with core.scratch('c05') as d:
        proc, mon, err, path = traced(d, name, l1bs, note)
        part.count(evaluations=1, states=1, transitions=1)
        if not seen['done']:
            return part
        chain, e = [], err
        while e is not None:
            chain.append(e)
            e = e.__cause__ or e.__context__
        if not any(isinstance(e, kind) for e in chain):
            part.violation('%s: the failure is not reported (%r)' % (label, err))
        left = open_files(d)
        if left:
            part.violation('%s: files are still open after the run: %s' % (label, sorted(left)))
        if mon.started != mon.finished:
            part.violation('%s: monitor started %d times, finished %d times' % (label, mon.started, mon.finished))
        counts = []
        for file_name, want in zip(pipeline.names(path), FULL[name, l1bs]):
            p = os.path.join(d, 'out', file_name)
            if want is None or not os.path.exists(p):
                continue
            try:
                prod = pipeline.Product(p)
                got = scen.records(prod)
            except (OSError, RuntimeError) as e:
                part.violation('%s: product %s cannot be read: %s' % (label, file_name, e))
                continue
            except KeyError:
                # the failure came before the variables were made
                continue
            counts.append(len(got))
            # a record that was being written may be incomplete
            whole = got[:-1] if seen['writing'] else got
            if whole != want[:len(whole)]:
                part.violation('%s: the %d records of %s are not the first records of the complete product' % (
                    label, len(got), file_name))
        if len(counts) == 2 and abs(counts[0] - counts[1]) > (1 if seen['writing'] else 0):
            part.violation('%s: %d L1B records, but %d L1BS records' % (label, counts[0], counts[1]))
        part.nontriv((key, nth, kind.__name__))
    return part


def run(ctx):
    import dedop.proc.sar  # noqa: F401
    ctx.rule = ('one execution per fault point: cancellation visible at the k-th poll, exception out of the k-th '
                'progress report or poll, for every k of the run; non-trivial: at least one record was written')
    names = ['gap', 'three'] + (['focus'] if ctx.thorough else [])
    keys = [(n, b) for n in names + ['long'] for b in (True, False)]
    for part in core.pmap(ctx, full, keys):
        if 'full' in part:
            FULL[part['key']] = part['full']
    if ctx.violations:
        return
    items = []
    for name in names:
        for l1bs in (True, False):
            _, _, polls, steps = FULL[name, l1bs]
            items += [(name, l1bs, 'cancel', k) for k in range(1, polls + 1)]
            items += [(name, l1bs, 'raise', k) for k in range(1, steps + 1)]
            if l1bs:
                items += [(name, l1bs, 'poll-raise', k) for k in range(1, polls + 1)]
    _, _, polls, steps = FULL['long', True]
    step = 1 if ctx.thorough else 7
    items += [('long', True, 'cancel', k) for k in range(1, polls + 1, step)]
    items += [('long', True, 'raise', k) for k in range(1, steps + 1, step)]
    ctx.space_note('fault points', 'every poll and every progress report of the runs %s; every %d. of the long run' % (
        names, step))
    parts = core.pmap(ctx, case, items)
    core.pmap(ctx, broken, [(w, b) for w in BROKEN for b in (True, False)], chunksize=1)
    points = []
    for p in core.pmap(ctx, calls, [(n, b) for n in names for b in (True, False)]):
        for key, n in sorted(p.get('calls', {}).items()):
            some = sorted({1, 2, 3, n // 2, n - 1, n} & set(range(1, n + 1))) if ctx.thorough else sorted({1, n})
            if p['key'] == ('gap', True) or ctx.thorough:
                points += [p['key'] + (key, k, kind) for k in some
                           for kind in ((Stop, Halt) if ctx.thorough or k > 1 and k == n else (Stop,))]
    core.pmap(ctx, inside, points)
    ctx.space_note('failures inside', 'an exception out of the first and the last call (thorough: of six calls) of each of %d '
                                      'functions of the processing' % len({p[2] for p in points}))
    # later cancellation never yields fewer records
    last = {}
    for p in parts:
        if 'n' in p and p['n'] is not None:
            name, l1bs, kind, at = p['key']
            k = (name, l1bs, kind)
            if k in last and p['n'] < last[k]:
                ctx.violation('%s at %d leaves fewer records (%d) than an earlier one (%d)' % (kind, at, p['n'],
                                                                                             last[k]))
            last[k] = p['n']
