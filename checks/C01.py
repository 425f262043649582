"""C01: a run depends on its input and configuration only, not on what was processed before or alongside."""
import gc
import hashlib
import itertools
import os
import shutil

from vlib import core, l1a, pipeline, scen

LEVEL = 'model_checking'

CONFIGS = {
    'plain': dict(cnf={}, l1bs=True),
    'exact+focus': dict(cnf={'flag_azimuth_processing_method_cnf': 'exact', 'flag_surface_focusing_cnf': True,
                             'surface_focusing_lat_cnf': 10.16, 'surface_focusing_lon_cnf': 20.03,
                             'flag_azimuth_windowing_method_cnf': 'hamming'}, l1bs=True),
    's3': dict(cnf={'output_format_flag_cnf': 'sentinel-3', 'N_looks_stack_cnf': 4, 'zp_fact_range_cnf': 1,
                    'flag_antenna_weighting_cnf': True},
               chd={'antenna_angles_chd': [-0.03 + i * 0.06 / 249 for i in range(250)],
                    'antenna_weights_chd': [0.2 + 0.003 * i for i in range(250)]}, l1bs=False),
}


# one parameter after the other
WEIGHTS = [0.2 + 0.003 * i for i in range(250)]
VARIED = {
    'cnf': {'flag_cal2_correction_cnf': False, 'flag_cal2_table_index_cnf': 0, 'flag_cal1_corrections_cnf': False,
            'flag_surface_focusing_cnf': True, 'flag_azimuth_processing_method_cnf': 'exact',
            'flag_azimuth_windowing_method_cnf': 'hanning', 'azimuth_window_width_cnf': 6,
            'flag_doppler_range_correction_cnf': False, 'flag_slant_range_correction_cnf': False,
            'flag_window_delay_alignment_method_cnf': 1, 'flag_stack_masking_cnf': False,
            'flag_avoid_zeros_in_multilooking_cnf': False, 'flag_surface_weighting_cnf': False,
            'flag_antenna_weighting_cnf': False, 'zp_fact_range_cnf': 3, 'N_looks_stack_cnf': 4,
            'output_format_flag_cnf': 'sentinel-3', 'min_lat_cnf': 10.02, 'max_lat_cnf': 10.15},
    'chd': {'freq_ku_chd': 13.0e9, 'bw_ku_chd': 3.5e8, 'pulse_length_chd': 3.0e-5, 'prf_sar_chd': 18182.0,
            'brf_sar_chd': 3.4, 'uso_freq_nom_chd': 1.1e7, 'alt_freq_multiplier_chd': 40, 'power_tx_ant_ku_chd': 1.0,
            'antenna_gain_ku_chd': 30.0, 'ptr_width_chd': 4.1e-3, 'ratio_trc_ku_chd': 12.25, 'mean_sat_alt_chd': 7e5,
            'N_ku_pulses_burst_chd': 10, 'N_samples_sar_chd': 16, 'antenna_weights_chd': WEIGHTS[::-1],
            'look_angle_mask_min_chd': -0.1, 'look_angle_mask_max_chd': 0.1},
    'cst': {'c_cst': 299792000.0, 'earth_radius_cst': 5.9e6, 'semi_major_axis_cst': 6378200.0,
            'flat_coeff_cst': 0.0034},
}
VARIANTS = [(k, n) for k in sorted(VARIED) for n in sorted(VARIED[k])]


def varied(variant):
    """a run with one parameter changed (none for None)"""
    conf = {'cnf': {'flag_azimuth_windowing_method_cnf': 'hamming', 'flag_antenna_weighting_cnf': True,
                    'surface_focusing_lat_cnf': 10.08, 'surface_focusing_lon_cnf': 20.0143},
            'chd': {'antenna_angles_chd': [-0.03 + i * 0.06 / 249 for i in range(250)], 'antenna_weights_chd': WEIGHTS,
                    'brf_sar_chd': 3.6, 'look_angle_mask_min_chd': -5.0, 'look_angle_mask_max_chd': 5.0}, 'cst': {}}
    if variant is not None:
        conf[variant[0]][variant[1]] = VARIED[variant[0]][variant[1]]
    kw = dict(ns=conf['chd'].get('N_samples_sar_chd', l1a.NS), npulse=conf['chd'].get('N_ku_pulses_burst_chd', l1a.NP))
    bursts = scen.drained(l1a.orbit(11, brf=3.6, **kw), brf=3.6, **kw)
    return pipeline.run(bursts, conf['cnf'], conf['chd'], conf['cst'], **kw)


def inputs(d):
    """the input files: two usable passes of different length and place, one too short, one that is not a L1A file"""
    files = {}
    a = l1a.orbit(9) + l1a.shift_time(l1a.orbit(5, tag=1), 100.0)
    b = l1a.orbit(6, tag=2, lat0=-20.0, lon0=170.0, heading=-60.0, t0=7000.0) + \
        l1a.shift_time(l1a.orbit(8, tag=3, lat0=10.1, lon0=20.02, t0=7000.0), 50.0)
    files['A'] = l1a.write_l1a(os.path.join(d, 'L1A_a.nc'), a)
    files['B'] = l1a.write_l1a(os.path.join(d, 'L1A_b.nc'), b)
    files['short'] = l1a.write_l1a(os.path.join(d, 'L1A_short.nc'), l1a.orbit(12, tag=4))
    bad = os.path.join(d, 'L1A_bad.nc')
    with open(bad, 'wb') as fp:
        fp.write(b'this is not a netCDF file\n' * 20)
    files['bad'] = bad
    files['missing'] = os.path.join(d, 'L1A_missing.nc')
    return files


def make_monitor(kind, at):
    from dedop.util.monitor import Monitor

    class Mon(Monitor):
        polls = steps = 0

        def start(self, label, total_work=None):
            pass

        def done(self):
            pass

        def child(self, work):
            return Monitor.NULL

        def progress(self, work=None, msg=None):
            self.steps += 1
            if kind == 'raise' and self.steps == at:
                raise ValueError('stop here')

        def is_cancelled(self):
            self.polls += 1
            return kind == 'cancel' and self.polls >= at

    return Mon()


# what can happen to a processor before the run that is looked at
EVENTS = ['A', 'B', 'short', 'bad', 'missing', 'A/cancel/4', 'A/cancel/12', 'A/cancel/17', 'B/cancel/9',
          'A/raise/3', 'A/raise/11', 'B/raise/14']


def do(proc, files, ev):
    name, *how = ev.split('/')
    mon = make_monitor(how[0], int(how[1])) if how else None
    try:
        pipeline.call(proc, files[name], mon)
        return 'ok'
    except Exception as err:
        return type(err).__name__


def build(d, conf):
    c = CONFIGS[conf]
    return pipeline.make_processor(d, c.get('cnf'), c.get('chd'), None, c['l1bs'])


def products(d, files, ev, conf):
    r = pipeline.Result()
    r.l1b, r.l1bs = pipeline.read_products(d, files[ev], CONFIGS[conf]['l1bs'])
    return r


def globals_of(r):
    return {k: str(v) for k, v in r.l1b.globals.items() if k not in ('creation_time',)}


def baseline(item):
    pipeline.fast_fit()
    conf, ev = item
    part = core.Part()
    with core.scratch('c01') as d:
        files = inputs(d)
        proc = build(d, conf)
        out = do(proc, files, ev)
        part['key'] = item
        if out != 'ok':
            part.violation('a fresh processor (%s) fails on %s: %s' % (conf, ev, out))
            return part
        part['product'] = products(d, files, ev, conf)
    return part


def base_varied(variant):
    pipeline.fast_fit()
    part = core.Part()
    part['key'] = variant
    r = varied(variant)
    if r.error is not None:
        part.violation('a run with %s fails: %s' % (variant, r.error))
    else:
        part['product'] = r
    return part


BASE = {}


def case(item):
    pipeline.fast_fit()
    kind = item[0]
    part = core.Part()
    with core.scratch('c01') as d:
        files = inputs(d)
        if kind == 'seq':
            _, conf, seq = item
            proc = build(d, conf)
            outs = []
            for ev in seq[:-1]:
                outs.append(do(proc, files, ev))
                part.count(states=1, transitions=1)
            last = seq[-1]
            before = hashlib.sha1(open(files[last], 'rb').read()).hexdigest()
            out = do(proc, files, last)
            part.count(states=1, transitions=1, evaluations=1, traces=1)
            label = 'configuration %s, history %s (%s), then %s' % (conf, list(seq[:-1]), outs, last)
            part.nontriv(label)
            if out != 'ok':
                part.violation('%s: fails with %s' % (label, out), item)
                return part
            got = products(d, files, last, conf)
            want = BASE[conf, last]
            for x in scen.same_products(got, want):
                part.violation('%s: %s from the product of a fresh processor' % (label, x), item)
            if globals_of(got) != globals_of(want):
                part.violation('%s: global attributes differ from those of a fresh processor' % label, item)
            if hashlib.sha1(open(files[last], 'rb').read()).hexdigest() != before:
                part.violation('%s: the input file has been changed' % label, item)
            part.sample('%s -> %d records as expected' % (label, got.l1b.n))
        elif kind == 'vary':
            for at, variant in enumerate(item[1]):
                r = varied(variant)
                part.count(states=1, transitions=1)
                label = 'after runs with %s: the run with %s' % (item[1][:at], variant)
                if r.error is not None:
                    part.violation('%s fails: %s' % (label, r.error), item)
                    break
                for x in scen.same_products(r, BASE[variant]):
                    part.violation('%s: %s from the product of the first run of a process' % (label, x), item)
            part.count(evaluations=1, traces=1)
            part.nontriv(item)
        elif kind == 'replace':
            # the files of configuration and input are rewritten in place before every run
            _, seq = item
            path = os.path.join(d, 'L1A_same.nc')
            label = 'one after the other, same file names: %s' % (seq,)
            part.nontriv(label)
            part.count(evaluations=1, traces=1)
            for conf, ev in seq:
                part.count(states=1, transitions=1)
                shutil.copyfile(files[ev], path)
                proc = build(d, conf)
                out = do(proc, {ev: path}, ev)
                del proc
                gc.collect()
                if out != 'ok':
                    part.violation('%s: the run of %s with %s fails: %s' % (label, ev, conf, out), item)
                    break
                got = pipeline.Result()
                got.l1b, got.l1bs = pipeline.read_products(d, path, CONFIGS[conf]['l1bs'])
                for x in scen.same_products(got, BASE[conf, ev]):
                    part.violation('%s: the run of %s with %s: %s from the product of a lone processor' % (
                        label, ev, conf, x), item)
        else:
            _, c1, c2, order = item
            dirs = {1: os.path.join(d, 'p1'), 2: os.path.join(d, 'p2')}
            for x in dirs.values():
                os.makedirs(x)
            confs = {1: c1, 2: c2}
            procs = {}
            label = 'processors %s and %s, order %s' % (c1, c2, order)
            runs = []
            for step in order:
                who = int(step[1])
                part.count(states=1, transitions=1)
                if step[0] == 'c':
                    procs[who] = build(dirs[who], confs[who])
                else:
                    ev = step[2]
                    out = do(procs[who], files, ev)
                    if out != 'ok':
                        part.violation('%s: run %s fails with %s' % (label, step, out), item)
                        return part
                    runs.append((who, ev))
                    got = products(dirs[who], files, ev, confs[who])
                    for x in scen.same_products(got, BASE[confs[who], ev]):
                        part.violation('%s: run %s: %s from the product of a lone processor' % (label, step, x), item)
            part.count(evaluations=1, traces=1)
            part.nontriv(label)
    return part


def interleavings(a, b):
    if not a or not b:
        yield tuple(a) + tuple(b)
        return
    for rest in interleavings(a[1:], b):
        yield (a[0],) + rest
    for rest in interleavings(a, b[1:]):
        yield (b[0],) + rest


def run(ctx):
    pipeline.fast_fit()
    import dedop.proc.sar  # noqa: F401  (import once, then every item runs in a process of its own)
    keys = [(c, e) for c in CONFIGS for e in ('A', 'B')]
    for part in core.pmap(ctx, baseline, keys, fresh=True):
        if 'product' in part:
            BASE[part['key']] = part['product']
    if ctx.violations:
        return
    for part in core.pmap(ctx, base_varied, [None] + VARIANTS, fresh=True):
        if 'product' in part:
            BASE[part['key']] = part['product']
    if ctx.violations:
        return
    alike = [v for v in VARIANTS if scen.same_products(BASE[v], BASE[None]) == []]
    ctx.notes.append('one parameter changed: %d parameters, no effect of %s' % (len(VARIANTS), alike))
    depth = 3 if ctx.thorough else 2
    items = [('vary', (None, v, None)) for v in VARIANTS]
    if ctx.thorough:
        items += [('vary', (a, b)) for a, b in itertools.permutations(VARIANTS, 2)]
    for conf in CONFIGS:
        for k in range(0, depth):
            events = EVENTS if k < 2 or ctx.thorough else EVENTS
            for pre in itertools.product(events, repeat=k):
                for last in ('A', 'B'):
                    items.append(('seq', conf, pre + (last,)))
    if not ctx.thorough:
        # histories of two runs before the last one
        few = ['A', 'B', 'short', 'A/cancel/12', 'B/raise/14']
        for conf in ('plain', 'exact+focus'):
            for pre in itertools.product(few, repeat=2):
                items.append(('seq', conf, pre + ('A' if pre[-1][0] == 'B' else 'B',)))
    for c1, c2 in itertools.permutations(CONFIGS, 2):
        for order in interleavings(('c1', 'r1A'), ('c2', 'r2A')):
            items.append(('par', c1, c2, order))
    for order in interleavings(('c1', 'r1A', 'r1B'), ('c2', 'r2B', 'r2A')):
        items.append(('par', 'plain', 'exact+focus', order))
    for seq in itertools.product(keys, repeat=3 if ctx.thorough else 2):
        items.append(('replace', seq))
    items.append(('replace', tuple(keys * 2)))
    items.append(('replace', tuple(keys[::-1] + keys)))
    ctx.space_note('rewritten files', 'every sequence of %d runs over configuration x input with the same file names' % (
        3 if ctx.thorough else 2))
    ctx.space_note('events before the run', EVENTS)
    ctx.space_note('length of the history', '0..%d' % (2 if not ctx.thorough else 2))
    ctx.space_note('two processors', 'every interleaving of construction and runs, every pair of configurations')
    core.pmap(ctx, case, items, fresh=True)
