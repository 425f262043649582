"""C16: the parameters of a run are those of its three parameter files, for every file and every history of loading."""
import gc
import itertools
import json
import math
import os
import warnings

import numpy as np

from vlib import core, l1a, pipeline, scen

LEVEL = 'model_checking'

# kind of file -> (name in the file, name of the attribute, kind of value)
PARAMS = {
    'CST': [(n + '_cst', n, 'float') for n in ('c', 'pi', 'semi_major_axis', 'semi_minor_axis', 'earth_radius',
                                               'flat_coeff', 'sec_in_day')],
    'CHD': [('mean_sat_alt_chd', 'mean_sat_alt', 'float'), ('N_samples_sar_chd', 'n_samples_sar', 'int'),
            ('N_ku_pulses_burst_chd', 'n_ku_pulses_burst', 'int'), ('freq_ku_chd', 'freq_ku', 'float'),
            ('pulse_length_chd', 'pulse_length', 'float'), ('bw_ku_chd', 'bw_ku', 'float'),
            ('power_tx_ant_ku_chd', 'power_tx_ant_ku', 'float'), ('antenna_gain_ku_chd', 'antenna_gain_ku', 'float'),
            ('uso_freq_nom_chd', 'uso_freq_nom', 'float'),
            ('alt_freq_multiplier_chd', 'alt_freq_multiplier', 'float'), ('prf_sar_chd', 'prf_sar', 'float'),
            ('brf_sar_chd', 'brf_sar', 'float'), ('antenna_weights_chd', 'antenna_weights', 'array'),
            ('antenna_angles_chd', 'antenna_angles', 'array'),
            ('antenna_angles_spacing_chd', 'antenna_angles_spacing', 'float'),
            ('look_angle_mask_min_chd', 'look_angle_mask_min', 'optional angle'),
            ('look_angle_mask_max_chd', 'look_angle_mask_max', 'optional angle'),
            ('ptr_width_chd', 'ptr_width', 'float'), ('fft_step_freq_ku_chd', 'fft_step_freq_ku', 'float'),
            ('ratio_trc_ku_chd', 'ratio_trc_ku', 'float')],
    'CNF': [('flag_cal2_correction_cnf', 'flag_cal2_correction', 'flag'),
            ('flag_uso_correction_cnf', 'flag_uso_correction', 'flag'),
            ('flag_cal2_table_index_cnf', 'flag_cal2_table_index', 'int'),
            ('flag_cal1_corrections_cnf', 'flag_cal1_corrections', 'flag'),
            ('flag_cal1_intraburst_corrections_cnf', 'flag_cal1_intraburst_corrections', 'flag'),
            ('flag_surface_focusing_cnf', 'flag_surface_focusing', 'flag'),
            ('surface_focusing_lat_cnf', 'surface_focusing_lat', 'angle'),
            ('surface_focusing_lon_cnf', 'surface_focusing_lon', 'angle'),
            ('surface_focusing_alt_cnf', 'surface_focusing_alt', 'float'),
            ('flag_azimuth_processing_method_cnf', 'flag_azimuth_processing_method', ('approx', 'exact')),
            ('flag_postphase_azimuth_processing_cnf', 'flag_postphase_azimuth_processing', 'flag'),
            ('flag_azimuth_windowing_method_cnf', 'flag_azimuth_windowing_method',
             ('none', 'boxcar', 'hanning', 'hamming')),
            ('azimuth_window_width_cnf', 'azimuth_window_width', 'int'),
            ('flag_doppler_range_correction_cnf', 'flag_doppler_range_correction', 'flag'),
            ('flag_slant_range_correction_cnf', 'flag_slant_range_correction', 'flag'),
            ('flag_window_delay_alignment_method_cnf', 'flag_window_delay_alignment_method', 'int'),
            ('flag_stack_masking_cnf', 'flag_stack_masking', 'flag'),
            ('flag_avoid_zeros_in_multilooking_cnf', 'flag_avoid_zeros_in_multilooking', 'flag'),
            ('flag_surface_weighting_cnf', 'flag_surface_weighting', 'flag'),
            ('flag_antenna_weighting_cnf', 'flag_antenna_weighting', 'flag'),
            ('zp_fact_range_cnf', 'zp_fact_range', 'int'), ('N_looks_stack_cnf', 'n_looks_stack', 'int'),
            ('min_lat_cnf', 'min_lat', 'optional'), ('max_lat_cnf', 'max_lat', 'optional'),
            ('min_lon_cnf', 'min_lon', 'optional'), ('max_lon_cnf', 'max_lon', 'optional'),
            ('output_format_flag_cnf', 'output_format', ('extended', 'sentinel-3', None))],
}
VERSION = {'CST': 0, 'CHD': 1, 'CNF': 3}
BASE = {'CST': l1a.CST, 'CHD': l1a.CHD, 'CNF': l1a.CNF}
VALUES = {'float': (0.0, 1, -2.5, 3e10, 1e-9), 'int': (0, 1, 2, 7, 64), 'flag': (True, False, 1, 0),
          'angle': (0.0, 90, -45.5, 180.0, 33.0), 'optional angle': (0.0, 0.6, -0.6, 20),
          'optional': (0.0, 90, -45.5, 359.5), 'array': (0, 1, 2)}
ABSENT = '<absent>'


def array(k):
    return [float(k * 1000 + i) for i in range(250)]


def base(kind):
    vals = dict(BASE[kind])
    if kind == 'CHD':
        vals.update(antenna_weights_chd=array(3), antenna_angles_chd=array(5), antenna_angles_spacing_chd=0.1)
    return vals


def expected(kind_of_value, value):
    if value is None or isinstance(value, str) and value == ABSENT:
        if kind_of_value in ('optional', 'optional angle'):
            return None
        if isinstance(kind_of_value, tuple) and None in kind_of_value:
            return 'extended'
        return ABSENT
    if kind_of_value in ('angle', 'optional angle'):
        return math.radians(value)
    return value


def write(path, kind, values, version='current', unknown=None):
    doc = {}
    if version is not None:
        doc['__metainf__'] = {'version': VERSION[kind] if version == 'current' else version, 'changelog': []}
    for k, v in values.items():
        if v != ABSENT:
            doc[k] = {'value': v, 'units': 'x', 'description': k}
    if unknown:
        doc[unknown] = {'value': 17, 'units': '', 'description': ''}
    with open(path, 'w') as fp:
        json.dump(doc, fp)
    return path


def load(kind, path, cst=None, **kw):
    from dedop.conf import CharacterisationFile, ConfigurationFile, ConstantsFile
    if kind == 'CST':
        return ConstantsFile(path, **kw)
    if kind == 'CNF':
        return ConfigurationFile(path, **kw)
    return CharacterisationFile(cst if cst is not None else ConstantsFile(**l1a.CST), path, **kw)


def same(got, want, kv):
    if kv == 'array':
        return isinstance(got, np.ndarray) and got.shape == (250,) and np.array_equal(got, want)
    if isinstance(kv, tuple):
        return getattr(got, 'value', got) == want
    if want is None or got is None:
        return want is None and got is None
    if kv in ('angle', 'optional angle'):
        return abs(got - want) <= 1e-15 + 1e-15 * abs(want)
    return got == want


def inspect(part, label, obj, kind, values, times=1):
    """every parameter of a loaded file against the values that were written"""
    from dedop.conf.auxiliary_errors import MissingParameterError
    for _ in range(times):
        for name, attr, kv in PARAMS[kind]:
            v = values.get(name, ABSENT)
            want = expected(kv, v)
            try:
                got = getattr(obj, attr)
            except MissingParameterError as err:
                if want != ABSENT:
                    part.violation('%s: %s is reported missing' % (label, name))
                elif name not in str(err):
                    part.violation('%s: message does not name %s: %s' % (label, name, err))
                continue
            if want == ABSENT:
                part.violation('%s: %s is missing but gave %r' % (label, name, got))
            elif not same(got, want, kv):
                part.violation('%s: %s = %r, expected %r' % (label, name, got, want))
    part.count(evaluations=1)


def single(item):
    """one parameter at one value (or absent), all others at their base"""
    kind, name, value = item
    part = core.Part()
    vals = base(kind)
    kv = {n: k for n, _, k in PARAMS[kind]}[name]
    vals[name] = array(value) if kv == 'array' and value != ABSENT else value
    label = '%s with %s = %s' % (kind, name, value)
    with core.scratch('c16') as d:
        path = write(os.path.join(d, 'x.json'), kind, vals)
        before = open(path).read()
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter('always')
            obj = load(kind, path)
        if rec:
            part.violation('%s: warning %s' % (label, rec[0].message))
        if open(path).read() != before:
            part.violation('%s: the file was changed' % label)
        inspect(part, label, obj, kind, vals, 2)
        # values given in the program override the file, whatever the order of reading
        if value != ABSENT:
            other = dict(base(kind))
            p2 = write(os.path.join(d, 'y.json'), kind, other)
            obj2 = load(kind, p2, **{name: vals[name]})
            inspect(part, label + ' (as argument)', obj2, kind, dict(other, **{name: vals[name]}))
            inspect(part, label + ' (again)', obj, kind, vals)
    part.count(states=1, traces=1)
    part.nontriv(label)
    return part


def invalid(item):
    kind, name, value = item
    part = core.Part()
    attr = {n: a for n, a, _ in PARAMS[kind]}[name]
    with core.scratch('c16') as d:
        obj = load(kind, write(os.path.join(d, 'x.json'), kind, dict(base(kind), **{name: value})))
        for _ in range(2):
            try:
                got = getattr(obj, attr)
            except (TypeError, ValueError):
                continue
            part.violation('%s: %s = %r is accepted as %r' % (kind, name, value, got))
    part.count(states=1, traces=1, evaluations=1)
    return part


def version(item):
    kind, ver, where = item
    from dedop.conf.auxiliary_errors import IncompatibleAuxiliaryFileError
    part = core.Part()
    label = '%s file of version %s, current %d (%s)' % (kind, ver, VERSION[kind], where)
    with core.scratch('c16') as d:
        ok = ver == VERSION[kind]
        err = None
        try:
            if where == 'file':
                obj = load(kind, write(os.path.join(d, 'x.json'), kind, base(kind), ver))
                inspect(part, label, obj, kind, base(kind))
            else:
                paths = {}
                for k in VERSION:
                    paths[k] = write(os.path.join(d, k + '.json'), k, base(k), ver if k == kind else 'current')
                from dedop.proc.sar import L1BProcessor
                with core.quiet():
                    src = os.path.join(d, 'L1A_x.nc')
                    l1a.write_l1a(src, l1a.orbit(3) + l1a.shift_time(l1a.orbit(5), 1000.0))
                    p = L1BProcessor('t', paths['CNF'], paths['CST'], paths['CHD'], os.path.join(d, 'out'))
                    p.process(src)
        except IncompatibleAuxiliaryFileError as e:
            err = e
        if (err is None) != ok:
            part.violation('%s: %s' % (label, 'accepted' if err is None else 'refused: %s' % err))
        elif err is not None and (kind not in str(err) or 'upgrade' not in str(err)):
            part.violation('%s: message does not say what to do: %s' % (label, err))
        if err is not None and os.path.isdir(os.path.join(d, 'out')) and os.listdir(os.path.join(d, 'out')):
            part.violation('%s: products were written: %s' % (label, os.listdir(os.path.join(d, 'out'))))
    part.count(states=1, traces=1, evaluations=1)
    part.nontriv(label)
    return part


def bare(item):
    """an entry without a value is no value; objects made without a file, before and after, know nothing of each other"""
    kind, name = item
    part = core.Part()
    attr, kv = {n: (x, k) for n, x, k in PARAMS[kind]}[name]
    from dedop.conf import CharacterisationFile, ConfigurationFile, ConstantsFile
    with core.scratch('c16') as d:
        path = write(os.path.join(d, 'x.json'), kind, base(kind))
        doc = json.load(open(path))
        doc[name] = {'units': 'x', 'description': name}
        with open(path, 'w') as fp:
            json.dump(doc, fp)
        try:
            got = getattr(load(kind, path), attr)
        except Exception:
            pass
        else:
            if 'optional' not in kv and not (isinstance(kv, tuple) and None in kv):
                part.violation('%s: %s has no value in the file, but gave %r' % (kind, name, got))

        def make(**kw):
            if kind == 'CST':
                return ConstantsFile(**kw)
            if kind == 'CNF':
                return ConfigurationFile(**kw)
            return CharacterisationFile(ConstantsFile(**l1a.CST), **kw)

        full = base(kind)
        less = {k: v for k, v in full.items() if k != name}
        a, b, c = make(**full), make(**less), load(kind, write(os.path.join(d, 'y.json'), kind, less))
        for _ in range(2):
            inspect(part, '%s with everything' % kind, a, kind, full)
            inspect(part, '%s made without %s' % (kind, name), b, kind, less)
            inspect(part, '%s loaded without %s' % (kind, name), c, kind, less)
    part.count(states=1, traces=1)
    part.nontriv('bare %s %s' % (kind, name))
    return part


def unknown(item):
    kind, name, at = item
    part = core.Part()
    with core.scratch('c16') as d:
        vals = base(kind)
        path = write(os.path.join(d, 'x.json'), kind, vals, unknown=name)
        if at == 'first':
            doc = json.load(open(path))
            with open(path, 'w') as fp:
                json.dump(dict([(name, doc[name])] + list(doc.items())), fp)
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter('always')
            obj = load(kind, path)
        if not any(name in str(w.message) for w in rec):
            part.violation('%s: the unknown parameter %s is not reported (%s)' % (kind, name, [str(w.message) for w in rec]))
        inspect(part, '%s with unknown %s' % (kind, name), obj, kind, vals)
    part.count(states=1, traces=1)
    return part


def shipped(item):
    """the configurations that come with the program can be read completely"""
    folder, = item
    part = core.Part()
    src = os.path.join(core.REPO, 'dedop', 'ui', 'data', folder)
    cst = load('CST', os.path.join(src, 'CST.json'))
    for kind in VERSION:
        path = os.path.join(src, kind + '.json')
        with open(path) as fp:
            doc = json.load(fp)
        vals = {k: v['value'] for k, v in doc.items() if k != '__metainf__'}
        with warnings.catch_warnings(record=True):
            warnings.simplefilter('always')
            obj = load(kind, path, cst)
        label = 'shipped %s/%s' % (folder, kind)
        inspect(part, label, obj, kind, vals)
        for name, attr, kv in PARAMS[kind]:
            # (antenna tables are only needed for antenna weighting, which is off)
            if expected(kv, vals.get(name, ABSENT)) == ABSENT and 'antenna' not in name:
                part.violation('%s has no value for %s' % (label, name))
    part.count(states=3, traces=1)
    return part


def operational(item):
    """processing with a configuration that comes with the program, at the full size of the instrument"""
    folder, n, orb = item
    pipeline.fast_fit()
    part = core.Part()
    vals = {}
    for kind in VERSION:
        with open(os.path.join(core.REPO, 'dedop', 'ui', 'data', folder, kind + '.json')) as fp:
            vals[kind] = {k: v['value'] for k, v in json.load(fp).items() if k != '__metainf__'}
    chd = vals['CHD']
    l1a.NCAL2 = 3
    kw = dict(npulse=chd['N_ku_pulses_burst_chd'], ns=chd['N_samples_sar_chd'], brf=chd['brf_sar_chd'], **orb)
    bursts = scen.drained(l1a.orbit(n, **kw), **kw)
    scen.check_reference(part, 'shipped %s, %d bursts %s' % (folder, n, orb), bursts, vals['CNF'], chd, vals['CST'],
                         wave_tol=1e-5)
    return part


def derived(item):
    chd, cst = item
    part = core.Part()
    vals, cvals = dict(base('CHD'), **chd), dict(base('CST'), **cst)
    with core.scratch('c16') as d:
        c = load('CST', write(os.path.join(d, 'c.json'), 'CST', cvals))
        obj = load('CHD', write(os.path.join(d, 'x.json'), 'CHD', vals), c)
        for _ in range(2):
            for attr, want in (('pri_sar', 1 / vals['prf_sar_chd']), ('bri_sar', 1 / vals['brf_sar_chd']),
                               ('t0_nom', 1 / (vals['uso_freq_nom_chd'] * vals['alt_freq_multiplier_chd'])),
                               ('chirp_slope_ku', vals['bw_ku_chd'] / vals['pulse_length_chd']),
                               ('wv_length_ku', cvals['c_cst'] / vals['freq_ku_chd'])):
                got = getattr(obj, attr)
                if abs(got - want) > 1e-12 * abs(want):
                    part.violation('%s = %r, expected %r, with %s %s' % (attr, got, want, chd, cst))
    part.count(states=1, traces=1, evaluations=1)
    return part


# ---- histories -----------------------------------------------------------------------------------------------
HIST = {'CNF': [('N_looks_stack_cnf', 'n_looks_stack', (3, 5)), ('surface_focusing_lat_cnf', 'surface_focusing_lat',
                                                                 (10.0, 20.0)),
                ('min_lat_cnf', 'min_lat', (ABSENT, 7.0))],
        'CHD': [('N_samples_sar_chd', 'n_samples_sar', (8, 16)), ('antenna_weights_chd', 'antenna_weights', (1, 2)),
                ('prf_sar_chd', 'prf_sar', (1000.0, 2000.0))]}


def history(item):
    """every sequence of: load content c from one path into slot s, read parameter p of slot s, forget slot s,
    starting with the given prefix"""
    kind, prefix, depth = item
    part = core.Part()
    specs = HIST[kind]
    ops = [('load', s, c) for s in (0, 1) for c in (0, 1)]
    ops += [('read', s, p) for s in (0, 1) for p in range(len(specs))]
    ops += [('drop', s, None) for s in (0, 1)]
    with core.scratch('c16h') as d:
        contents = []
        for c in (0, 1):
            vals = base(kind)
            for name, attr, vv in specs:
                vals[name] = array(vv[c]) if kind == 'CHD' and 'weights' in name else vv[c]
            p = write(os.path.join(d, '%d.json' % c), kind, vals)
            contents.append(open(p).read())
        path = os.path.join(d, 'x.json')
        kv = {n: k for n, _, k in PARAMS[kind]}

        def step(slots, hist, op):
            what, s, a = op
            if what == 'load':
                with open(path, 'w') as fp:
                    fp.write(contents[a])
                slots[s] = (load(kind, path), a)
            elif what == 'drop':
                slots[s] = None
                gc.collect(0)
            else:
                obj, c = slots[s]
                name, attr, vv = specs[a]
                want = array(vv[c]) if kv[name] == 'array' else expected(kv[name], vv[c])
                got = getattr(obj, attr)
                if not same(got, want, kv[name]):
                    part.violation('%s: %s = %s, expected %s after %s' % (
                        kind, name, np.ravel(got)[:2], np.ravel(want)[:2], hist))

        def enabled(slots, op):
            what, s, a = op
            if what == 'load':
                return True
            return slots[s] is not None

        for tail in itertools.product(ops, repeat=depth - len(prefix)):
            seq = tuple(prefix) + tail
            if seq[-1][0] != 'read':        # nothing is observed at the end: a prefix of another sequence
                continue
            have = [False, False]
            ok = True
            for what, s, a in seq:
                if what == 'load':
                    have[s] = True
                elif not have[s]:
                    ok = False
                    break
                elif what == 'drop':
                    have[s] = False
            if not ok:
                continue
            slots = [None, None]
            for op in seq:
                step(slots, seq, op)
            part.count(states=1, transitions=len(seq), traces=1)
            if len(part['violations']) >= 10:
                return part
    part.sample('%s: all histories starting with %s up to depth %d' % (kind, prefix, depth))
    return part


def run(ctx):
    ctx.rule = 'every value of every parameter, every version of every file, every history of loading and reading'
    singles, bad = [], []
    for kind, ps in PARAMS.items():
        for name, attr, kv in ps:
            vals = [v for v in kv if v is not None] if isinstance(kv, tuple) else list(VALUES[kv])
            singles += [(kind, name, v) for v in vals + [ABSENT]]
            if kv in ('optional', 'optional angle'):
                singles.append((kind, name, None))
            if isinstance(kv, tuple):
                bad += [(kind, name, v) for v in ('nonsense', '', 3, [], 'EXTENDED')]
        for name in ('antenna_weights_chd', 'antenna_angles_chd'):
            if kind == 'CHD':
                bad += [(kind, name, [1.0] * n) for n in (0, 1, 249, 251)]
    core.pmap(ctx, single, singles, chunksize=8)
    core.pmap(ctx, invalid, bad, chunksize=8)
    core.pmap(ctx, version, [(k, v, w) for k in VERSION for v in (None, -1, 0, 1, 2, 3, 4, 10, 0.5)
                             for w in ('file', 'processor')])
    core.pmap(ctx, unknown, [(k, n, at) for k in VERSION for n in ('new_cnf', 'n_looks_stack', 'N_looks_stack', 'x')
                             for at in ('first', 'last')], chunksize=4)
    core.pmap(ctx, bare, [(k, n) for k in PARAMS for n, _, _ in PARAMS[k]], chunksize=8)
    core.pmap(ctx, shipped, [('config',), ('cryosat_config',)])
    core.pmap(ctx, derived, [(dict([a]) if a else {}, dict([b]) if b else {}) for a in (
        None, ('prf_sar_chd', 1.0), ('brf_sar_chd', 80.0), ('uso_freq_nom_chd', 9.9e6), ('alt_freq_multiplier_chd', 30),
        ('bw_ku_chd', 1e8), ('pulse_length_chd', 1e-5), ('freq_ku_chd', 14e9)) for b in (None, ('c_cst', 3e8))],
        chunksize=4)
    parts = core.pmap(ctx, operational, [(f, n, o) for f in ('config', 'cryosat_config')
                                         for n, o in (((130, {}), (150, dict(lat0=-50.0))) + (
                                             ((340, dict(lat0=0.5)), (340, dict(lat0=30.0)), (340, dict(lat0=45.0))) if ctx.thorough else ()))], fresh=True)
    scen.ambiguities(ctx, parts)
    depth = 6 if ctx.thorough else 5
    items = []
    for kind in HIST:
        first = [('load', 0, 0), ('load', 0, 1)]      # the slots are interchangeable
        ops = [('load', s, c) for s in (0, 1) for c in (0, 1)] + [('read', 0, p) for p in range(3)] + [('drop', 0, None)]
        items += [(kind, (f, o), depth) for f in first for o in ops]
    core.pmap(ctx, history, items)
    ctx.space_note('parameters', '%d cases of one parameter' % len(singles))
    ctx.space_note('versions', '9 versions of each file, reader and processor')
    ctx.space_note('histories', 'all sequences of %d loads, reads and releases over two objects and two contents' % depth)
