"""C27: every product says what it covers, where it comes from and how it is laid out."""
import datetime as dt
import itertools
import os

import netCDF4 as nc

from vlib import core, l1a, pipeline, refmodel

LEVEL = 'exploration'

ATTRS = ['mission_name', 'altimeter_sensor_name', 'gnss_sensor_name', 'doris_sensor_name', 'references',
         'acq_station_name', 'xref_altimeter_level0', 'xref_navatt_level0', 'xref_altimeter_orbit', 'xref_doris_uso',
         'xref_altimeter_ltm_lrm_cal1', 'xref_altimeter_ltm_sar_cal1', 'xref_altimeter_ltm_ku_cal2',
         'xref_altimeter_ltm_c_cal2', 'xref_altimeter_characterisation', 'xref_time_correlation', 'xref_platform',
         'history', 'product_name']
FULL = dict({a: 'the %s' % a for a in ATTRS}, product_name='S3A_SR_1_SRA_A__20180301')
VALUES = {'other': 'x', 'empty': '', 'accents': 'Où est Łódź? 高度', 'long': 'ab ' * 3000, 'lines': 'one\ntwo\n\tthree',
          'same': 'the history', 'dash': '-', 'like missing': 'Not available', 'number': '42', 'spaces': ' x '}
NAMES = ['S3A_SR_1_SRA_A__20180301', 'S3B_SR_1_SRA_A__20180301T000000_20180301T000001_A__x', 'product', '_A__', 'A__',
         'S3A_SR_1_SRA_A_20180301', 'S3A_SR_1_SRA_A___2018', '']
BASE = dt.datetime(2000, 1, 1, tzinfo=dt.timezone.utc)
FORMATS = ('extended', 'sentinel-3')


def layout(path):
    with nc.Dataset(path) as d:
        variables = {}
        for n, v in d.variables.items():
            variables[n] = (str(v.dtype), v.dimensions, tuple(sorted((a, str(v.getncattr(a))) for a in v.ncattrs())))
        dims = {n: (len(x), x.isunlimited()) for n, x in d.dimensions.items()}
        return variables, dims, sorted(d.ncattrs())


def produce(d, bursts, cnf, chd=None, cst=None, globals_=FULL, ns=l1a.NS, npulse=l1a.NP, name='t', proc=None,
            file_name='L1A_x.nc'):
    """-> {level: (Product, layout)} and the time before and after"""
    path = l1a.write_l1a(os.path.join(d, file_name), bursts, ns, npulse, globals_)
    proc = proc or pipeline.make_processor(d, cnf, chd, cst, True, name)
    t0 = dt.datetime.now(dt.timezone.utc)
    pipeline.call(proc, path)
    t1 = dt.datetime.now(dt.timezone.utc)
    out = {}
    for f, level in zip(pipeline.names(path, name), ('L1B', 'L1BS')):
        p = os.path.join(d, 'out', f)
        out[level] = (pipeline.Product(p), layout(p))
    return out, t0, t1


def expected_attrs(globs, level):
    want = {a: globs.get(a, 'Not available') for a in ATTRS}
    if 'product_name' in globs:
        want['product_name'] = globs['product_name'].replace('_A__', '____' if level == 'L1B' else '_BS_')
    return want


def parse(text):
    t = dt.datetime.fromisoformat(str(text).replace('Z', '+00:00'))
    return t if t.tzinfo else t.replace(tzinfo=dt.timezone.utc)


def check_times(part, label, prod, level, first, last, t0, t1):
    for key, secs in (('first_meas_time', first), ('last_meas_time', last)):
        want = BASE + dt.timedelta(seconds=secs)
        try:
            got = parse(prod.globals[key])
        except (KeyError, ValueError):
            part.violation('%s: %s: %s is %r' % (label, level, key, prod.globals.get(key)))
            continue
        if abs((got - want).total_seconds()) > 2e-6:
            part.violation('%s: %s: %s is %s, the record is of %s' % (label, level, key, got, want))
    try:
        made = parse(prod.globals['creation_time'])
    except (KeyError, ValueError):
        part.violation('%s: %s: creation_time is %r' % (label, level, prod.globals.get('creation_time')))
        return
    slack = dt.timedelta(seconds=2)
    if not t0 - slack <= made <= t1 + slack:
        part.violation('%s: %s: created at %s in a run from %s to %s' % (label, level, made, t0, t1))


def base_pass(t0=0.0):
    return l1a.shift_time(l1a.orbit(7) + l1a.shift_time(l1a.orbit(4, tag=1), 60.0), t0)


def attributes(item):
    """the global attributes of the input, one after the other in each state, in the products of both levels"""
    pipeline.fast_fit()
    fmt, cases = item
    part = core.Part()
    with core.scratch('c27') as d:
        # one processor for all of them: nothing of one file may show up in the products of the next
        proc = pipeline.make_processor(d, {'output_format_flag_cnf': fmt}, name='t')
        for label, globs in cases:
            out, t0, t1 = produce(d, base_pass(), None, globals_=globs, proc=proc)
            part.count(evaluations=1, states=1)
            part.nontriv((fmt, label))
            for level, (prod, _) in out.items():
                for a, want in expected_attrs(globs, level).items():
                    if prod.globals.get(a) != want:
                        part.violation('%s, input %s: attribute %s of the %s product is %r, expected %r' % (
                            fmt, label, a, level, prod.globals.get(a), want))
                b = base_pass()
                check_times(part, '%s, input %s' % (fmt, label), prod, level, b[0]['time'], b[-1]['time'], t0, t1)
        part.sample('%s, input %s' % (fmt, cases[0][0]))
    return part


T0 = {'2000': 0.0, '2018': 573177600.0, 'end of 2016': 536543997.0, 'leap day': 509932797.5, '1999': -3000.0,
      'microseconds': 573177600.123456}
REGIONS = {'whole': None, 'from third': (2, None), 'to ninth': (None, 8), 'without first segment': (6, None),
           'across the gaps': (4, 10), 'to seventh': (None, 6), 'two bursts': (5, 6), 'two single ones': (8, 9)}


def long_pass(t0):
    """three segments, ever further north"""
    return l1a.shift_time(l1a.orbit(6) + l1a.shift_time(l1a.orbit(3, tag=1, lat0=12.0), 60.0) +
                          l1a.shift_time(l1a.orbit(4, tag=2, lat0=14.0), 120.0), t0)


def covered(item):
    """first and last time of what was processed, ellipsoid, size of the product"""
    pipeline.fast_fit()
    fmt, when, region, cst = item
    part = core.Part()
    bursts = long_pass(T0[when])
    cnf = {'output_format_flag_cnf': fmt}
    if REGIONS[region]:
        lo, hi = REGIONS[region]
        if lo is not None:
            cnf['min_lat_cnf'] = bursts[lo]['lat'] - 1e-9
        if hi is not None:
            cnf['max_lat_cnf'] = bursts[hi]['lat'] + 1e-9
    label = '%s, %s, region %s, %s' % (fmt, when, region, cst)
    recs, k = pipeline.reference(bursts, cnf, None, cst)
    inside = refmodel.select(bursts, k)
    with core.scratch('c27') as d:
        out, t0, t1 = produce(d, bursts, cnf, None, cst)
        part.count(evaluations=1, states=1)
        part.nontriv(label)
        for level, (prod, (_, dims, _)) in out.items():
            check_times(part, label, prod, level, inside[0][1]['time'], inside[-1][1]['time'], t0, t1)
            c = pipeline.merged(l1a.CST, cst)
            for key, want in (('semi_major_ellipsoid_axis', c['semi_major_axis_cst']),
                              ('ellipsoid_flattening', c['flat_coeff_cst'])):
                if prod.globals.get(key) != want:
                    part.violation('%s: %s: %s is %r, the run used %r' % (label, level, key, prod.globals.get(key),
                                                                          want))
            if prod.n != len(recs):
                part.violation('%s: %s has %d records instead of %d' % (label, level, prod.n, len(recs)))
        part.sample('%s -> %d records, %s to %s' % (label, prod.n, prod.globals['first_meas_time'],
                                                    prod.globals['last_meas_time']))
    return part


PASSES = {
    'two': lambda ns, npu: base_pass_of(ns, npu, 7, 4),
    'three': lambda ns, npu: base_pass_of(ns, npu, 3, 1, 6),
    'south': lambda ns, npu: base_pass_of(ns, npu, 9, 5, lat0=-40.0, heading=-80.0, day0=6500, t0=573177600.0),
    'zero': lambda ns, npu: [dict(b, i=b['i'] * 0, q=b['q'] * 0) for b in base_pass_of(ns, npu, 6, 4)],
    'quiet': lambda ns, npu: [dict(b, i=b['i'] * 1e-6, q=b['q'] * 1e-6) for b in base_pass_of(ns, npu, 6, 4)],
    'holes': lambda ns, npu: [l1a.zeroed(b) if i in (2, 3) else b
                              for i, b in enumerate(base_pass_of(ns, npu, 8, 5))],
    'long': lambda ns, npu: base_pass_of(ns, npu, 88, 3),
}


def base_pass_of(ns, npu, *lengths, t0=0.0, **kw):
    out = []
    for i, n in enumerate(lengths):
        out += l1a.shift_time(l1a.orbit(n, tag=i, ns=ns, npulse=npu, **kw), 80.0 * i)
    return l1a.shift_time(out, t0)


def layouts(item):
    """-> part with the layouts of the products of one configuration and all passes"""
    pipeline.fast_fit()
    fmt, cnf, passes = item
    part = core.Part()
    ns, npu = cnf.get('ns', l1a.NS), cnf.get('np', l1a.NP)
    chd = {'N_samples_sar_chd': ns, 'N_ku_pulses_burst_chd': npu}
    if cnf.get('brf'):
        chd['brf_sar_chd'] = cnf['brf']
    cnf = {k: v for k, v in cnf.items() if k not in ('ns', 'np', 'brf')}
    cnf.setdefault('azimuth_window_width_cnf', npu)
    zp, looks = cnf.get('zp_fact_range_cnf', 2), cnf.get('N_looks_stack_cnf', 6)
    cnf['output_format_flag_cnf'] = fmt
    found = {}
    with core.scratch('c27') as d:
        proc = pipeline.make_processor(d, cnf, chd, None, True, 't')
        for p in passes:
            label = '%s, %s, pass %s' % (fmt, cnf, p)
            try:
                out, _, _ = produce(d, PASSES[p](ns, npu), cnf, chd, proc=proc, ns=ns, npulse=npu,
                                    file_name='L1A_%s.nc' % p)
            except Exception as err:
                if not core.raised_by_code_under_test(err):
                    raise
                part.violation('%s: processing fails: %r' % (label, err))
                continue
            part.count(evaluations=1, states=1)
            part.nontriv(label)
            for level, (prod, (variables, dims, attrs)) in out.items():
                time = 'time_%s_echo_sar_ku' % level.lower()
                if dims.get(time) != (prod.n, True):
                    part.violation('%s: %s: dimension %s is %s for %d records' % (label, level, time, dims.get(time),
                                                                                 prod.n))
                for n, want in (('echo_sample_ind', ns * zp), ('max_multi_stack_ind', looks)):
                    if n in dims and dims[n][0] != want:
                        part.violation('%s: %s: dimension %s is %d, configured are %d' % (label, level, n, dims[n][0],
                                                                                         want))
                for n, (_, vdims, vattrs) in variables.items():
                    if not vdims or vdims[0] != time:
                        part.violation('%s: %s: variable %s is not one of the records: %s' % (label, level, n, vdims))
                    if not dict(vattrs).get('long_name'):
                        part.violation('%s: %s: variable %s has no name' % (label, level, n))
                found.setdefault(level, {}).setdefault(repr((sorted(variables.items()), attrs)), label)
                part.setdefault('units', []).append(
                    (level, fmt, {n.replace('_%s_echo' % level.lower(), ''): dict(a).get('units')
                                  for n, (_, _, a) in variables.items()}))
        part.sample('%s, %s: %s' % (fmt, cnf, ', '.join(passes)))
    part['layouts'] = {level: {core.digest(k): (k, v) for k, v in f.items()} for level, f in found.items()}
    return part


def run(ctx):
    ctx.rule = ('every state of every global attribute of the input; every combination of time of the pass, region, '
                'format and ellipsoid; every combination of pass and configuration; non-trivial: both products are '
                'read back')
    cases = [('with all attributes', FULL), ('without attributes', {})]
    cases += [('with %s missing' % a, {k: v for k, v in FULL.items() if k != a}) for a in ATTRS]
    cases += [('with nothing but %s' % a, {a: FULL[a]}) for a in ATTRS]
    for what, value in VALUES.items():
        cases += [('with %s %s' % (a, what), dict(FULL, **{a: value})) for a in ATTRS]
    cases += [('called %r' % n, dict(FULL, product_name=n)) for n in NAMES]
    if ctx.thorough:
        cases += [('without %s and %s' % p, {k: v for k, v in FULL.items() if k not in p})
                  for p in itertools.combinations(ATTRS, 2)]
        cases += [('with %s and %s swapped' % p, dict(FULL, **{p[0]: FULL[p[1]], p[1]: FULL[p[0]]}))
                  for p in itertools.combinations(ATTRS[:-1], 2)]
    step = 14
    items = [(fmt, cases[i:i + step]) for fmt in FORMATS for i in range(0, len(cases), step)]
    ctx.space_note('attributes of the input', ATTRS)
    ctx.space_note('their states', ['missing', 'the only one'] + sorted(VALUES))
    core.pmap(ctx, attributes, items)

    other = {'semi_major_axis_cst': 6371000.0, 'semi_minor_axis_cst': 6371000.0, 'flat_coeff_cst': 0.0}
    items = [(fmt, when, region, c) for fmt in FORMATS for when in T0 for region in REGIONS for c in ({}, other)]
    ctx.space_note('times of the pass', sorted(T0))
    ctx.space_note('regions', sorted(REGIONS))
    core.pmap(ctx, covered, items)

    cnfs = [{}, {'zp_fact_range_cnf': 1, 'N_looks_stack_cnf': 4}, {'zp_fact_range_cnf': 4, 'N_looks_stack_cnf': 1},
            {'N_looks_stack_cnf': 9}, {'ns': 16, 'np': 8}, {'ns': 4, 'np': 4, 'N_looks_stack_cnf': 3},
            {'zp_fact_range_cnf': 3, 'N_looks_stack_cnf': 17}, {'ns': 32, 'np': 16, 'zp_fact_range_cnf': 1}]
    for m, w, mask in itertools.product(('approx', 'exact'), ('none', 'hamming'), (True, False)):
        cnfs.append({'flag_azimuth_processing_method_cnf': m, 'flag_azimuth_windowing_method_cnf': w,
                     'flag_stack_masking_cnf': mask, 'flag_cal1_corrections_cnf': mask,
                     'flag_cal2_correction_cnf': not mask, 'flag_avoid_zeros_in_multilooking_cnf': not mask})
    if ctx.thorough:
        cnfs += [dict(a, **b) for a, b in itertools.product(cnfs[:8], cnfs[8:])]
    short = [p for p in PASSES if p != 'long']
    items = [(fmt, c, short + (['long'] if i == 0 else [])) for fmt in FORMATS for i, c in enumerate(cnfs)]
    ctx.space_note('passes', sorted(PASSES))
    ctx.space_note('configurations', len(cnfs))
    parts = core.pmap(ctx, layouts, items)

    part = core.Part()
    seen = {}
    for (fmt, _, _), p in zip(items, parts):
        for level, f in p.get('layouts', {}).items():
            # the format is one of L1B; the L1BS product is always laid out in the same way
            seen.setdefault((level, fmt if level == 'L1B' else ''), {}).update(f)
    for (level, fmt), f in seen.items():
        if len(f) > 1:
            (a, la), (b, lb) = sorted(f.values())[:2]
            part.violation('the %s products of (%s) and (%s) are laid out differently' % (level, la, lb))
    units = {}
    for p in parts:
        for level, fmt, u in p.get('units', ()):
            for n, x in u.items():
                units.setdefault(n, {}).setdefault(x, (level, fmt))
    for n, x in sorted(units.items()):
        if len(x) > 1:
            part.violation('units of %s differ between products: %s' % (n, x))
    part.count(evaluations=1, states=len(seen))
    ctx.merge(part)
