"""C06: L1B and L1BS products and the two L1B formats tell the same story; optional output changes nothing else."""
import itertools
import os

import numpy as np

from vlib import core, l1a, pipeline, scen

LEVEL = 'exploration'

SHARED_FORMATS = ['time', 'UTC_day', 'UTC_sec', 'GPS_time', 'lat', 'lon', 'alt', 'orb_alt_rate', 'x_pos', 'y_pos',
                  'z_pos', 'x_vel', 'y_vel', 'z_vel', 'range_ku', 'scale_factor_ku', 'isp_coarse_time',
                  'isp_fine_time', 'sral_fine_time', 'flag_time_status', 'nav_bul_status', 'nav_bul_source',
                  'oper_instr', 'SAR_mode', 'cl_gain', 'acq_stat', 'dem_eeprom', 'loss_track', 'h0_nav_dem',
                  'h0_applied', 'cor2_nav_dem', 'cor2_applied', 'dh0', 'agccode_ku', 'seq_count', 'agc_ku',
                  'sig0_cal_ku', 'int_path_cor_ku', 'uso_cor', 'surf_type']
SHARED_BS = ['time', 'UTC_day', 'UTC_sec', 'lat', 'lon', 'alt', 'orb_alt_rate', 'x_pos', 'y_pos', 'z_pos', 'x_vel',
             'y_vel', 'z_vel', 'range_ku', 'scale_factor_ku', 'agc_ku', 'agccode_ku', 'sig0_cal_ku',
             'int_path_cor_ku', 'uso_cor', 'surf_type', 'roll_sat_pointing', 'pitch_sat_pointing', 'yaw_sat_pointing',
             'start_look_angle_stack', 'stop_look_angle_stack', 'start_beam_ang_stack', 'stop_beam_ang_stack']
STATS = ['max_stack', 'stdev_stack', 'skew_stack', 'kurt_stack']


def values(prod, name):
    return prod.value[name].astype(float), prod.quantum[name]


def agree(part, label, p, q, names):
    for n in names:
        a, qa = values(p, n)
        b, qb = values(q, n)
        if a.shape != b.shape or not np.all(np.abs(a - b) <= 1.001 * max(qa, qb) + 1e-9 * (1 + np.abs(a))):
            part.violation('%s: %s differs between the products: %s, %s' % (label, n, a[:4], b[:4]))


def louder(bursts, f):
    # the packed waveforms of the sentinel-3 format and of L1BS are fixed point (0.001); stay well inside their range
    return [dict(b, i=b['i'] * f, q=b['q'] * f) for b in bursts]


def bursts_of(name, cnf=None):
    f = 200.0 if (cnf or {}).get('flag_cal1_corrections_cnf', True) else 4.0
    return louder(_bursts(name), f) if name != 'gap' else _bursts(name)


def _bursts(name):
    return {
        'gap': lambda: l1a.orbit(10) + l1a.shift_time(l1a.orbit(5, tag=1), 100.0),
        'south': lambda: l1a.orbit(7, lat0=-50.0, lon0=-120.0, heading=-80.0) + l1a.shift_time(
            l1a.orbit(7, tag=1, lat0=-50.0, lon0=-121.0, heading=-80.0), 60.0),
        'midnight': lambda: l1a.orbit(9, utc_sec0=86398.6, day0=6000) + l1a.shift_time(
            l1a.orbit(4, tag=2, utc_sec0=86398.6, day0=6000), 77.0),
        'zero': lambda: [dict(b, i=b['i'] * 0, q=b['q'] * 0) if i in (3, 4) else b for i, b in enumerate(
            l1a.orbit(10) + l1a.shift_time(l1a.orbit(5, tag=1), 100.0))],
        'long': lambda: l1a.orbit(98),
    }[name]()


def case(item):
    pipeline.fast_fit()
    name, cnf = item
    part = core.Part()
    bursts = bursts_of(name, cnf)
    label = 'pass %s, %s' % (name, cnf)
    res = {}
    for fmt, l1bs in itertools.product(('extended', 'sentinel-3'), (True, False)):
        r = pipeline.run(bursts, dict(cnf, output_format_flag_cnf=fmt), l1bs=l1bs)
        part.count(evaluations=1, states=1)
        if r.error is not None:
            part.violation('%s, %s, L1BS %s: processing fails: %r' % (label, fmt, l1bs, r.error))
            return part
        res[fmt, l1bs] = r
    part.nontriv(label)
    for fmt in ('extended', 'sentinel-3'):
        for d in scen.diff_products(res[fmt, True].l1b, res[fmt, False].l1b):
            part.violation('%s, %s: L1B %s when no L1BS is written' % (label, fmt, d))
    for d in scen.diff_products(res['extended', True].l1bs, res['sentinel-3', True].l1bs):
        part.violation('%s: L1BS %s when the L1B format is changed' % (label, d))
    ext, s3, bs = res['extended', True].l1b, res['sentinel-3', True].l1b, res['extended', True].l1bs
    if not ext.n == s3.n == bs.n:
        part.violation('%s: %d extended, %d sentinel-3, %d L1BS records' % (label, ext.n, s3.n, bs.n))
        return part
    if ext.n == 0:
        part.violation('%s: no records' % label)
    agree(part, label + ', formats', ext, s3, SHARED_FORMATS)
    agree(part, label + ', L1B/L1BS', ext, bs, SHARED_BS)
    agree(part, label + ', formats', ext, s3, STATS)
    agree(part, label + ', L1B/L1BS', ext, bs, STATS)
    for i in range(ext.n):
        we, ws = pipeline.waveform(ext, i, 'extended'), pipeline.waveform(s3, i, 's3')
        gain = 10 ** (ext.value['agc_ku'][i] / 10.0)
        wb = pipeline.waveform(bs, i, 's3') * gain
        peak = np.max(np.abs(we))
        q = s3.quantum['i2q2_meas_ku']
        if not np.all(np.abs(we - ws) <= 2e-6 * peak + 1.001 * q + 1e-12):
            part.violation('%s: waveform %d differs between the formats' % (label, i))
        # (the L1BS variable has the receiver gain removed; the gain is only stored to a hundredth of a dB)
        if not np.all(np.abs(we - wb) <= 5e-3 * peak + 1.001 * bs.quantum['i2q2_meas_ku'] * gain):
            part.violation('%s: waveform %d differs between L1B and L1BS' % (label, i))
        nb = int(ext.value['nb_stack'][i])
        if nb > 0 and name != 'zero':
            a = ext.value['beam_ang'][i][:int(s3.value['nb_stack'][i])]
            b = -s3.value['beam_ang'][i][:int(s3.value['nb_stack'][i])]
            look = ext.value['look_ang'][i][:int(s3.value['nb_stack'][i])]
            tol = 1.001 * (ext.quantum['look_ang'] + s3.quantum['beam_ang'])
            if not np.all(np.abs(look - b) <= tol):
                part.violation('%s: look angles of record %d differ between the formats' % (label, i))
            if len(a) and not np.all(np.abs(np.diff(a)) >= 0):
                part.violation('%s: beam angles of record %d are not finite' % (label, i))
    part.sample('%s -> %d records in each of the products' % (label, ext.n))
    return part


NAMES = ['L1A_x.nc', 'L1A.nc', 'x.nc', 'S3A_SR_1_SRA_A__2016.nc', 'L1A_a.b.c.nc', 'abcL1A.nc', 'L1A_L1A_y.nc', 'z']


def naming(item):
    """products are named after the input file and the run; attributes of the input are carried over"""
    pipeline.fast_fit()
    part = core.Part()
    runs = ('t', 'other.run')
    glob = dict(l1a.GLOBALS)
    missing, = item
    for m in missing:
        glob.pop(m)
    made = {}
    with core.scratch('c06') as d:
        for n in (NAMES if not missing else NAMES[:1]):
            path = l1a.write_l1a(os.path.join(d, n), bursts_of('gap'), globals_=glob)
            for run in runs:
                proc = pipeline.make_processor(d, None, None, None, True, run)
                pipeline.call(proc, path)
                part.count(evaluations=1, states=1)
                part.nontriv((n, run, missing))
                for f, level in zip(pipeline.names(path, run), ('L1B', 'L1BS')):
                    p = os.path.join(d, 'out', f)
                    if not os.path.exists(p):
                        part.violation('input %s, run %s: %s is not written; out holds %s' % (
                            n, run, f, sorted(os.listdir(os.path.join(d, 'out')))[:8]))
                        continue
                    if f in made:
                        part.violation('%s is written for %s and for %s' % (f, made[f], (n, run)))
                    made[f] = (n, run)
                    g = pipeline.Product(p).globals
                    for key, v in l1a.GLOBALS.items():
                        want = v if key not in missing else 'Not available'
                        if key == 'product_name' and key not in missing:
                            want = v.replace('_A__', '____' if level == 'L1B' else '_BS_')
                        if g.get(key) != want:
                            part.violation('%s: attribute %s = %r, expected %r' % (f, key, g.get(key), want))
        extra = set(os.listdir(os.path.join(d, 'out'))) - set(made)
        if extra:
            part.violation('unexpected files in the output directory: %s' % sorted(extra))
    return part


def run(ctx):
    ctx.rule = ('every combination of pass and configuration, each processed in both formats with and without L1BS; '
                'non-trivial: all four runs succeed and are compared')
    cnfs = [{}]
    for m in ('approx', 'exact'):
        for mask, avoid in itertools.product((True, False), repeat=2):
            cnfs.append({'flag_azimuth_processing_method_cnf': m, 'flag_stack_masking_cnf': mask,
                         'flag_avoid_zeros_in_multilooking_cnf': avoid})
    for zp, looks in ((1, 4), (4, 6), (2, 9), (2, 1)):
        cnfs.append({'zp_fact_range_cnf': zp, 'N_looks_stack_cnf': looks})
    if ctx.thorough:
        for w, c1, c2 in itertools.product(('none', 'hamming', 'boxcar', 'hanning'), (True, False), (True, False)):
            cnfs.append({'flag_azimuth_windowing_method_cnf': w, 'flag_cal1_corrections_cnf': c1,
                         'flag_cal2_correction_cnf': c2})
    items = [('long', {})] + [(n, c) for n in ('gap', 'south', 'midnight', 'zero') for c in cnfs]
    ctx.space_note('configurations', len(cnfs))
    ctx.space_note('outputs', 'both L1B formats, with and without L1BS')
    ctx.space_note('input file names', NAMES)
    core.pmap(ctx, case, items)
    core.pmap(ctx, naming, [((),), (('product_name',),), (('history', 'mission_name'),),
                            (tuple(l1a.GLOBALS),)])
