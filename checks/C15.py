"""C15: the scale factors for sigma0 follow from the radar equation for the beams of each surface."""
import itertools

from vlib import core, l1a, pipeline, scen

LEVEL = 'exploration'

ONLY = {'scale_factor_ku', 'stack_scale_factor_ku', 'time', 'range_ku', 'nb_stack'}

CHDS = [{}, {'power_tx_ant_ku_chd': 1.0}, {'power_tx_ant_ku_chd': 0.02}, {'power_tx_ant_ku_chd': 20.0},
        {'antenna_gain_ku_chd': 0.0}, {'antenna_gain_ku_chd': 42.6}, {'antenna_gain_ku_chd': -3.0},
        {'ratio_trc_ku_chd': 0.0}, {'ratio_trc_ku_chd': -150.5}, {'ratio_trc_ku_chd': 12.25},
        {'ptr_width_chd': 2.819e-9}, {'ptr_width_chd': 1.0}, {'ptr_width_chd': 4.1e-3},
        {'prf_sar_chd': 18182.0}, {'prf_sar_chd': 16500.5}, {'freq_ku_chd': 13.0e9}, {'freq_ku_chd': 14.1e9},
        {'N_samples_sar_chd': 16}]
CSTS = [{}, {'earth_radius_cst': 6371000.0}, {'c_cst': 299792000.0}]


def case(item):
    pipeline.fast_fit()
    n, npulse, cnf, chd, cst, var = item
    part = core.Part()
    chd = dict(chd)
    okw = {}
    if 'brf' in var:
        okw['brf'] = chd['brf_sar_chd'] = var['brf']
    if npulse != l1a.NP:
        brf = max(2.6, 0.34 * npulse)
        chd.update({'N_ku_pulses_burst_chd': npulse, 'brf_sar_chd': brf})
        cnf = dict(cnf, azimuth_window_width_cnf=npulse)
        okw = dict(npulse=npulse, brf=brf)
    if 'N_samples_sar_chd' in chd:
        okw['ns'] = chd['N_samples_sar_chd']
    okw.update(var.get('orbit', {}))
    bursts = scen.drained(l1a.orbit(n, **okw), **dict(okw, tail=6) if 'brf' in var else okw)
    for b in bursts:
        i = b['idx']
        if 'agc' in var:
            b['agc'] = var['agc'][i % len(var['agc'])]
        if 'sig0cal' in var:
            b['sig0cal'] = var['sig0cal'][i % len(var['sig0cal'])]
        if 'speed' in var:
            b['vel'] = b['vel'] * (1.0 + var['speed'] * i)
        if 'speeds' in var:
            b['vel'] = b['vel'] * var['speeds'][i % len(var['speeds'])]
        if 'range' in var:
            b['range'] = b['range'] + var['range'] * i
    label = '%d bursts of %d pulses, %s, %s, %s, %s' % (n, npulse, cnf, chd, cst, var)
    scen.check_reference(part, label, bursts, cnf, chd, cst, only=ONLY, ns=okw.get('ns'), npulse=npulse)
    return part


VARS = [{}, {'agc': (0.0, 62.0)}, {'agc': (10.25, 11.5, 33.75)}, {'agc': (-4.0, 0.5)},
        {'sig0cal': (-10.0, 30.0)}, {'speed': 0.0001}, {'speed': -0.0002}, {'range': 20.0}, {'range': -35.0},
        {'speeds': (1.0, 1.06, 0.96)}, {'speeds': (1.04, 0.95, 1.0, 1.02, 0.9)}, {'speeds': (1.0, 1.5, 0.7)},
        {'orbit': dict(climb=24.0)}, {'orbit': dict(lat0=-60.0, heading=-70.0, climb=-24.0)},
        {'orbit': dict(lat0=-70.0, lon0=-150.0, heading=-60.0)}, {'orbit': dict(lat0=80.0, lon0=170.0, heading=15.0)}]


def run(ctx):
    ctx.rule = ('one run of the processor per combination; non-trivial: every record of the products, identified by '
                'case, surface and stack size')
    items = []
    fmts = ('extended', 'sentinel-3')
    for chd, cst, fmt in itertools.product(CHDS, CSTS, fmts):
        items.append((9, 8, {'output_format_flag_cnf': fmt, 'N_looks_stack_cnf': 4}, chd, cst, {}))
    for looks, var, fmt in itertools.product((1, 2, 3, 5, 8, 12) if not ctx.thorough else range(1, 13), VARS, fmts):
        items.append((10, 8, {'output_format_flag_cnf': fmt, 'N_looks_stack_cnf': looks}, {}, {}, var))
    for npulse, fmt in itertools.product((4, 5, 6, 7, 8, 10, 12, 16), fmts):
        items.append((10, npulse, {'output_format_flag_cnf': fmt}, {}, {}, {'agc': (20.0, 21.0, 40.0)}))
    # stacks of hundreds of beams
    for (mult, n, looks), fmt in itertools.product(((20, 110, 90), (34, 260, 240)), fmts):
        items.append((n, 8, {'output_format_flag_cnf': fmt, 'N_looks_stack_cnf': looks}, {}, {},
                      {'brf': 2.6 * mult, 'agc': (20.0, 21.0, 40.0), 'range': 1.5}))
    # settings that have no part in the scale factors
    for flag, val in (('flag_surface_weighting_cnf', False), ('flag_stack_masking_cnf', False),
                      ('flag_doppler_range_correction_cnf', False), ('flag_cal1_corrections_cnf', False),
                      ('flag_cal2_correction_cnf', False), ('flag_azimuth_processing_method_cnf', 'exact'),
                      ('zp_fact_range_cnf', 1), ('flag_window_delay_alignment_method_cnf', 1),
                      ('flag_window_delay_alignment_method_cnf', 2)):
        items.append((10, 8, {flag: val}, {}, {}, {'agc': (20.0, 21.0, 40.0)}))
    if ctx.thorough:
        for a, b, fmt in itertools.product(CHDS, CHDS, fmts):
            if not set(a) & set(b):
                items.append((9, 8, {'output_format_flag_cnf': fmt, 'N_looks_stack_cnf': 5}, dict(a, **b),
                              {'earth_radius_cst': 6371000.0}, {'agc': (20.0, 21.0, 40.0)}))
    ctx.space_note('instrument', '%d characterisations x %d sets of constants x 2 formats' % (len(CHDS), len(CSTS)))
    ctx.space_note('records', '%d patterns of gain, speed and range, numbers of looks 1..12' % len(VARS))
    parts = core.pmap(ctx, case, items)
    scen.ambiguities(ctx, parts)
