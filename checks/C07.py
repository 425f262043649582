"""C07: the beams of a burst are its windowed pulses, brought into phase for the direction of a surface."""
import itertools

from vlib import core, l1a, pipeline, scen

LEVEL = 'exploration'

ONLY = {'waveform', 'iq', 'nb_stack', 'time', 'beam_ang'}


def case(item):
    pipeline.fast_fit()
    n, npulse, cnf, kw = item
    part = core.Part()
    brf = max(2.6, 0.34 * npulse)
    chd = {'N_ku_pulses_burst_chd': npulse, 'brf_sar_chd': brf}
    chd.update(kw.get('chd', {}))
    okw = dict(npulse=npulse, brf=brf, ns=chd.get('N_samples_sar_chd', l1a.NS), **kw.get('orbit', {}))
    bursts = scen.drained(l1a.orbit(n, **okw), **okw)
    if kw.get('tilt'):
        # a climbing satellite: the doppler angle is not zero
        for b in bursts:
            b['vel'] = b['vel'] + kw['tilt'] * b['pos'] / sum(b['pos'] ** 2) ** 0.5
    label = '%d bursts of %d pulses, %s, %s' % (n, npulse, cnf, kw)
    scen.check_reference(part, label, bursts, cnf, chd, only=ONLY, ns=okw['ns'], npulse=npulse)
    return part


def windows(npulse):
    yield {'flag_azimuth_windowing_method_cnf': 'none', 'azimuth_window_width_cnf': npulse}
    yield {'flag_azimuth_windowing_method_cnf': 'none', 'azimuth_window_width_cnf': 2}
    for m in ('boxcar', 'hamming', 'hanning'):
        for w in range(1, npulse + 1):
            if m == 'hanning' and w == 2:
                continue        # both weights of a Hanning window of two are zero
            yield {'flag_azimuth_windowing_method_cnf': m, 'azimuth_window_width_cnf': w}


def run(ctx):
    ctx.rule = ('one run of the processor per combination; non-trivial: every record of the products, identified by '
                'case, surface and stack size')
    items = []
    for method in ('approx', 'exact'):
        # rising and falling number of surfaces seen, and full bursts
        for n in (1, 2, 3, 4, 5, 6, 8, 10, 13, 17):
            for looks in (1, 6):
                items.append((n, 8, {'flag_azimuth_processing_method_cnf': method, 'N_looks_stack_cnf': looks}, {}))
        for npulse in (4, 5, 6, 7, 8, 10, 12):
            for w in windows(npulse):
                items.append((14 if ctx.thorough else 9, npulse,
                              dict(w, flag_azimuth_processing_method_cnf=method, N_looks_stack_cnf=4), {}))
        for npulse in (16, 32):
            for w in ({'azimuth_window_width_cnf': npulse},
                      {'flag_azimuth_windowing_method_cnf': 'hamming', 'azimuth_window_width_cnf': npulse - 3}):
                items.append((npulse + 6, npulse, dict(w, flag_azimuth_processing_method_cnf=method,
                                                       N_looks_stack_cnf=8), {}))
        for chd in ({'prf_sar_chd': 18182.0}, {'freq_ku_chd': 13.0e9}, {'N_samples_sar_chd': 4},
                    {'N_samples_sar_chd': 16}):
            items.append((12, 8, {'flag_azimuth_processing_method_cnf': method}, {'chd': chd}))
        for orb in (dict(lat0=-60.0, lon0=-150.0, heading=-70.0), dict(lat0=80.0, lon0=170.0, heading=15.0),
                    dict(climb=24.0), dict(lat0=-60.0, heading=-70.0, climb=-24.0)):
            for n in (7, 14, 24):
                items.append((n, 8, {'flag_azimuth_processing_method_cnf': method}, {'orbit': orb}))
        for tilt in (5.0, -20.0):
            for n in (7, 14):
                items.append((n, 8, {'flag_azimuth_processing_method_cnf': method}, {'tilt': tilt}))
    if ctx.thorough:
        for method, n, looks, npulse in itertools.product(('approx', 'exact'), range(1, 26), (1, 3, 6, 12), (6, 8, 11)):
            items.append((n, npulse, {'flag_azimuth_processing_method_cnf': method, 'N_looks_stack_cnf': looks,
                                      'azimuth_window_width_cnf': npulse}, {}))
    ctx.space_note('azimuth method', 'approx, exact')
    ctx.space_note('window', 'none, boxcar, hamming, hanning, every width 1..pulses, 4..12 pulses per burst')
    ctx.space_note('length of the segment', '1..17 bursts (rising, full and falling number of surfaces seen)')
    parts = core.pmap(ctx, case, items)
    scen.ambiguities(ctx, parts)
