"""C08: every beam is aligned in range by exactly the enabled corrections; what left the window is masked."""
import itertools

from vlib import core, l1a, pipeline, scen

LEVEL = 'exploration'

ONLY = {'waveform', 'iq', 'nb_stack', 'time', 'stack_mask_vector', 'beam_ang', 'start_look_angle_stack',
        'stop_look_angle_stack', 'start_beam_ang_stack', 'stop_beam_ang_stack', 'range_ku'}
FLAGS = ('flag_doppler_range_correction_cnf', 'flag_slant_range_correction_cnf', 'flag_stack_masking_cnf',
         'flag_avoid_zeros_in_multilooking_cnf')


def ranges(bursts, pattern):
    """move the receive window of some bursts (in samples of 0.47 m), far enough to wrap around"""
    out = []
    for i, b in enumerate(bursts):
        c = dict(b)
        c['range'] = b['range'] + 0.4684 * pattern[i % len(pattern)]
        out.append(c)
    return out


def case(item):
    pipeline.fast_fit()
    n, cnf, chd, pattern = item
    part = core.Part()
    ns = chd.get('N_samples_sar_chd', l1a.NS)
    climb = chd.get('climb', 0.0)
    bursts = scen.drained(l1a.orbit(n, ns=ns, climb=climb), ns=ns, climb=climb)
    if pattern:
        bursts = ranges(bursts, pattern)
    label = '%d bursts, cnf %s, chd %s, window moved by %s samples' % (n, cnf, chd, pattern)
    chd = {a: b for a, b in chd.items() if a != 'climb'}
    # without the slant range correction the beams are shifted by thousands of samples: the phase is less exact
    tol = 2e-6 if cnf.get('flag_slant_range_correction_cnf', True) else 2e-3
    skip = () if cnf.get('flag_slant_range_correction_cnf', True) else ('iq',)
    scen.check_reference(part, label, bursts, cnf, chd, only=ONLY, skip=skip, wave_tol=tol, ns=ns)
    return part


def run(ctx):
    ctx.rule = ('one run of the processor per combination; non-trivial: every record of the products, identified by '
                'case, surface and stack size')
    items = []
    for vals in itertools.product((True, False), repeat=4):
        cnf = dict(zip(FLAGS, vals))
        for zp in (1, 2, 3, 4):
            for looks in (4, 9):
                items.append((11, dict(cnf, zp_fact_range_cnf=zp, N_looks_stack_cnf=looks), {}, None))
        for climb in (24.0, -24.0):
            items.append((12, dict(cnf, N_looks_stack_cnf=7), {'climb': climb}, (0.4, 3.3, -1.8, 5.1)))
    masks = [(-0.5, 0.5), (-0.2, 0.2), (0.01, 0.9), (-0.9, -0.01), (0.3, 0.8), (5.0, 6.0), (-0.001, 0.001)]
    for (lo, hi), vals in itertools.product(masks, itertools.product((True, False), repeat=2)):
        items.append((11, {'flag_stack_masking_cnf': vals[0], 'flag_avoid_zeros_in_multilooking_cnf': vals[1]},
                      {'look_angle_mask_min_chd': lo, 'look_angle_mask_max_chd': hi}, None))
    items.append((11, {}, {'look_angle_mask_min_chd': 0.2}, None))
    items.append((11, {}, {'look_angle_mask_max_chd': -0.2}, None))
    patterns = [(2.3,), (-2.3,), (0.4, 3.3, -1.8, 5.1), (7.2, -7.2, 0.1), (20.3, 0.2, -20.3), (0.0, 9.4),
                (3.3, 3.3, -40.2, 1.1, 0.2)]
    for pat in patterns:
        for vals in itertools.product((True, False), repeat=2):
            for zp in (1, 2):
                items.append((11, {'flag_stack_masking_cnf': vals[0],
                                   'flag_avoid_zeros_in_multilooking_cnf': vals[1], 'zp_fact_range_cnf': zp},
                              {}, pat))
    for ns in (4, 6, 16, 32):
        for zp in (1, 2):
            items.append((10, {'zp_fact_range_cnf': zp}, {'N_samples_sar_chd': ns}, (1.2, -2.4, 0.3)))
    for chd in ({'pulse_length_chd': 3.0e-5}, {'bw_ku_chd': 3.5e8}, {'uso_freq_nom_chd': 1.1e7},
                {'alt_freq_multiplier_chd': 40}):
        items.append((10, {}, chd, (1.2, -2.4, 0.3)))
    if ctx.thorough:
        steps = (-6.3, -1.4, 0.2, 3.4, 12.3)
        for pat in itertools.product(steps, repeat=3):
            for vals in itertools.product((True, False), repeat=2):
                items.append((10, {'flag_stack_masking_cnf': True, 'flag_avoid_zeros_in_multilooking_cnf': vals[0],
                                   'flag_doppler_range_correction_cnf': vals[1]}, {}, pat))
    ctx.space_note('flags', 'all 16 combinations of doppler, slant range, masking, avoid zeros')
    ctx.space_note('zero padding', '1..4')
    ctx.space_note('receive window', '%d patterns of moves up to five times the window' % len(patterns))
    ctx.space_note('look angle mask', masks)
    parts = core.pmap(ctx, case, items)
    scen.ambiguities(ctx, parts)
