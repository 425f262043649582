"""C09: the multilooked waveform is the weighted mean of the usable beams; it and the stack statistics are finite."""
import itertools

import numpy as np
from scipy.optimize import curve_fit, OptimizeWarning
import warnings

from vlib import core, l1a, pipeline, refmodel, scen

LEVEL = 'exploration'

ONLY = {'waveform', 'nb_stack', 'time', 'start_look_angle_stack', 'stop_look_angle_stack', 'start_beam_ang_stack',
        'stop_beam_ang_stack', 'stack_mask_vector', 'burst_start_ind', 'burst_stop_ind'}
FINITE = ('max_stack', 'stdev_stack', 'skew_stack', 'kurt_stack', 'scale_factor_ku', 'lat', 'lon', 'alt')


def table(name):
    ang = {'wide': np.linspace(-0.03, 0.03, 250), 'narrow': np.linspace(-0.003, 0.004, 250),
           'uneven': np.sort(np.concatenate([np.linspace(-0.02, 0.02, 125), np.linspace(-0.0021, 0.0019, 125)])),
           'right': np.linspace(0.001, 0.02, 250)}[name]
    w = 1.0 / (1.0 + (ang / 0.002) ** 2) + 0.7 + 20 * ang + 0.01 * np.cos(np.arange(250))
    return {'antenna_angles_chd': [float(a) for a in ang], 'antenna_weights_chd': [float(x) for x in w]}


def quieted(bursts, which):
    return [dict(b, i=b['i'] * f, q=b['q'] * f) for b, f in
            ((b, which.get(i, 1.0)) for i, b in enumerate(bursts))]


ECHOES = {
    'all': {}, 'one silent': {4: 0.0}, 'some silent': {0: 0.0, 3: 0.0, 4: 0.0, 5: 0.0, 9: 0.0},
    'almost all silent': {i: 0.0 for i in range(40) if i != 6},
    'silent': {i: 0.0 for i in range(40)},
    'strong': {i: 1e4 for i in range(40)}, 'weak': {i: 1e-6 for i in range(40)}, 'one strong': {5: 1e4},
}


def gauss(x, a, b, c):
    return a * np.exp(-(x - b) ** 2 / c ** 2)


def fit(x, y):
    with warnings.catch_warnings():
        warnings.simplefilter('error', OptimizeWarning)
        try:
            return curve_fit(gauss, x, y)[0]
        except (RuntimeError, OptimizeWarning, TypeError, ValueError):
            return None


def stack_params(x, p, wobble=1e-7):
    """the four numbers from the gaussian model, or None where the fit is not stable enough to be compared"""
    n = len(p)
    if n < 4 or not p.max() > 0:
        return None
    p = p / p.max()
    out = []
    for eps in (0.0, wobble, -wobble, 3 * wobble):
        wob = 1 + eps * np.cos(np.arange(n) * 1.7)
        fl, fi = fit(x * (1 + eps), p * wob), fit(np.arange(n), p * wob)
        if fl is None or fi is None:
            return None
        g = gauss(np.arange(n), *fi)
        if not g.std() > 1e-6:
            return None
        z = (g - g.mean()) / g.std()
        out.append((fl[0], abs(fl[2]) / 2, np.mean(z ** 3), np.mean(z ** 4) - 3))
    out = np.array(out)
    if not np.all(np.abs(out - out[0]) <= max(1e-4, 3 * wobble) * (1 + np.abs(out[0]))):
        return None
    return out[0]


def case(item):
    n, cnf, chd_name, echo, pattern = item
    part = core.Part()
    chd = table(chd_name) if chd_name else {}
    if isinstance(pattern, dict):
        chd = dict(chd, **pattern)
        pattern = None
    climb = chd.get('climb', 0.0)
    chd = {a: b for a, b in chd.items() if a != 'climb'}
    bursts = quieted(scen.drained(l1a.orbit(n, climb=climb), tail=6, climb=climb), ECHOES[echo])
    if pattern:
        bursts = [dict(b, range=b['range'] + 0.4684 * pattern[i % len(pattern)]) for i, b in enumerate(bursts)]
    label = '%d bursts (%s echoes), %s, antenna table %s, window moved %s' % (n, echo, cnf, chd_name, pattern)
    # the tables are steep: the noise of the doppler angle shows in the weight
    res = scen.check_reference(part, label, bursts, cnf, chd, only=ONLY, wave_tol=2e-4 if chd_name else 2e-6)
    if res is None or res.error is not None:
        return part
    recs, k = pipeline.reference(bursts, cnf, chd, None)
    fitted = 0
    for prod, what in ((res.l1b, 'L1B'), (res.l1bs, 'L1BS')):
        for name in FINITE:
            if name in prod.value and not np.all(np.isfinite(prod.value[name].astype(float))):
                part.violation('%s: %s %s is not finite: %s' % (label, what, name, prod.value[name]))
        if 'stdev_stack' in prod.value and np.any(prod.value['stdev_stack'] < 0):
            part.violation('%s: %s negative width of the stack' % (label, what))
    if scen.kind_of(cnf) == 'extended':
        for i, r in enumerate(recs):
            want = stack_params(r['look'], r['beam_power'])
            if want is None:
                continue
            for name, w in zip(('max_stack', 'stdev_stack', 'skew_stack', 'kurt_stack'), want):
                got, q = float(res.l1b.value[name][i]), res.l1b.quantum[name]
                if not pipeline._fits(res.l1b, name, w, q):
                    continue
                fitted += 1
                if not abs(got - w) <= 1.001 * q + 1e-3 * (1 + abs(w)):
                    part.violation('%s: record %d %s = %g, expected %g' % (label, i, name, got, w))
    part['fitted'] = fitted
    return part


def big(item):
    """stacks of hundreds of beams, as those of the real instrument; the statistics are those of the beams up to 124
    on either side of the one that looks to nadir"""
    mult, n, looks, width, centre, cnf = item
    part = core.Part()
    brf = 2.6 * mult
    bursts = scen.drained(l1a.orbit(n, brf=brf), tail=6, brf=brf)
    bursts = [dict(b, i=bursts[0]['i'], q=bursts[0]['q']) for b in bursts]
    bursts = quieted(bursts, {i: np.exp(-((i - centre) / width) ** 2 / 2) + 1e-3 for i in range(n)})
    cnf = dict(cnf, N_looks_stack_cnf=looks)
    chd = {'brf_sar_chd': brf}
    label = '%d bursts at %g Hz, strongest at %d (width %d), %s' % (n, brf, centre, width, cnf)
    res = scen.check_reference(part, label, bursts, cnf, chd, only=ONLY)
    if res is None or res.error is not None:
        return part
    recs, k = pipeline.reference(bursts, cnf, chd, None)
    part['fitted'] = 0
    for i, r in enumerate(recs):
        # the beam that looks to nadir; with two alike the statistics hang on rounding
        off = np.abs(np.pi / 2 - r['ang'])
        power = r['beam_power']
        peak = np.sum(np.arange(len(power)) * power) / max(power.sum(), 1e-300) / len(power)
        if not 0.3 <= peak <= 0.7:
            continue        # half a bell: the fit is not well-posed
        order = np.argsort(off)
        wants = []
        for at in order[:2] if off[order[1]] - off[order[0]] < 1e-9 else order[:1]:
            sel = slice(max(at - 124, 0), at + 125)
            wants.append(stack_params(r['look'][sel], power[sel], 1e-4))
        if any(w is None for w in wants):
            continue
        for j, name in enumerate(('max_stack', 'stdev_stack', 'skew_stack', 'kurt_stack')):
            got, q = float(res.l1b.value[name][i]), res.l1b.quantum[name]
            if not all(pipeline._fits(res.l1b, name, w[j], q) for w in wants):
                continue
            part['fitted'] += 1
            if not any(abs(got - w[j]) <= 1.001 * q + 1e-3 * (1 + abs(w[j])) for w in wants):
                part.violation('%s: record %d (%d beams) %s = %g, expected %g' % (
                    label, i, r['size'], name, got, wants[0][j]))
    return part


def run(ctx):
    ctx.rule = ('one run of the processor per combination, with the real curve fit; non-trivial: every record of the '
                'products, identified by case, surface and stack size')
    items = []
    for avoid, mask, zp in itertools.product((True, False), (True, False), (1, 2)):
        cnf = {'flag_avoid_zeros_in_multilooking_cnf': avoid, 'flag_stack_masking_cnf': mask, 'zp_fact_range_cnf': zp}
        for echo in ECHOES:
            items.append((9, cnf, None, echo, None))
        for pat in ((2.3, -3.4), (12.3, 0.2, -30.3), (30.3,), (-30.3,)):
            items.append((9, cnf, None, 'all', pat))
        items.append((9, cnf, None, 'all', {'look_angle_mask_min_chd': 5.0, 'look_angle_mask_max_chd': 6.0}))
        items.append((9, cnf, None, 'all', {'look_angle_mask_min_chd': 0.1, 'look_angle_mask_max_chd': 0.3}))
    for tab, looks, mask in itertools.product(('wide', 'narrow', 'uneven', 'right'), (3, 6, 9), (True, False)):
        items.append((10, {'flag_antenna_weighting_cnf': True, 'N_looks_stack_cnf': looks,
                           'flag_stack_masking_cnf': mask}, tab, 'all', None))
        items.append((10, {'flag_antenna_weighting_cnf': True, 'N_looks_stack_cnf': looks,
                           'flag_stack_masking_cnf': mask, 'flag_avoid_zeros_in_multilooking_cnf': False}, tab,
                      'some silent', (2.3, -3.4)))
    for tab, looks, climb in itertools.product((None, 'wide', 'narrow'), (3, 8), (24.0, -24.0)):
        items.append((14, {'flag_antenna_weighting_cnf': tab is not None, 'N_looks_stack_cnf': looks}, tab, 'all',
                      {'climb': climb}))
    for looks in range(1, 13):
        for fmt in ('extended', 'sentinel-3'):
            items.append((12, {'N_looks_stack_cnf': looks, 'output_format_flag_cnf': fmt}, None, 'all', None))
    if ctx.thorough:
        for n, looks, tab, avoid in itertools.product(range(1, 16), (2, 5, 8), (None, 'wide', 'narrow'),
                                                      (True, False)):
            items.append((n, {'N_looks_stack_cnf': looks, 'flag_antenna_weighting_cnf': tab is not None,
                              'flag_avoid_zeros_in_multilooking_cnf': avoid}, tab, 'all', None))
    ctx.space_note('echoes', sorted(ECHOES))
    ctx.space_note('antenna tables', 'none, wide, narrow, uneven spacing, one-sided')
    ctx.space_note('looks', '1..12')
    parts = core.pmap(ctx, case, items)
    large = [(m, n, looks, w, c, cnf) for m, n, looks in ((20, 170, 150), (34, 300, 240), (40, 340, 300), (50, 400, 330))
             for w in ((30, 70) if not ctx.thorough else (20, 30, 50, 70, 100))
             for c in ((n // 2,) if not ctx.thorough else (n // 3, n // 2, 2 * n // 3))
             for cnf in ({}, {'flag_stack_masking_cnf': False})]
    parts += core.pmap(ctx, big, large, chunksize=1)
    ctx.space_note('large stacks', '%d passes with stacks of up to 330 beams' % len(large))
    ctx.notes.append('%d stack statistics compared with an independent fit' % sum(p.get('fitted', 0) for p in parts))
    scen.ambiguities(ctx, parts)
