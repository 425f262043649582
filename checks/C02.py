"""C02: segments of the pass that are separated by a gap are processed independently of each other."""
import itertools

from vlib import core, l1a, pipeline, scen

LEVEL = 'model_checking'

REAL = 573177600.0    # times of the size that those of real files have
BRI = 1.0 / l1a.CHD['brf_sar_chd']
GAPS = {'just': 1.52 * BRI, 'double': 2.0 * BRI, 'long': 300.0, 'day': 90000.0}


def segment(i, n, brf=None, npulse=l1a.NP):
    # every segment is a different piece of ground with different echoes
    return l1a.orbit(n, tag=i + 1, lat0=10.0 + 7 * i, lon0=20.0 - 3 * i, heading=80.0 - 25 * i, brf=brf,
                     npulse=npulse, climb=(0.0, 24.0, -24.0)[i % 3])


def chain(lengths, gap, brf=None, npulse=l1a.NP):
    out = []
    for i, n in enumerate(lengths):
        seg = segment(i, n, brf, npulse)
        if out:
            dt = out[-1]['time'] + gap - seg[0]['time']
            seg = l1a.shift_time(seg, dt)
        out.extend(seg)
    return out


def wobble(bursts, pattern):
    """stretch the interval before some bursts to just under the gap threshold: still one segment"""
    out, shift = [], 0.0
    for i, b in enumerate(bursts):
        if i in pattern:
            shift += 0.48 * BRI
        out.append(l1a.shift_time([b], shift)[0])
    return out


def case(item):
    pipeline.fast_fit()
    kind, lengths, arg, cnf = item
    part = core.Part()
    brf = cnf.get('brf')
    npulse = cnf.get('np', l1a.NP)
    cnf = {k: v for k, v in cnf.items() if k not in ('brf', 'np')}
    chd = {'brf_sar_chd': brf, 'N_ku_pulses_burst_chd': npulse} if brf else {}
    if npulse != l1a.NP:
        cnf['azimuth_window_width_cnf'] = npulse
    t0 = cnf.pop('t0', 0.0)
    if kind == 'gap':
        gap = GAPS[arg]
        if brf:
            gap *= l1a.CHD['brf_sar_chd'] / brf if arg in ('just', 'double') else 1
        bursts = chain(lengths, gap, brf=brf, npulse=npulse)
        if t0:
            bursts = l1a.shift_time(bursts, t0)
        label = 'segments of %s bursts, %s gap, %s%s' % (list(lengths), arg, cnf, ', in 2018' if t0 else '')
    else:
        bursts = scen.drained(wobble(segment(0, lengths[0]), arg))
        label = '%d bursts, intervals before %s stretched to 1.48 of nominal' % (lengths[0], list(arg))
    scen.check_reference(part, label, bursts, cnf, chd)
    return part


def run(ctx):
    lens = (1, 2, 4, 9, 15)
    items = []
    for k in (2, 3):
        for lengths in itertools.product(lens, repeat=k):
            items.append(('gap', lengths, 'just', {}))
    for lengths in ((5, 5), (12, 3), (3, 12), (8, 1, 8), (1, 1, 1, 12), (6, 6, 6, 6)):
        for gap in GAPS:
            for cnf in ({}, {'flag_azimuth_processing_method_cnf': 'exact'}, {'flag_cal1_corrections_cnf': False},
                        {'flag_cal2_correction_cnf': False}, {'output_format_flag_cnf': 'sentinel-3'},
                        {'flag_uso_correction_cnf': False}):
                items.append(('gap', lengths, gap, cnf))
                if gap in ('just', 'long'):
                    items.append(('gap', lengths, gap, dict(cnf, t0=REAL)))
    for lengths in ((90, 6), (6, 90), (90, 90), (88, 1, 5)):
        items.append(('gap', lengths, 'just', {}))
    for lengths in ((12, 12), (3, 20), (20, 3), (13, 2, 9)):
        for brf in (3.9, 5.2):
            for gap in ('just', 'long'):
                items.append(('gap', lengths, gap, {'brf': brf}))
    for lengths in ((100, 30), (30, 100), (90, 3, 70)):
        items.append(('gap', lengths, 'just', {'brf': 21.5, 'np': 64, 'N_looks_stack_cnf': 40,
                                               'zp_fact_range_cnf': 1}))
    for r in (1, 2, 3):
        for pat in itertools.combinations(range(1, 9), r):
            items.append(('wobble', (9,), pat, {}))
    if ctx.thorough:
        for lengths in itertools.product((1, 2, 3, 4, 5, 6, 8, 11), repeat=3):
            items.append(('gap', lengths, 'double', {}))
        for lengths in itertools.product((1, 3, 7), repeat=4):
            items.append(('gap', lengths, 'just', {}))
    items.sort(key=lambda i: -sum(i[1]))
    ctx.space_note('segment lengths', 'all pairs and triples over %s, plus long segments' % (lens,))
    ctx.space_note('gap', 'just over 1.5 burst intervals, two intervals, 300 s, more than a day')
    ctx.space_note('not a gap', 'up to 3 of 8 intervals stretched to 1.48 nominal intervals')
    parts = core.pmap(ctx, case, items)
    scen.ambiguities(ctx, parts)
