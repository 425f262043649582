"""C12: the UTC day and seconds and the GPS time of every record follow from the times of the bursts."""
import math

from vlib import core, l1a, pipeline, scen

LEVEL = 'exploration'

ONLY = {'time', 'UTC_day', 'UTC_sec', 'GPS_time', 'seq_count', 'isp_coarse_time', 'isp_fine_time', 'sral_fine_time',
        'flag_time_status', 'nb_stack'}


def stamp(bursts, day, sec, leap):
    """give the bursts UTC times starting at (day, sec); leap: 0, or +1/-1 for a leap second at the next midnight"""
    t0 = bursts[0]['time']
    out = []
    for b in bursts:
        s = sec + (b['time'] - t0)
        d = day
        length = 86400.0 + leap
        if s >= length:
            s -= length
            d += 1
            while s >= 86400.0:
                s -= 86400.0
                d += 1
        out.append(dict(b, day=d, sec=s))
    return out


def case(item):
    pipeline.fast_fit()
    n, day, sec, leap, t0, brf, cnf = item
    part = core.Part()
    chd = {'brf_sar_chd': brf} if brf else {}
    bursts = stamp(scen.drained(l1a.orbit(n, t0=1000.0, brf=brf), brf=brf), day, sec, leap)
    bursts = [dict(b, time=b['time'] - 1000.0 + t0) for b in bursts]
    label = '%d bursts from day %d second %r, leap second %+d, t0 %r, %s %s' % (n, day, sec, leap, t0, chd, cnf)
    res = scen.check_reference(part, label, bursts, cnf, chd, only=ONLY)
    if res is None or res.error is not None:
        return part
    for prod in (res.l1b, res.l1bs):
        if prod is None:
            continue
        for i in range(prod.n):
            s = float(prod.value['UTC_sec'][i])
            if not -1e-5 <= s < 86400.0 + max(leap, 0) + 1e-5:
                part.violation('%s: record %d has second of day %r' % (label, i, s))
    return part


def run(ctx):
    ctx.rule = ('one run of the processor per combination; non-trivial: every record of the products, identified by '
                'case, surface and stack size')
    dt = 1.0 / l1a.CHD['brf_sar_chd']
    items = []
    n = 10
    # midnight falls at every eighth of every burst interval of the segment
    steps = 8 if not ctx.thorough else 32
    for k in range(-steps, (n + 1) * steps):
        # (not exactly on a surface: the expected day would hang on rounding)
        sec = 86400.0 - (k + 0.13) * dt / steps
        items.append((n, 6000, sec, 0, 5.0e8 + 0.25, None, {}))
    for leap in (1, -1):
        for k in range(0, n * 4):
            sec = 86400.0 + leap - (k + 0.13) * dt / 4
            items.append((n, 5843, sec, leap, 5.05e8, None, {}))
    for fmt in ('extended', 'sentinel-3'):
        for sec in (0.0, 43200.5, 86399.0, 86400.0 - 1.9, 86390.0):
            for day in (0, 1, 5843, 20000):
                items.append((n, day, sec, 0, 1000.0 if day == 0 else day * 86400.0, None,
                              {'output_format_flag_cnf': fmt}))
    for brf in (3.9, 5.2):
        for k in range(0, 12):
            items.append((14, 6000, 86400.0 - (k + 0.37) / brf, 0, 5.0e8, brf, {}))
    ctx.space_note('midnight', 'at every eighth of every burst interval of a segment of %d bursts' % n)
    ctx.space_note('leap second', 'none, inserted, removed at that midnight')
    parts = core.pmap(ctx, case, items)
    scen.ambiguities(ctx, parts)
