"""C11: surfaces lie on the ground track at the resolution of the instrument; the focusing target moves at most one."""
import itertools
import math

import numpy as np

from vlib import core, l1a, pipeline, refmodel, scen

LEVEL = 'exploration'

ONLY = {'time', 'lat', 'lon', 'alt', 'orb_alt_rate', 'x_pos', 'y_pos', 'z_pos', 'x_vel', 'y_vel', 'z_vel', 'range_ku',
        'meas_x_pos', 'meas_y_pos', 'meas_z_pos', 'roll_sat_pointing', 'pitch_sat_pointing', 'yaw_sat_pointing',
        'records_count', 'nb_stack', 'beam_ang', 'UTC_sec'}

TRACKS = {
    'north': dict(lat0=10.0, lon0=20.0, heading=80.0),
    'south': dict(lat0=-30.0, lon0=150.0, heading=-75.0),
    'west': dict(lat0=45.0, lon0=-179.9, heading=170.0),
    'polar': dict(lat0=84.0, lon0=60.0, heading=60.0),
    'equator': dict(lat0=-0.2, lon0=-0.15, heading=65.0),
    'climbing': dict(lat0=-50.0, lon0=70.0, heading=75.0, climb=24.0),
    'sinking': dict(lat0=30.0, lon0=-70.0, heading=-80.0, climb=-24.0),
}


def passes(name, shape):
    apart = name.startswith('apart')
    kw = TRACKS[name.replace('apart-', '')]
    out = []
    t = 0.0
    for i, n in enumerate(shape):
        seg = l1a.orbit(n, tag=i, **kw)
        if apart:
            # every segment has its own piece of ground
            seg = l1a.orbit(n, tag=i, **dict(kw, lat0=kw['lat0'] + 2.0 * i, lon0=kw['lon0'] + 3.0 * i))
        elif i % 2:
            # the later segments run over the same ground again, a little to the side
            seg = l1a.orbit(n, tag=i, **dict(kw, lon0=kw['lon0'] + 0.02))
        out += l1a.shift_time(seg, t)
        t = out[-1]['time'] - 1000.0 + 50.0
    return out


def target_of(bursts, j, frac, side, alt):
    """a point near the track: between bursts j and j+1, to the side of it by some kilometres"""
    n = len(bursts)
    a = bursts[max(0, min(n - 2, j))]
    b = bursts[max(0, min(n - 2, j)) + 1]
    steps = (j - max(0, min(n - 2, j))) + frac
    dlon = math.remainder(b['lon'] - a['lon'], 360.0)
    lat = a['lat'] + steps * (b['lat'] - a['lat'])
    lon = a['lon'] + steps * dlon
    return {'flag_surface_focusing_cnf': True, 'surface_focusing_lat_cnf': lat,
            'surface_focusing_lon_cnf': math.remainder(lon + side / math.cos(math.radians(lat)), 360.0),
            'surface_focusing_alt_cnf': alt}


def case(item):
    pipeline.fast_fit()
    name, shape, focus, cnf, chd = item
    part = core.Part()
    bursts = passes(name, shape)
    cnf = dict(cnf)
    label = 'track %s, segments %s, focus %s, %s %s' % (name, shape, focus, cnf, chd)
    if focus is not None:
        at = shape[0] if name.startswith('apart') else 0     # the segment of the target
        cnf.update(target_of(bursts[at:at + (shape[1] if at else shape[0])], *focus))
    res = scen.check_reference(part, label, bursts, cnf, chd, only=ONLY)
    if res is None or res.error is not None:
        return part
    if focus is not None:
        recs, k = pipeline.reference(bursts, cnf, chd, None)
        plain = pipeline.run(bursts, {k2: v for k2, v in cnf.items() if not k2.startswith('surface_focusing') and
                                      k2 != 'flag_surface_focusing_cnf'}, chd)
        part.count(evaluations=1)
        if plain.error is None and plain.l1bs.n == res.l1bs.n:
            moved = [i for i in range(plain.l1bs.n) if any(
                abs(plain.l1bs.value[v][i] - res.l1bs.value[v][i]) > 1e-3
                for v in ('meas_x_pos', 'meas_y_pos', 'meas_z_pos'))]
            part['moved'] = len(moved)
            if len(moved) > 1:
                part.violation('%s: the target moves %d surfaces: %s' % (label, len(moved), moved))
            want = [i for i, r in enumerate(recs) if r['focused']]
            if moved and not want:
                part.violation('%s: surface %s is moved, but the target is not between the surfaces' % (label, moved))
    return part


def run(ctx):
    ctx.rule = ('one run of the processor per combination; non-trivial: every record of the products, identified by '
                'case, surface and stack size')
    items = []
    for name in TRACKS:
        for shape in ((14, 9), (5, 5, 5), (1, 8), (2, 2, 9)):
            items.append((name, shape, None, {}, {}))
        for j in range(-3, 15):
            items.append((name, (10, 8), (j, 0.37, 0.0, 0.0), {'N_looks_stack_cnf': 4}, {}))
        for j, side, alt in itertools.product((2, 6), (-0.05, 0.3), (0.0, 300.0)):
            items.append((name, (10, 8), (j, 0.61, side, alt), {'N_looks_stack_cnf': 4}, {}))
    for name, j in itertools.product(('apart-north', 'apart-south', 'apart-equator'), range(-2, 12)):
        items.append((name, (7, 10, 6), (j, 0.37, 0.01, 0.0), {'N_looks_stack_cnf': 4}, {}))
    for frac in np.arange(0.0, 1.0, 0.125 if not ctx.thorough else 0.0625):
        for j in (0, 1, 4, 9):
            items.append(('north', (10, 8), (j, float(frac) + 0.011, 0.01, 0.0), {'N_looks_stack_cnf': 4}, {}))
    for chd in ({'prf_sar_chd': 18182.0}, {'freq_ku_chd': 13.0e9}, {'brf_sar_chd': 2.55}):
        items.append(('north', (14, 9), None, {}, chd))
        items.append(('south', (14, 9), (4, 0.4, 0.01, 0.0), {}, chd))
    if ctx.thorough:
        for name, n, j in itertools.product(TRACKS, (4, 7, 12, 15), range(-4, 20)):
            items.append((name, (n, 6, 6), (j, 0.23, 0.01, 0.0), {'N_looks_stack_cnf': 4}, {}))
    ctx.space_note('ground tracks', sorted(TRACKS))
    ctx.space_note('target', 'every interval between bursts from before the first to behind the last, 8 positions in an '
                             'interval, on and beside the track')
    parts = core.pmap(ctx, case, items)
    ctx.notes.append('%d of %d targets moved a surface' % (sum(p.get('moved', 0) == 1 for p in parts),
                                                           sum('moved' in p for p in parts)))
    scen.ambiguities(ctx, parts)
