"""C28: a point reflector is focused to its true distance in the record of the surface it is on, with full power."""
import itertools
import math

import numpy as np

from vlib import core, l1a, pipeline, reflector

LEVEL = 'exploration'

TRACKS = {
    'north': dict(), 'south-west': dict(lat0=-50.0, lon0=-120.0, heading=-80.0),
    'polar': dict(lat0=81.0, lon0=170.0, heading=12.0), 'equator': dict(lat0=-0.04, lon0=0.0, heading=80.0),
    'date line': dict(lat0=20.0, lon0=179.99, heading=20.0),
    'climbing': dict(climb=24.0), 'sinking': dict(lat0=-30.0, heading=-75.0, climb=-24.0),
}
WINDOWS = {'sine': lambda i: 0.0, 'steps': lambda i: 40.0 * (i % 3), 'ramp': lambda i: 3.0 * i,
           'flat': None}


def scene(n, track, window, ns, npulse, brf):
    kw = dict(TRACKS[track], ns=ns, npulse=npulse, brf=brf)
    bursts = l1a.orbit(n, **kw)
    for i, b in enumerate(bursts):
        move = WINDOWS[window]
        b['range'] = b['alt'] - 10.0 if move is None else b['range'] + move(i)
    tail = l1a.shift_time(l1a.orbit(3, tag=9, **dict(kw, lat0=kw.get('lat0', 10.0) - 3.0)), 500.0)
    return reflector.plain(bursts + tail)


def shape(size, zp, x):
    """the power of one reflector at (fractional) sample x of a waveform of ``size`` samples, peak 1"""
    n = size // zp
    d = (np.arange(size) - x) / zp
    num, den = np.sin(math.pi * d), n * np.sin(math.pi * d / n)
    safe = np.abs(den) > 1e-12
    return np.where(safe, (num / np.where(safe, den, 1)) ** 2, 1.0)


def place(b, vel, up, across):
    """a point above (and at a right angle to the track beside) the surface of a record"""
    p = reflector.point(b[0], b[1], b[2] + up)
    e = np.cross(p, vel)
    return p + across * e / np.linalg.norm(e)


def case(item):
    pipeline.fast_fit()
    name, n, track, window, ns, npulse, brf, cnf, chd, targets = item
    part = core.Part()
    fmt = cnf.get('output_format_flag_cnf', 'extended')
    kind = 'extended' if fmt == 'extended' else 's3'
    chd = dict({'N_samples_sar_chd': ns, 'N_ku_pulses_burst_chd': npulse}, **chd)
    if brf:
        chd['brf_sar_chd'] = brf
    cnf = dict({'azimuth_window_width_cnf': npulse, 'flag_stack_masking_cnf': False, 'N_looks_stack_cnf': npulse,
                'flag_cal1_corrections_cnf': False, 'flag_cal2_correction_cnf': False}, **cnf)
    zp = cnf.get('zp_fact_range_cnf', l1a.CNF['zp_fact_range_cnf'])
    coupled = cnf.get('flag_doppler_range_correction_cnf', True)
    masked = cnf['flag_stack_masking_cnf']
    # (the fan of beams of the approximate method is evenly spaced, the surfaces are not where the speed varies)
    fan = cnf.get('flag_azimuth_processing_method_cnf') == 'approx' and 'climb' in TRACKS[track]
    averaged = not masked or cnf.get('flag_avoid_zeros_in_multilooking_cnf', True)
    bursts = scene(n, track, window, ns, npulse, brf)
    label = '%s: %d bursts of %d pulses, track %s, window %s, %s' % (name, n, npulse, track, window, cnf)
    size = ns * zp
    k = reflector.instrument(chd)
    ideal = float(npulse * ns) / zp

    def run(recs):
        r = pipeline.run(recs, cnf, chd, ns=ns, npulse=npulse)
        part.count(evaluations=1)
        if r.error is not None:
            raise r.error
        return r

    quiet = run(bursts).l1b
    end = bursts[n - 1]['time'] + 1.0
    geo = [(quiet.value['lat'][i], quiet.value['lon'][i], quiet.value['alt'][i] - quiet.value['range_ku'][i])
           for i in range(quiet.n) if quiet.value['time'][i] <= end]
    if not geo:
        return part         # too few looks for any surface of the segment
    which = range(len(geo)) if len(geo) <= 16 else sorted(set(
        list(range(3)) + list(range(len(geo) - 3, len(geo))) + list(range(3, len(geo) - 3, len(geo) // 4))))
    for i in which:
        for up, across in targets:
            vel = np.array([quiet.value[a + '_vel'][i] for a in 'xyz'])
            t = place(geo[i], vel, up, across)
            r = run(reflector.with_target(bursts[:n], t, chd, coupled) +
                    [dict(b, i=b['i'] * 0, q=b['q'] * 0) for b in bursts[n:]])
            what = '%s: reflector %.1f m above and %.0f m beside surface %d of %d' % (label, up, across, i, len(geo))
            part.count(states=1)
            part.nontriv((label, i, up, across))
            p = r.l1b
            if p.n != quiet.n:
                part.violation('%s: %d records instead of %d' % (what, p.n, quiet.n))
                continue
            sat = np.array([p.value[a + '_pos'][i] for a in 'xyz'])
            x = (float(np.linalg.norm(sat - t)) - p.value['range_ku'][i]) * 2 / l1a.C / k['t0'] * zp + size / 2.0
            wave = pipeline.waveform(p, i, kind)
            want = ideal * shape(size, zp, x)
            near = int(round(x))
            if masked:
                # only what is around the middle of the window is in the receive window of the beams near nadir
                sel = [near] if abs(x - near) < 0.1 else []
            else:
                sel = np.arange(size)
            d = (np.arange(size) - x + size / 2.0) % size - size / 2.0
            if abs(d[int(np.argmax(wave))]) > 0.5 + 0.1 * zp:
                part.violation('%s: the peak is at sample %d, the distance says %.2f' % (what, int(np.argmax(wave)), x))
            if averaged:
                tol = (0.15 if fan else 0.03) * ideal
                if len(sel) and not np.all(np.abs(wave[sel] - want[sel]) <= tol):
                    part.violation('%s: the power around the peak (sample %d) is %s, expected %s' % (
                        what, near, np.round(wave[max(0, near - 1):near + 2], 3),
                        np.round(want[max(0, near - 1):near + 2], 3)))
            if not masked and up == 0 and across == 0:
                peaks = [float(np.max(pipeline.waveform(p, j, kind))) for j in range(len(geo))]
                if int(np.argmax(peaks)) != i:
                    part.violation('%s: the reflector is strongest in record %d' % (what, int(np.argmax(peaks))))
            # every beam of the stack
            q = r.l1bs
            m = int(q.value['nb_stack'][i])
            iq = q.raw['i_echoes_ku'][i][:m].astype(float) ** 2 + q.raw['q_echoes_ku'][i][:m].astype(float) ** 2
            if not masked and m:
                for j in range(m):
                    if abs(d[int(np.argmax(iq[j]))]) > 0.5 + 0.1 * zp:
                        part.violation('%s: beam %d of %d has its peak at sample %d, the distance says %.2f' % (
                            what, j, m, int(np.argmax(iq[j])), x))
                        break
                top = iq.max(axis=1)
                if top.min() < (0.7 if fan else 0.9) * top.max():
                    part.violation('%s: the beams do not all see the reflector equally: %s' % (
                        what, np.round(top / top.max(), 2)))
    part.sample('%s -> %d surfaces' % (label, len(geo)))
    return part


def run(ctx):
    ctx.rule = ('every surface of every segment in turn carries the reflector (on it, above it, beside it); '
                'non-trivial: the record of the surface is in the products')
    on = [(0.0, 0.0)]
    around = on + [(0.7, 0.0), (-1.3, 0.0), (2.0, 300.0)]
    items = []
    for method in ('approx', 'exact'):
        m = {'flag_azimuth_processing_method_cnf': method}
        for n in (1, 2, 3, 4, 5, 6, 7, 9, 12):
            items.append(('length', n, 'north', 'sine', 16, 8, None, dict(m, N_looks_stack_cnf=1), {}, on))
            items.append(('length', n, 'sinking', 'steps', 16, 8, None, dict(m, N_looks_stack_cnf=3), {}, on))
        for track in TRACKS:
            for window in WINDOWS:
                items.append(('track', 11, track, window, 16, 8, None, m, {}, on))
        for npulse in (4, 5, 6, 7, 10, 12, 16):
            items.append(('pulses', npulse + 3, 'north', 'sine', 16, npulse, 0.34 * npulse, m, {}, on))
            items.append(('pulses', 3, 'north', 'sine', 16, npulse, 0.34 * npulse, dict(m, N_looks_stack_cnf=2), {}, on))
        for zp, ns in itertools.product((1, 2, 4), (8, 32)):
            items.append(('beside', 10, 'north', 'sine', ns, 8, None, dict(m, zp_fact_range_cnf=zp), {}, around))
        for dop, fmt in itertools.product((True, False), ('extended', 'sentinel-3')):
            items.append(('flags', 10, 'climbing', 'sine', 16, 8, None,
                          dict(m, flag_doppler_range_correction_cnf=dop, output_format_flag_cnf=fmt), {}, on))
        for avoid in (True, False):
            items.append(('mask', 10, 'north', 'flat', 64, 8, None,
                          dict(m, flag_stack_masking_cnf=True, flag_avoid_zeros_in_multilooking_cnf=avoid), {}, on))
        for chd in ({'prf_sar_chd': 18182.0}, {'freq_ku_chd': 13.0e9}, {'bw_ku_chd': 3.5e8},
                    {'pulse_length_chd': 4.9e-5}, {'uso_freq_nom_chd': 1.1e7}):
            items.append(('instrument', 10, 'north', 'sine', 16, 8, None, m, chd, on))
        items.append(('full instrument', 70, 'north', 'sine', 16, 64, 21.5, m, {}, on))
        items.append(('full instrument', 20, 'climbing', 'steps', 16, 64, 21.5, dict(m, N_looks_stack_cnf=8), {}, on))
    if ctx.thorough:
        for method, track, window, n in itertools.product(('approx', 'exact'), TRACKS, WINDOWS, (2, 5, 8, 14, 20)):
            items.append(('thorough', n, track, window, 16, 8, None,
                          {'flag_azimuth_processing_method_cnf': method, 'N_looks_stack_cnf': 3}, {}, around))
        for method, n in itertools.product(('approx', 'exact'), (33, 64, 100)):
            items.append(('full instrument', n, 'south-west', 'sine', 16, 64, 21.5,
                          {'flag_azimuth_processing_method_cnf': method, 'N_looks_stack_cnf': 20}, {}, on))
    items.sort(key=lambda i: -i[1] * i[5])
    ctx.space_note('tracks and receive windows', '%s x %s' % (sorted(TRACKS), sorted(WINDOWS)))
    ctx.space_note('segments', '1..20 bursts, 4..64 pulses per burst')
    ctx.space_note('reflector', 'on, above, below and beside every surface')
    core.pmap(ctx, case, items)
