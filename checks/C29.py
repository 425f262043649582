"""C29: moving a pass in time or longitude, mirroring it at the equator, or changing the strength, phase or gain of its
echoes changes the products in the corresponding way, and in no other."""
import itertools
import math

import numpy as np

from vlib import core, l1a, pipeline

LEVEL = 'exploration'

PASSES = {
    'north': dict(lat0=10.0, lon0=20.0, heading=80.0), 'south': dict(lat0=-55.0, lon0=-100.0, heading=-75.0),
    'polar': dict(lat0=80.5, lon0=60.0, heading=15.0), 'equator': dict(lat0=-0.1, lon0=100.0, heading=81.0),
    'descending': dict(lat0=35.0, lon0=-20.0, heading=-81.0), 'climbing': dict(lat0=42.0, heading=79.0, climb=20.0),
}


def base(name):
    kw = PASSES[name]
    a = l1a.orbit(13, **kw)
    b = l1a.shift_time(l1a.orbit(5, tag=1, **dict(kw, lat0=kw['lat0'] - 2.0)), 200.0)
    out = []
    for i, r in enumerate(a + b):
        # louder echoes, so that the steps of the stored numbers do not matter
        out.append(dict(r, i=r['i'] * 50, q=r['q'] * 50))
    return out


# ---- what is done to the pass -> what is done to the decoded values of the product --------------------------------
def rotate(bursts, arg):
    c, s = math.cos(math.radians(arg)), math.sin(math.radians(arg))
    turn = np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])
    return [dict(b, lon=(b['lon'] + arg + 180.0) % 360.0 - 180.0, pos=turn @ b['pos'], vel=turn @ b['vel'])
            for b in bursts]


def rotated(v, arg):
    c, s = math.cos(math.radians(arg)), math.sin(math.radians(arg))
    v['lon'] = (v['lon'] + arg + 180.0) % 360.0 - 180.0
    for n in ('%s_pos', '%s_vel', 'meas_%s_pos'):
        if n % 'x' in v:
            x, y = v[n % 'x'], v[n % 'y']
            v[n % 'x'], v[n % 'y'] = c * x - s * y, s * x + c * y


def mirror(bursts, arg):
    flip = np.array([1.0, 1.0, -1.0])
    return [dict(b, lat=-b['lat'], pos=b['pos'] * flip, vel=b['vel'] * flip) for b in bursts]


def mirrored(v, arg):
    for n in ('lat', 'z_pos', 'z_vel', 'meas_z_pos'):
        if n in v:
            v[n] = -v[n]


def later(bursts, arg):
    return [dict(b, time=b['time'] + 86400.0 * arg, day=b['day'] + arg) for b in bursts]


def is_later(v, arg):
    v['time'] = v['time'] + 86400.0 * arg
    v['UTC_day'] = v['UTC_day'] + arg
    if 'GPS_time' in v:
        v['GPS_time'] = v['GPS_time'] + 86400.0 * arg


def stronger(bursts, arg):
    return [dict(b, i=b['i'] * arg, q=b['q'] * arg) for b in bursts]


def is_stronger(v, arg):
    for n in ('waveform', 'stack_power'):
        if n in v:
            v[n] = v[n] * arg ** 2


def turned(bursts, arg):
    w = [(b['i'] + 1j * b['q']) * np.exp(1j * arg) for b in bursts]
    return [dict(b, i=x.real, q=x.imag) for b, x in zip(bursts, w)]


def same(v, arg):
    pass


def gain(bursts, arg):
    f = 10 ** (arg / 20.0)
    return [dict(b, agc=b['agc'] + arg, i=b['i'] / f, q=b['q'] / f, sig0cal=b['sig0cal'] + arg) for b in bursts]


def is_gain(v, arg):
    for n in ('agc_ku', 'agc_cor_ku', 'scale_factor_ku', 'sig0_cal_ku', 'stack_scale_factor_ku'):
        if n in v:
            v[n] = v[n] + np.where(np.abs(v[n]) < 1e6, arg, 0.0)        # (fill values stay)
    if 'agc_power' in v:
        v['waveform'] = v['waveform'] * 10 ** (-arg / 10.0)


def attitude(bursts, arg):
    return [dict(b, roll=b['roll'] + 0.01 * arg, yaw=b['yaw'] - 0.02 * arg) for b in bursts]


def is_attitude(v, arg):
    for n, d in (('roll', 0.01 * arg), ('yaw', -0.02 * arg)):
        for m in ('_sat_pointing', '_sral_mispointing'):
            if n + m in v:
                v[n + m] = v[n + m] + d


CHANGES = {'longitude': (rotate, rotated, (0.5, 90.0, -120.0, 179.9, 'date line', 'Greenwich')), 'hemisphere': (mirror, mirrored, (0,)),
           'days': (later, is_later, (1, -400, 1800)), 'strength': (stronger, is_stronger, (2.0, 0.5, 7.0, 0.0005)),
           'phase': (turned, same, (0.3, math.pi / 2, math.pi)), 'gain': (gain, is_gain, (6.0, -11.0)),
           'attitude': (attitude, is_attitude, (1.0, -30.0))}


def decoded(prod, kind, level):
    v = {n: np.asarray(x, float).copy() for n, x in prod.value.items()}
    raw = prod.raw
    v.pop('i2q2_meas_ku')
    v.pop('i2q2_scale_factor', None)
    v['waveform'] = np.array([pipeline.waveform(prod, i, kind) for i in range(prod.n)])
    if level == 'L1BS':
        v['agc_power'] = np.zeros(1)        # (its waveform has the gain removed)
        s = raw['iq_scale_factor'].astype(float)
        for n in ('i_echoes_ku', 'q_echoes_ku'):
            v.pop(n)
        w = np.abs(raw['i_echoes_ku'].astype(float) + 1j * raw['q_echoes_ku'].astype(float))
        valid = raw['i_echoes_ku'] != prod.fill['i_echoes_ku']
        v['stack_power'] = np.where(valid, w * s[:, None, None], 0.0) ** 2
        v['iq_step'] = s
    return v


SKIP = {'iq_scale_factor', 'iq_step', 'agc_power'}


def case(item):
    pipeline.fast_fit()
    name, change, cnf = item
    do, becomes, args = CHANGES[change]
    part = core.Part()
    fmt = cnf.get('output_format_flag_cnf', 'extended')
    kind = 'extended' if fmt == 'extended' else 's3'
    bursts = base(name)
    ang = np.linspace(-0.05, 0.05, 250)
    chd = {'antenna_angles_chd': [float(x) for x in ang],
           'antenna_weights_chd': [float(x) for x in 0.2 + 0.8 * np.exp(-(ang / 0.02) ** 2)]}
    ref = pipeline.run(bursts, cnf, chd)
    part.count(evaluations=1)
    if ref.error is not None:
        part.violation('pass %s, %s: processing fails: %r' % (name, cnf, ref.error))
        return part
    for arg in args:
        label = 'pass %s, %s changed by %s, %s' % (name, change, arg, cnf)
        if isinstance(arg, str):        # the pass then crosses that meridian
            arg = (180.0 if arg == 'date line' else 0.0) - 0.5 * (bursts[6]['lon'] + bursts[7]['lon'])
        res = pipeline.run(do(bursts, arg), cnf, chd)
        part.count(evaluations=1, states=1)
        if res.error is not None:
            part.violation('%s: processing fails: %r' % (label, res.error))
            continue
        part.nontriv(label)
        for level, kd in (('L1B', kind), ('L1BS', 's3')):
            p, q = (ref.l1b, res.l1b) if level == 'L1B' else (ref.l1bs, res.l1bs)
            if p.n != q.n or p.n == 0:
                part.violation('%s: %s has %d records instead of %d' % (label, level, q.n, p.n))
                continue
            want, got = decoded(p, kd, level), decoded(q, kd, level)
            becomes(want, arg)
            for n in sorted(want):
                if n in SKIP:
                    continue
                a, b = want[n], got[n]
                if n == 'waveform':
                    peak = np.max(np.abs(a), axis=1, keepdims=True)
                    tol = 2e-6 * peak + (1.01 * (p.quantum['i2q2_meas_ku'] * max(1.0, np.max(np.abs(a)) / max(
                        1e-30, np.max(np.abs(want0(p, kd))))) + q.quantum['i2q2_meas_ku']) if kd == 's3' else 0)
                elif n == 'stack_power':
                    f = arg if change == 'strength' else 1.0
                    step = np.maximum(want['iq_step'] * f, got['iq_step'])[:, None, None]
                    tol = 3.0 * step * (np.sqrt(np.maximum(a, b)) + step)
                else:
                    tol = 1.01 * max(p.quantum[n], q.quantum[n]) + 1e-9 * np.abs(a)
                    if n in POSITIONS:
                        tol = tol + 2e-3
                    if n in FITTED:
                        tol = tol + 1e-5 * np.abs(a)
                if n == 'lon':
                    bad = np.abs((a - b + 180.0) % 360.0 - 180.0) > tol + 1e-7
                else:
                    bad = ~(np.abs(a - b) <= tol)
                if np.any(bad):
                    i = tuple(np.argwhere(bad)[0])
                    part.violation('%s: %s: %s%s is %r, expected %r' % (label, level, n, list(i), b[i], a[i]))
    part.sample('pass %s, %s, %s -> %d records' % (name, change, cnf, ref.l1b.n))
    return part


def want0(p, kind):
    return np.array([pipeline.waveform(p, i, kind) for i in range(p.n)])


POSITIONS = {'%s%s_pos' % (m, a) for m in ('', 'meas_') for a in 'xyz'} | {'alt', 'range_ku'}
FITTED = {'stdev_stack', 'skew_stack', 'kurt_stack', 'snr_ku'}


def run(ctx):
    ctx.rule = 'every pass x every change x every configuration; non-trivial: both products are compared'
    cnfs = [{}, {'flag_azimuth_processing_method_cnf': 'exact'}, {'output_format_flag_cnf': 'sentinel-3'},
            {'flag_stack_masking_cnf': False, 'zp_fact_range_cnf': 1},
            {'flag_azimuth_windowing_method_cnf': 'hamming', 'N_looks_stack_cnf': 3},
            {'flag_cal1_corrections_cnf': False, 'flag_cal2_correction_cnf': False},
            {'flag_antenna_weighting_cnf': True, 'flag_avoid_zeros_in_multilooking_cnf': False}]
    if ctx.thorough:
        for m, k, z, c, w in itertools.product(('approx', 'exact'), (True, False), (True, False), (True, False),
                                               ('none', 'hanning')):
            cnfs.append({'flag_azimuth_processing_method_cnf': m, 'flag_stack_masking_cnf': k,
                         'flag_slant_range_correction_cnf': z, 'flag_cal1_corrections_cnf': c,
                         'flag_azimuth_windowing_method_cnf': w})
    items = [(p, c, f) for p in PASSES for c in CHANGES for f in cnfs]
    ctx.space_note('passes', sorted(PASSES))
    ctx.space_note('changes', {k: v[2] for k, v in CHANGES.items()})
    ctx.space_note('configurations', len(cnfs))
    core.pmap(ctx, case, items)
