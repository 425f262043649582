"""The echoes of a point reflector, from first principles: distances, carrier phase, deramped range frequency.

Nothing of the processing is modelled here, only what the instrument sees: burst by burst and pulse by pulse the
distance of the antenna to the reflector.
"""
import math

import numpy as np

from . import l1a


def point(lat, lon, alt, sma=l1a.SMA, smi=l1a.SMI):
    """degrees, m -> Earth-fixed position"""
    lat, lon = math.radians(lat), math.radians(lon)
    e2 = 1 - (smi / sma) ** 2
    n = sma / math.sqrt(1 - e2 * math.sin(lat) ** 2)
    return np.array([(n + alt) * math.cos(lat) * math.cos(lon), (n + alt) * math.cos(lat) * math.sin(lon),
                     (n * (1 - e2) + alt) * math.sin(lat)])


def instrument(chd):
    c = dict(l1a.CHD, **(chd or {}))
    return dict(wl=l1a.C / c['freq_ku_chd'], pri=1.0 / c['prf_sar_chd'], np=c['N_ku_pulses_burst_chd'],
                ns=c['N_samples_sar_chd'], t0=1.0 / (c['uso_freq_nom_chd'] * c['alt_freq_multiplier_chd']),
                slope=c['bw_ku_chd'] / c['pulse_length_chd'])


def echo(b, target, chd=None, coupled=True):
    """(pulses, samples) complex: what the burst receives from a reflector of power 1 at an Earth-fixed position.

    Signals of later echoes have the higher frequency after deramping; an approaching reflector has a rising carrier
    phase and, if the delay and the Doppler frequency are coupled (chirp), seems further away."""
    k = instrument(chd)
    p = np.arange(k['np'])
    pos = np.array([b['pos'] + b['vel'] * i * k['pri'] for i in p])
    dist = np.linalg.norm(pos - target, axis=1)
    d0 = dist[0]
    speed = float(np.dot(target - b['pos'], b['vel']) / d0)             # towards the reflector
    delay = 2 * d0 / l1a.C - 2 * b['range'] / l1a.C                     # relative to the receive window
    if coupled:
        delay += 2 * speed / k['wl'] / k['slope']
    x = delay / k['t0']                                                 # in samples
    phase = -4 * math.pi * dist / k['wl']
    return np.exp(1j * phase)[:, None] * np.exp(2j * math.pi * np.arange(k['ns']) * x / k['ns'])[None, :]


def with_target(bursts, target, chd=None, coupled=True, amplitude=1.0):
    out = []
    for b in bursts:
        e = amplitude * echo(b, target, chd, coupled)
        out.append(dict(b, i=e.real, q=e.imag))
    return out


def plain(bursts):
    """no gain, no centre of gravity offset"""
    return [dict(b, agc=0.0, cog=0.0, sig0cal=0.0) for b in bursts]
