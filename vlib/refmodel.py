"""Reference model of the L1B processing: the whole pass at once, no queues, no streaming, no state.

It says what the product of a list of bursts is *by definition*; the checks compare the real products with it.
The model shares no code with the code under test.  Decisions that hang on a floating point tie raise Ambiguous,
so a comparison never depends on rounding.
"""
import math

import numpy as np

PI = math.pi
MARGIN = 1e-11
MARGIN_DOP = 1e-7      # where the doppler angle enters: it is near zero, and an arc cosine is noisy there


class Ambiguous(Exception):
    pass


def lla2ecef(lat, lon, alt, cst):
    a, b = cst['semi_major_axis_cst'], cst['semi_minor_axis_cst']
    e2 = 1 - (b / a) ** 2
    n = a / math.sqrt(1 - e2 * math.sin(lat) ** 2)
    return np.array([(n + alt) * math.cos(lat) * math.cos(lon), (n + alt) * math.cos(lat) * math.sin(lon),
                     (n * (1 - e2) + alt) * math.sin(lat)])


def ecef2lla(p, cst):
    """iterative (Bowring start, Newton-like refinement): accurate to nanometres, also at the poles"""
    a = cst['semi_major_axis_cst']
    f = cst['flat_coeff_cst']
    b = a * (1 - f)
    e2 = f * (2 - f)
    x, y, z = (float(v) for v in p)
    r = math.hypot(x, y)
    lat = math.atan2(z, r * (1 - e2))
    for _ in range(12):
        s = math.sin(lat)
        n = a / math.sqrt(1 - e2 * s * s)
        lat = math.atan2(z + e2 * n * s, r)
    s, c = math.sin(lat), math.cos(lat)
    n = a / math.sqrt(1 - e2 * s * s)
    alt = r * c + z * s - a * a / n
    return lat, math.atan2(y, x), alt


def angle(u, v):
    u = np.asarray(u, float).ravel()
    v = np.asarray(v, float).ravel()
    c = float(np.dot(u, v) / (np.linalg.norm(u) * np.linalg.norm(v)))
    return math.acos(max(-1.0, min(1.0, c)))


class Conf:
    """plain values of the three auxiliary files"""

    def __init__(self, cnf, chd, cst):
        self.cnf, self.chd, self.cst = cnf, chd, cst
        self.c = cst['c_cst']
        self.ns = chd['N_samples_sar_chd']
        self.np = chd['N_ku_pulses_burst_chd']
        self.pri = 1.0 / chd['prf_sar_chd']
        self.bri = 1.0 / chd['brf_sar_chd']
        self.wl = self.c / chd['freq_ku_chd']
        self.t0 = 1.0 / (chd['uso_freq_nom_chd'] * chd['alt_freq_multiplier_chd'])
        self.zp = cnf['zp_fact_range_cnf']
        self.looks = cnf['N_looks_stack_cnf']


class Burst:
    pass


def prepare(rec, index, k):
    """one valid L1A record, calibrated"""
    b = Burst()
    b.rec, b.index = rec, index
    b.time, b.day, b.sec = rec['time'], rec['day'], rec['sec']
    b.lat, b.lon, b.alt = math.radians(rec['lat']), math.radians(rec['lon']), rec['alt']
    b.vel = np.asarray(rec['vel'], float)
    b.v = float(np.linalg.norm(b.vel))
    b.roll, b.pitch, b.yaw = (math.radians(rec[n]) for n in ('roll', 'pitch', 'yaw'))
    rng = rec['range'] + math.cos(math.radians(rec['pitch_pointing'])) * rec['cog']
    b.wd = rng * 2 / k.c
    b.pos = lla2ecef(b.lat, b.lon, b.alt, k.cst)
    b.gnd = lla2ecef(b.lat, b.lon, b.alt - rng, k.cst)
    up = np.array([math.cos(b.lat) * math.cos(b.lon), math.cos(b.lat) * math.sin(b.lon), math.sin(b.lat)])
    tangent = b.vel - up * np.dot(up, b.vel)
    b.dop = math.atan2(float(np.dot(up, b.vel)), float(np.linalg.norm(tangent)))
    w = (rec['i'] + 1j * rec['q']) * 10 ** (rec['agc'] / 20.0)
    if k.cnf['flag_cal1_corrections_cnf']:
        gain = 10 ** ((rec['agc'] - rec['sig0cal']) / 20.0)
        w = w * (np.sqrt(rec['cal1_power']) * np.exp(1j * rec['cal1_phase']) / gain)[:, None]
    if k.cnf['flag_cal2_correction_cnf']:
        gprw = rec['gprw'][k.cnf['flag_cal2_table_index_cnf']]
        spec = np.fft.fft(w, axis=1) / np.sqrt(np.fft.ifftshift(gprw))[None, :]
        w = np.fft.ifft(spec, axis=1)
    b.wfm = w
    return b


def select(recs, k):
    """the records that take part: inside the region of interest (inclusive) and with a position"""
    out = []
    cnf = k.cnf
    for i, r in enumerate(recs):
        ok = True
        for key, lo, val in (('min_lat_cnf', True, r['lat']), ('max_lat_cnf', False, r['lat']),
                             ('min_lon_cnf', True, r['lon']), ('max_lon_cnf', False, r['lon'])):
            lim = cnf.get(key)
            if lim is not None and ((lo and val < lim) or (not lo and val > lim)):
                ok = False
        if r['lat'] == 0.0 and r['lon'] == 0.0:
            ok = False
        if ok:
            out.append((i, r))
    return out


def segments(recs, k):
    segs, prev = [], None
    for i, r in select(recs, k):
        if prev is None or r['time'] - prev >= 1.5 * k.bri:
            if prev is not None and abs(r['time'] - prev - 1.5 * k.bri) < 1e-9:
                raise Ambiguous('gap')
            segs.append([])
        segs[-1].append(prepare(r, i, k))
        prev = r['time']
    return segs


class Surface:
    pass


def resolution(vel, k):
    return math.asin(k.c / (2 * k.chd['freq_ku_chd'] * float(np.linalg.norm(vel)) * k.np * k.pri))


def place_surfaces(seg, k, state):
    """surface locations of one segment; state carries the counter and whether the target has been found"""
    out = []
    focusing = k.cnf['flag_surface_focusing_cnf']
    target = None
    if focusing:
        target = lla2ecef(math.radians(k.cnf['surface_focusing_lat_cnf']),
                          math.radians(k.cnf['surface_focusing_lon_cnf']), k.cnf['surface_focusing_alt_cnf'], k.cst)
    for j, b in enumerate(seg):
        s = Surface()
        if not out:
            s.time, s.pos, s.sat, s.vel = b.time, b.gnd.copy(), b.pos.copy(), b.vel.copy()
            s.lat, s.lon, s.alt = b.lat, math.remainder(b.lon, 2 * PI), b.alt - b.wd * k.c / 2
            s.sat_lla = (b.lat, b.lon, b.alt)
            s.arate, s.roll, s.pitch, s.yaw = b.rec['alt_rate'], b.roll, b.pitch, b.yaw
            s.wd = b.wd
            s.utc = (b.day, b.sec)
        else:
            last = out[-1]
            ang = angle(last.ref_vec, b.gnd - last.sat)
            if abs(ang - last.res) < MARGIN:
                raise Ambiguous('surface spacing')
            if ang < last.res:
                continue
            p = seg[j - 1]
            ang0 = angle(last.ref_vec, p.gnd - last.sat)
            al = (last.res - ang0) / (ang - ang0)

            def mix(u, v):
                return u + al * (v - u)

            s.alpha = al
            s.time = mix(p.time, b.time)
            s.pos, s.sat, s.vel = mix(p.gnd, b.gnd), mix(p.pos, b.pos), mix(p.vel, b.vel)
            s.lat, s.lon, s.alt = ecef2lla(s.pos, k.cst)
            s.sat_lla = ecef2lla(s.sat, k.cst)
            s.arate = mix(p.rec['alt_rate'], b.rec['alt_rate'])
            s.roll, s.pitch, s.yaw = mix(p.roll, b.roll), mix(p.pitch, b.pitch), mix(p.yaw, b.yaw)
            s.wd = (s.sat_lla[2] - s.alt) * 2 / k.c
            leap = (b.time - (b.day * 86400.0 + b.sec)) - (p.time - (p.day * 86400.0 + p.sec))
            daylen = 86400.0 + leap if b.day != p.day else 86401.0     # or inside a leap second
            sec = p.sec + (s.time - p.time)
            s.utc = (p.day + 1, sec - daylen) if sec >= daylen else (p.day, sec)
        s.ref_vec = s.pos - s.sat
        s.res = resolution(s.vel, k)
        s.focused = False
        if focusing:
            s.dist = float(np.linalg.norm(target - s.pos))
            if len(out) > 1 and not state.get('focus_found'):
                if abs(s.dist - out[-1].dist) < 1e-6 or abs(out[-1].dist - out[-2].dist) < 1e-6:
                    raise Ambiguous('focus')
                if s.dist > out[-1].dist and out[-1].dist <= out[-2].dist:
                    state['focus_found'] = True
                    m = out[-1]
                    m.focused = True
                    d = m.pos - out[-2].pos
                    d = d / np.linalg.norm(d)
                    m.pos = out[-2].pos + d * float(np.dot(target - out[-2].pos, d))
                    m.lat, m.lon, m.alt = ecef2lla(m.pos, k.cst)
                    m.wd = (m.sat_lla[2] - m.alt) * 2 / k.c
        s.counter = state.setdefault('count', 0)
        state['count'] += 1
        out.append(s)
    return out


def visible(b, surfaces, k):
    qmin = math.acos(k.c / k.pri / 4 / k.chd['freq_ku_chd'] / b.v)
    seen = []
    started = False
    for n, s in enumerate(surfaces):
        d = s.pos - b.pos
        a = math.acos(float(np.dot(d, b.vel)) / (float(np.linalg.norm(d)) * b.v))
        t = a - b.dop
        if abs(t - qmin) < MARGIN_DOP or abs(PI - qmin - t) < MARGIN_DOP:
            raise Ambiguous('visibility')
        if qmin <= t <= PI - qmin:
            started = True
            seen.append((n, a))
        elif started:
            break
    return seen[-k.np:]


def window(k):
    m, w = k.cnf['flag_azimuth_windowing_method_cnf'], k.cnf['azimuth_window_width_cnf']
    full = np.zeros(k.np)
    lo = k.np // 2 - w // 2
    n = np.arange(w)
    if m == 'none':
        full[:] = 1
    elif m == 'boxcar' or w == 1:
        full[lo:lo + w] = 1
    elif m == 'hamming':
        full[lo:lo + w] = 0.54 - 0.46 * np.cos(2 * PI * n / (w - 1))
    elif m == 'hanning':
        full[lo:lo + w] = 0.5 - 0.5 * np.cos(2 * PI * n / (w - 1))
    else:
        raise ValueError(m)
    return full


def steer(b, theta, k):
    """the burst, its pulses brought into phase for direction theta, transformed along azimuth"""
    p = np.arange(k.np)
    ph = np.exp(-1j * 4 * PI / k.wl * b.v * math.cos(theta) * k.pri * p)
    w = b.wfm * (window(k) * ph)[:, None]
    return np.fft.fftshift(np.fft.fft(w, axis=0, norm='ortho'), axes=0)


def focus_beams(b, k):
    n = len(b.seen)
    angles = [a for _, a in b.seen]
    half = k.np // 2
    if k.cnf['flag_azimuth_processing_method_cnf'] == 'exact':
        return [steer(b, a, k)[half] for a in angles]
    if n == 0:
        return []
    if b.trend == 1:
        nadir = 0 if n < half else n - half
    elif b.trend == -1:
        nadir = n - 1 if n <= half else half
    else:
        nadir = half
    f = steer(b, angles[nadir], k)
    return [f[half - nadir + i] for i in range(n)]   # the central beam looks at the nadir surface


def antenna_weight(ang, k):
    return float(np.interp(ang, np.asarray(k.chd['antenna_angles_chd'], float),
                           np.asarray(k.chd['antenna_weights_chd'], float)))


def process(recs, cnf, chd, cst):
    """-> list of record dicts, in product order"""
    k = Conf(cnf, chd, cst)
    out = []
    state = {}
    for seg in segments(recs, k):
        out.extend(process_segment(seg, k, state))
    return out


def process_segment(seg, k, state):
    surfaces = place_surfaces(seg, k, state)
    for s in surfaces:
        s.stack = []
    size_prev, trend_prev = -1, -1
    for b in seg:
        b.seen = visible(b, surfaces, k)
        n = len(b.seen)
        if n == k.np:
            b.trend = 0
        elif size_prev == -1 or n > size_prev:
            b.trend = 1
        elif n < size_prev:
            b.trend = -1
        else:
            b.trend = trend_prev
        size_prev, trend_prev = n, b.trend
        b.beams = focus_beams(b, k)
        for i, (sn, a) in enumerate(b.seen):
            surfaces[sn].stack.append((b, a, b.beams[i]))
    out = []
    for s in surfaces:
        r = finish_surface(s, k)
        if r is not None:
            out.append(r)
    return out


def finish_surface(s, k):
    st = s.stack
    look = np.array([PI / 2 + b.dop - a for b, a, _ in st])
    if len(st) >= k.looks:
        order = np.argsort(np.abs(look), kind='stable')
        srt = np.abs(look)[order]
        if len(srt) > k.looks and srt[k.looks] - srt[k.looks - 1] < MARGIN_DOP:
            raise Ambiguous('stack window')
        lo = int(order[:k.looks].min())
        st = st[lo:lo + k.looks]
        look = look[lo:lo + k.looks]
    m = len(st)
    if m < k.looks // 2:
        return None
    ang = np.array([a for _, a, _ in st])
    dop = np.array([b.dop for b, _, _ in st])
    point = np.array([l - b.pitch for l, (b, _, _) in zip(look, st)])
    off90 = np.abs(ang - PI / 2)
    srt = np.sort(off90)
    if m > 1 and srt[1] - srt[0] < MARGIN:
        raise Ambiguous('closest burst')
    close = st[int(np.argmin(off90))][0]

    rngs = np.array([float(np.linalg.norm(b.pos - s.pos)) for b, _, _ in st])
    shift = np.zeros(m)
    for i, (b, a, _) in enumerate(st):
        if k.cnf['flag_doppler_range_correction_cnf']:
            shift[i] += 2 / k.c * (-k.c / k.wl * b.v * math.cos(a) * k.chd['pulse_length_chd'] /
                                   k.chd['bw_ku_chd']) / k.t0
        if k.cnf['flag_slant_range_correction_cnf']:
            shift[i] += (s.wd - rngs[i] * 2 / k.c) / k.t0
        shift[i] += -(s.wd - b.wd) / k.t0
    n = np.arange(k.ns)
    size = k.ns * k.zp
    iq = np.empty((m, size), complex)
    for i, (_, _, beam) in enumerate(st):
        iq[i] = np.fft.fftshift(np.fft.fft(np.exp(2j * PI / k.ns * shift[i] * n) * beam, size, norm='ortho'))
    power = np.abs(iq) ** 2

    mask = np.ones((m, size))
    if k.cnf['flag_stack_masking_cnf']:
        lo_ang, hi_ang = k.chd.get('look_angle_mask_min_chd'), k.chd.get('look_angle_mask_max_chd')
        for i in range(m):
            if abs(abs(shift[i] - math.floor(shift[i])) - 0.5) < 1e-6:
                raise Ambiguous('mask rounding')
            c = int(round(shift[i]))
            row = np.zeros(size)
            if c > 0:
                row[min(size, c * k.zp):] = 1
            else:
                row[:max(0, (k.ns + c) * k.zp)] = 1
            if lo_ang is not None and hi_ang is not None:
                if min(abs(look[i] - math.radians(lo_ang)), abs(look[i] - math.radians(hi_ang))) < MARGIN_DOP:
                    raise Ambiguous('look angle mask')
                if not math.radians(lo_ang) < look[i] < math.radians(hi_ang):
                    row[:] = 0
            mask[i] = row
    power = power * mask
    # index of the first of the trailing zeros, or the last index if there are none, 0 if nothing is left
    vec = np.zeros(m)
    for i in range(m):
        nz = np.nonzero(mask[i])[0]
        if len(nz):
            vec[i] = size - 1 if nz[-1] == size - 1 else nz[-1] + 1
    use = [i for i in range(m) if vec[i] != 0]
    weights = np.ones(m)
    if k.cnf['flag_antenna_weighting_cnf']:
        weights = np.array([antenna_weight(p, k) for p in point])
    num, den = np.zeros(size), np.zeros(size)
    for i in use:
        mk = mask[i] if k.cnf['flag_avoid_zeros_in_multilooking_cnf'] else np.ones(size)
        num += power[i] * weights[i] * mk
        den += mk
    wave = np.where(den > 0, num / np.where(den > 0, den, 1), 0.0)

    # sigma0 scaling
    R = k.cst['earth_radius_cst']
    const = 10 * math.log10(64) + 30 * math.log10(PI) - 10 * math.log10(k.chd['power_tx_ant_ku_chd']) \
        - 2 * k.chd['antenna_gain_ku_chd'] - 20 * math.log10(k.wl) + k.chd['ratio_trc_ku_chd'] \
        + 10 * math.log10(k.np)
    sig = np.zeros(m)
    for i, (b, _, _) in enumerate(st):
        r = rngs[i]
        az = (1 + r / R) * k.wl * r / k.pri / (2 * b.v * k.np)
        rd = 2 * math.sqrt(k.c * r * k.chd['ptr_width_chd'] * R / (R + r))
        sig[i] = -(const + 40 * math.log10(r) - 10 * math.log10(az * rd * 0.886) - close.rec['agc'])

    rec = {
        'surface': s, 'counter': s.counter, 'closest': close, 'size': m, 'look': look, 'ang': ang, 'dop': dop,
        'point': point, 'shift': shift, 'iq': iq, 'mask': mask, 'vec': vec, 'wave': wave, 'sig_beam': sig,
        'sigma0': float(np.mean(sig)), 'range': rngs, 'bursts': [b for b, _, _ in st],
        'beam_power': power[:, :(k.ns // 2) * k.zp].sum(axis=1), 'use': use, 'focused': s.focused,
    }
    if use:
        a, z = use[0], use[-1]
        rec['nstack'] = z - a + 1
        rec['span'] = (a, z)
    else:
        rec['nstack'] = 0
        rec['span'] = None
    return rec


# ---- what the products contain ---------------------------------------------------------------------
def _copied(rec):
    from . import l1a
    b = rec['closest'].rec

    def m(n):
        return l1a.misc_value(n + '_l1a_echo_sar_ku', b)

    out = {n: m(n) for n in ('isp_coarse_time', 'isp_fine_time', 'sral_fine_time', 'flag_time_status',
                             'nav_bul_status', 'nav_bul_source', 'oper_instr', 'SAR_mode', 'cl_gain', 'acq_stat',
                             'dem_eeprom', 'loss_track', 'h0_nav_dem', 'h0_applied', 'cor2_nav_dem',
                             'cor2_applied', 'dh0', 'agccode_ku')}
    out['seq_count'] = b['seq']
    out['agc_ku'] = b['agc']
    out['sig0_cal_ku'] = b['sig0cal']
    out['int_path_cor_ku'] = 0.25 + 0.01 * (b['misc'] % 7)
    out['uso_cor'] = 0.125 + 0.01 * (b['misc'] % 5)
    return out


def _common(rec, k):
    s = rec['surface']
    d = math.degrees
    out = {
        'time': s.time, 'UTC_day': s.utc[0], 'UTC_sec': s.utc[1], 'lat': d(s.lat), 'lon': d(s.lon),
        'alt': s.sat_lla[2], 'orb_alt_rate': s.arate,
        'x_pos': s.sat[0], 'y_pos': s.sat[1], 'z_pos': s.sat[2],
        'x_vel': s.vel[0], 'y_vel': s.vel[1], 'z_vel': s.vel[2],
        'range_ku': s.wd * k.c / 2, 'scale_factor_ku': rec['sigma0'],
    }
    return out


def l1b_record(rec, k, fmt):
    s = rec['surface']
    out = _common(rec, k)
    out.update(_copied(rec))
    out['GPS_time'] = s.time + 20 * 365 * 86400 - 19
    out['surf_type'] = rec['closest'].rec['surf_type']
    out['agc_cor_ku'] = out['agc_ku'] - out['agccode_ku']
    if fmt == 'extended':
        d = math.degrees
        out.update(roll_sat_pointing=d(s.roll), pitch_sat_pointing=d(s.pitch), yaw_sat_pointing=d(s.yaw),
                   nb_stack=rec['nstack'], beam_ang=rec['ang'], look_ang=rec['look'])
        out['waveform'] = rec['wave']
        a, z = rec['span'] or (None, None)
        out['start_look_angle_stack'] = rec['look'][a] if rec['span'] else 0.0
        out['stop_look_angle_stack'] = rec['look'][z] if rec['span'] else 0.0
        if rec['span']:
            out['start_beam_ang_stack'] = rec['ang'][a]
        if rec['span']:
            out['stop_beam_ang_stack'] = rec['ang'][z]
        out['stack_mask_vector'] = rec['vec'][a:z + 1] if rec['span'] else np.zeros(0)
        out['stack_scale_factor_ku'] = rec['sig_beam']
    else:
        out.update(nb_stack=rec['size'], beam_ang=-rec['look'])
        out['waveform'] = rec['wave']
    return out


def l1bs_record(rec, k):
    s = rec['surface']
    c = _copied(rec)
    b = rec['closest'].rec
    out = _common(rec, k)
    for n in ('int_path_cor_ku', 'uso_cor', 'agccode_ku', 'agc_ku', 'sig0_cal_ku'):
        out[n] = c[n]
    out.update(records_count=s.counter, meas_x_pos=s.pos[0], meas_y_pos=s.pos[1], meas_z_pos=s.pos[2],
               roll_sat_pointing=math.degrees(s.roll), pitch_sat_pointing=math.degrees(s.pitch),
               yaw_sat_pointing=math.degrees(s.yaw), surf_type=b['surf_type'],
               roll_sral_mispointing=b['roll'], pitch_sral_mispointing=b['pitch'], yaw_sral_mispointing=b['yaw'],
               cog_cor=b['cog'], nb_stack=rec['size'],
               burst_start_ind=rec['bursts'][0].rec['seq'], burst_stop_ind=rec['bursts'][-1].rec['seq'])
    a, z = rec['span'] or (None, None)
    out['beam_ang'] = rec['ang'][a:z + 1] if rec['span'] else np.zeros(0)
    out['start_look_angle_stack'] = rec['look'][a] if rec['span'] else 0.0
    out['stop_look_angle_stack'] = rec['look'][z] if rec['span'] else 0.0
    if rec['span']:
        out['start_beam_ang_stack'] = rec['ang'][a]
    if rec['span']:
        out['stop_beam_ang_stack'] = rec['ang'][z]
    out['waveform'] = rec['wave'] * 10 ** (-b['agc'] / 10.0)
    out['iq'] = rec['iq']
    if not rec['span']:
        out['burst_start_ind'] = out['burst_stop_ind'] = 0
    return out
