"""Synthetic L1A files and auxiliary files: a small but physically consistent SAR altimeter pass.

A burst is a dict of the variables of one L1A record.  ``orbit(n, ...)`` makes a contiguous pass; files are
written from any list of bursts, so a check can cut, drop, zero or reorder records and still know exactly what
the input was.
"""
import json
import math
import os

import netCDF4 as nc
import numpy as np

SMA = 6378137.0
SMI = 6356752.3142
C = 299792458.0
PI = math.pi

NS = 8          # samples per pulse
NP = 8          # pulses per burst
NCAL2 = 2

CST = {
    'semi_major_axis_cst': SMA, 'semi_minor_axis_cst': SMI, 'flat_coeff_cst': 0.00335281067183084,
    'earth_radius_cst': 6378137.0, 'pi_cst': PI, 'c_cst': C, 'sec_in_day_cst': 86400,
}
CHD = {
    'mean_sat_alt_chd': 814500.0, 'N_samples_sar_chd': NS, 'N_ku_pulses_burst_chd': NP,
    'freq_ku_chd': 13575000000.0, 'pulse_length_chd': 4.48e-05, 'bw_ku_chd': 320000000.0,
    'power_tx_ant_ku_chd': 8.451, 'antenna_gain_ku_chd': 41.9, 'uso_freq_nom_chd': 10000000.0,
    'alt_freq_multiplier_chd': 32, 'prf_sar_chd': 17825.311, 'brf_sar_chd': 2.6,
    'ptr_width_chd': 19821, 'fft_step_freq_ku_chd': 22321.43, 'ratio_trc_ku_chd': -98.66,
}
CNF = {
    'flag_cal2_correction_cnf': True, 'flag_uso_correction_cnf': True, 'flag_cal2_table_index_cnf': 1,
    'flag_cal1_corrections_cnf': True, 'flag_cal1_intraburst_corrections_cnf': True,
    'flag_surface_focusing_cnf': False, 'surface_focusing_lat_cnf': 0.0, 'surface_focusing_lon_cnf': 0.0,
    'surface_focusing_alt_cnf': 0.0, 'flag_azimuth_processing_method_cnf': 'approx',
    'flag_postphase_azimuth_processing_cnf': False, 'flag_azimuth_windowing_method_cnf': 'none',
    'azimuth_window_width_cnf': NP, 'flag_doppler_range_correction_cnf': True,
    'flag_slant_range_correction_cnf': True, 'flag_window_delay_alignment_method_cnf': 0,
    'flag_stack_masking_cnf': True, 'flag_avoid_zeros_in_multilooking_cnf': True,
    'flag_surface_weighting_cnf': True, 'flag_antenna_weighting_cnf': False, 'zp_fact_range_cnf': 2,
    'N_looks_stack_cnf': 6, 'output_format_flag_cnf': 'extended',
}
VERSIONS = {'CST': 0, 'CHD': 1, 'CNF': 3}


def write_aux(path, kind, values, **override):
    vals = dict(values)
    for k, v in override.items():
        if v is None:
            vals.pop(k, None)
        else:
            vals[k] = v
    doc = {'__metainf__': {'version': VERSIONS[kind], 'changelog': []}}
    for k, v in vals.items():
        doc[k] = {'value': v, 'units': '', 'description': k}
    with open(path, 'w') as fp:
        json.dump(doc, fp)
    return path


def write_config(d, cnf=None, chd=None, cst=None):
    os.makedirs(d, exist_ok=True)
    return (write_aux(os.path.join(d, 'CNF.json'), 'CNF', CNF, **(cnf or {})),
            write_aux(os.path.join(d, 'CST.json'), 'CST', CST, **(cst or {})),
            write_aux(os.path.join(d, 'CHD.json'), 'CHD', CHD, **(chd or {})))


def _lla2ecef(lat, lon, alt):
    e2 = 1 - (SMI / SMA) ** 2
    n = SMA / math.sqrt(1 - e2 * math.sin(lat) ** 2)
    return ((n + alt) * math.cos(lat) * math.cos(lon), (n + alt) * math.cos(lat) * math.sin(lon),
            (n * (1 - e2) + alt) * math.sin(lat))


def orbit(n, lat0=10.0, lon0=20.0, heading=80.0, t0=1000.0, brf=None, ns=NS, npulse=NP, utc_sec0=1000.0, day0=5000,
          tag=0, leap_at=None, direction=+1, rng_seed=0, climb=0.0):
    """n contiguous bursts of a circular pass; deterministic content depending only on (args, index);
    climb: vertical speed, m/s; the speed varies then, too"""
    brf = brf or CHD['brf_sar_chd']
    dt = 1.0 / brf
    alt = 814500.0
    out = []
    speed = 7540.0
    ang = speed / (SMA + alt)  # rad/s along track
    h = math.radians(heading) * direction
    lat_r, lon_r = math.radians(lat0), math.radians(lon0)

    def pos(t):
        d = ang * t
        lat = math.asin(math.sin(lat_r) * math.cos(d) + math.cos(lat_r) * math.sin(d) * math.sin(h))
        lon = lon_r + math.atan2(math.cos(h) * math.sin(d) * math.cos(lat_r),
                                 math.cos(d) - math.sin(lat_r) * math.sin(lat))
        return lat, lon

    for i in range(n):
        t = i * dt
        r = np.random.RandomState((rng_seed * 7919 + tag * 104729 + i * 31 + 17) % (2 ** 31))
        a = alt + 30.0 * math.sin(0.3 * i)
        lat, lon = pos(t)
        p = np.array(_lla2ecef(lat, lon, a))
        q = np.array(_lla2ecef(*pos(t + 0.01), a))
        q0 = np.array(_lla2ecef(*pos(t - 0.01), a))
        v = (q - q0) / 0.02
        if climb:
            a += climb * t
            p = np.array(_lla2ecef(lat, lon, a))
            v = v + climb * np.array([math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon), math.sin(lat)])
            v = v * (1 + 0.01 * math.sin(0.7 * i))
        utc = utc_sec0 + t
        day = day0
        while utc >= 86400.0:
            utc -= 86400.0
            day += 1
        rec = {
            'time': t0 + t, 'day': day, 'sec': utc, 'lat': math.degrees(lat), 'lon': math.degrees(lon), 'alt': a,
            'alt_rate': climb - 1.5 + 0.01 * i, 'pos': p, 'vel': v,
            'roll': 0.01 + 0.0005 * i, 'pitch': -0.02 + 0.0004 * i, 'yaw': 0.03 - 0.0003 * i,
            'pitch_pointing': 8.0, 'cog': -0.5, 'range': a - 5.0 - 8.0 * math.sin(0.21 * i + tag),
            'agc': 30.0 + (i % 5), 'sig0cal': 2.0 + 0.1 * (i % 3), 'seq': (1000 + i + 500 * tag) % 16384,
            'idx': i, 'tag': tag,
            'i': r.uniform(-1, 1, (npulse, ns)), 'q': r.uniform(-1, 1, (npulse, ns)),
            'cal1_power': r.uniform(0.5, 2.0, (npulse,)), 'cal1_phase': r.uniform(-1, 1, (npulse,)),
            'gprw': r.uniform(0.5, 2.0, (NCAL2, ns)),
            'surf_type': i % 4, 'misc': i,
        }
        out.append(rec)
    return out


def shift_time(bursts, dt):
    """the same bursts, dt seconds later (UTC follows)"""
    res = []
    for b in bursts:
        c = dict(b)
        c['time'] = b['time'] + dt
        sec = b['sec'] + dt
        day = b['day']
        while sec >= 86400.0:
            sec -= 86400.0
            day += 1
        c['sec'], c['day'] = sec, day
        res.append(c)
    return res


def zeroed(b):
    """the invalid form of a burst: its position is missing (latitude = longitude = 0)"""
    c = dict(b)
    c['lat'] = 0.0
    c['lon'] = 0.0
    return c


GLOBALS = {'mission_name': 'Sentinel 3A', 'altimeter_sensor_name': 'SRAL', 'gnss_sensor_name': 'GNSS',
           'doris_sensor_name': 'DORIS', 'references': 'ref', 'acq_station_name': 'CGS',
           'xref_altimeter_level0': 'l0', 'history': 'h', 'product_name': 'S3A_SR_1_SRA_A__2016'}

_MISC_INT = {
    'isp_coarse_time_l1a_echo_sar_ku': 7, 'isp_fine_time_l1a_echo_sar_ku': 11, 'flag_time_status_l1a_echo_sar_ku': 0,
    'sral_fine_time_l1a_echo_sar_ku': 13, 'burst_count_prod_l1a_echo_sar_ku': 1,
    'burst_count_cycle_l1a_echo_sar_ku': 1, 'nav_bul_status_l1a_echo_sar_ku': 0, 'nav_bul_source_l1a_echo_sar_ku': 0,
    'oper_instr_l1a_echo_sar_ku': 0, 'SAR_mode_l1a_echo_sar_ku': 0, 'cl_gain_l1a_echo_sar_ku': 0,
    'acq_stat_l1a_echo_sar_ku': 0, 'dem_eeprom_l1a_echo_sar_ku': 0, 'weighting_l1a_echo_sar_ku': 0,
    'loss_track_l1a_echo_sar_ku': 0, 'h0_nav_dem_l1a_echo_sar_ku': 3, 'h0_applied_l1a_echo_sar_ku': 5,
    'cor2_nav_dem_l1a_echo_sar_ku': 2, 'cor2_applied_l1a_echo_sar_ku': 3, 'dh0_l1a_echo_sar_ku': 1,
    'agccode_ku_l1a_echo_sar_ku': 1, 'agccode_c_l1a_echo_sar_ku': 1,
    'cal2_ku_ind_l1a_echo_sar_ku': 0, 'cal1_ku_ind_l1a_echo_sar_ku': 0,
}
_MOD = {'flag_time_status_l1a_echo_sar_ku': 2, 'nav_bul_status_l1a_echo_sar_ku': 3,
        'nav_bul_source_l1a_echo_sar_ku': 4, 'oper_instr_l1a_echo_sar_ku': 2, 'SAR_mode_l1a_echo_sar_ku': 3,
        'cl_gain_l1a_echo_sar_ku': 2, 'acq_stat_l1a_echo_sar_ku': 3, 'dem_eeprom_l1a_echo_sar_ku': 2,
        'weighting_l1a_echo_sar_ku': 2, 'loss_track_l1a_echo_sar_ku': 2, 'agccode_ku_l1a_echo_sar_ku': 40,
        'agccode_c_l1a_echo_sar_ku': 40}


def misc_value(name, b):
    over = b.get('over', {})
    if name in over:
        return over[name]
    v = _MISC_INT[name] * 100 + b['misc'] * (1 + _MISC_INT[name])
    return v % _MOD[name] if name in _MOD else v


def write_l1a(path, bursts, ns=NS, npulse=NP, globals_=GLOBALS):
    n = len(bursts)
    d = nc.Dataset(path, 'w', format='NETCDF4')
    try:
        T = 'time_l1a_echo_sar_ku'
        d.createDimension(T, n)
        d.createDimension('echo_sample_ind', ns)
        d.createDimension('sar_ku_pulse_burst_ind', npulse)
        d.createDimension('sar_c_pulse_burst_ind', 2)
        d.createDimension('ltm_max_ind', NCAL2)
        for name, size in (('echo_sample_ind', ns), ('sar_ku_pulse_burst_ind', npulse),
                           ('sar_c_pulse_burst_ind', 2), ('ltm_max_ind', NCAL2)):
            d.createVariable(name, 'f8', (name,))[:] = np.arange(size)

        def put(name, values, dims=(T,), typ='f8'):
            v = d.createVariable(name + '_l1a_echo_sar_ku', typ, dims)
            if n:
                v[:] = np.asarray(values)

        put('time', [b['time'] for b in bursts])
        put('UTC_day', [b['day'] for b in bursts], typ='i4')
        put('UTC_sec', [b['sec'] for b in bursts])
        put('UTC_time_20hz', [b['time'] for b in bursts])
        put('lat', [b['lat'] for b in bursts])
        put('lon', [b['lon'] for b in bursts])
        put('alt', [b['alt'] for b in bursts])
        put('orb_alt_rate', [b['alt_rate'] for b in bursts])
        for k, ax in enumerate('xyz'):
            put(ax + '_pos', [b['pos'][k] for b in bursts])
            put(ax + '_vel', [b['vel'][k] for b in bursts])
        for a in ('roll', 'pitch', 'yaw'):
            put(a + '_sral_mispointing', [b[a] for b in bursts])
            put(a + '_sat_pointing', [b['pitch_pointing'] if a == 'pitch' else b[a] for b in bursts])
        put('range_ku', [b['range'] for b in bursts])
        put('int_path_cor_ku', [0.25 + 0.01 * (b['misc'] % 7) for b in bursts])
        put('uso_cor', [0.125 + 0.01 * (b['misc'] % 5) for b in bursts])
        put('cog_cor', [b['cog'] for b in bursts])
        put('agc_ku', [b['agc'] for b in bursts])
        put('scale_factor_ku', [1.0] * n)
        put('sig0_cal_ku', [b['sig0cal'] for b in bursts])
        put('surf_type', [b['surf_type'] for b in bursts], typ='i1')
        put('seq_count', [b['seq'] for b in bursts], typ='i4')
        P = 'sar_ku_pulse_burst_ind'
        S = 'echo_sample_ind'
        put('i_meas_ku', [b['i'] for b in bursts] if n else 0, (T, P, S))
        put('q_meas_ku', [b['q'] for b in bursts] if n else 0, (T, P, S))
        put('gprw_meas_ku', [b['gprw'] for b in bursts] if n else 0, (T, 'ltm_max_ind', S))
        put('burst_power_cor_ku', [b['cal1_power'] for b in bursts] if n else 0, (T, P))
        put('burst_phase_cor_ku', [b['cal1_phase'] for b in bursts] if n else 0, (T, P))
        for name in _MISC_INT:
            v = d.createVariable(name, 'i8', (T,))
            if n:
                v[:] = np.asarray([misc_value(name, b) for b in bursts])
        for k, v in globals_.items():
            d.setncattr(k, v)
    finally:
        d.close()
    return path
