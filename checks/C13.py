"""C13: the processor sees every record exactly as it is in the L1A file, in any order, packed or not; calibrations."""
import itertools
import math
import os

import netCDF4 as nc
import numpy as np

from vlib import core, l1a, pipeline, scen

LEVEL = 'model_checking'

S = '_l1a_echo_sar_ku'


def fields(b):
    """what a packet must say about a burst"""
    r = math.radians
    rng = b['range'] + math.cos(r(b['pitch_pointing'])) * b['cog']
    out = dict(time_sar_ku=b['time'], days=b['day'], seconds=b['sec'], lat_sar_sat=r(b['lat']), lon_sar_sat=r(b['lon']),
               alt_sar_sat=b['alt'], alt_rate_sat_sar=b['alt_rate'], x_sar_sat=b['pos'][0], y_sar_sat=b['pos'][1],
               z_sar_sat=b['pos'][2], x_vel_sat_sar=b['vel'][0], y_vel_sat_sar=b['vel'][1], z_vel_sat_sar=b['vel'][2],
               roll_sar=r(b['roll']), pitch_sar=r(b['pitch']), yaw_sar=r(b['yaw']), source_seq_count=b['seq'],
               agc_ku=b['agc'], sig0_cal_ku=b['sig0cal'], surf_type=b['surf_type'], cog_cor=b['cog'],
               win_delay_sar_ku=rng * 2 / l1a.C, waveform_cor_sar=(b['i'] + 1j * b['q']) * 10 ** (b['agc'] / 20.0),
               cal1_power=b['cal1_power'], cal1_phase=b['cal1_phase'], cal2_array=b['gprw'][1],
               int_path_cor_ku=0.25 + 0.01 * (b['misc'] % 7), uso_cor=0.125 + 0.01 * (b['misc'] % 5))
    for n in ('isp_coarse_time', 'isp_fine_time', 'sral_fine_time', 'flag_time_status', 'nav_bul_status',
              'nav_bul_source', 'oper_instr', 'SAR_mode', 'cl_gain', 'acq_stat', 'dem_eeprom', 'loss_track',
              'h0_nav_dem', 'h0_applied', 'cor2_nav_dem', 'cor2_applied', 'dh0', 'agccode_ku'):
        out[n] = l1a.misc_value(n + S, b)
    return out


# what everything downstream reads from a packet; the rest is seen in the products (last part)
def differences(packet, b):
    bad = []
    for name, want in fields(b).items():
        got = np.asarray(getattr(packet, name))
        want = np.asarray(want)
        if got.shape != want.shape and got.size == want.size:
            got = got.reshape(want.shape)
        if got.shape != want.shape or not np.all(np.abs(got - want) <= 1e-12 * (1 + np.abs(want))):
            bad.append('%s = %s, expected %s' % (name, got.ravel()[:3], want.ravel()[:3]))
    return bad


class Env:
    def __init__(self, d):
        from dedop.conf import CharacterisationFile, ConfigurationFile, ConstantsFile
        cnf, cst, chd = l1a.write_config(os.path.join(d, 'conf'))
        self.cst = ConstantsFile(cst)
        self.chd = CharacterisationFile(self.cst, chd)
        self.cnf = ConfigurationFile(cnf)

    def open(self, path, cnf=None):
        from dedop.data.input.l1a import L1ADataset
        return L1ADataset(path, cst=self.cst, chd=self.chd, cnf=cnf or self.cnf)


def at(ds, i):
    try:
        return ds[i]
    except IndexError:
        return IndexError


def access(item):
    """every sequence of reads over the interesting positions of one file"""
    n, depth, first = item
    part = core.Part()
    bursts = l1a.orbit(n, ns=4, npulse=4)
    with core.scratch('c13') as d:
        env = Env(d)
        path = l1a.write_l1a(os.path.join(d, 'L1A_x.nc'), bursts, ns=4, npulse=4)
        spots = sorted({i for i in (0, 1, 39, 40, 41, 79, 80, 81, n - 1, n, n + 1, -1, -n) if i <= n + 1})
        for seq in itertools.product(spots, repeat=depth - 1):
            seq = (first,) + seq
            ds = env.open(path)
            part.count(evaluations=1, traces=1)
            part.nontriv('%d %s' % (n, seq))
            for k, i in enumerate(seq):
                part.count(states=1, transitions=1)
                p = at(ds, i)
                if not 0 <= i < n:
                    if p is not IndexError:
                        part.violation('file of %d records, reads %s: record %d does not exist, but is returned' % (
                            n, seq[:k + 1], i))
                    continue
                if p is IndexError:
                    part.violation('file of %d records, reads %s: record %d refused' % (n, seq[:k + 1], i))
                    continue
                for x in differences(p, bursts[i]):
                    part.violation('file of %d records, reads %s: %s' % (n, seq[:k + 1], x))
                # whoever gets a packet may calibrate it in place
                p.waveform_cor_sar *= 0.5
            ds.close()
        part.sample('file of %d records: all sequences of %d reads starting with %d over %s' % (n, depth, first, spots))
    return part


def walking(item):
    """sequential reading with random reads in between, and of two files at a time"""
    n, m = item
    part = core.Part()
    A, B = l1a.orbit(n, ns=4, npulse=4), l1a.orbit(m, ns=4, npulse=4, tag=5, lat0=-40.0)
    with core.scratch('c13') as d:
        env = Env(d)
        pa = l1a.write_l1a(os.path.join(d, 'L1A_a.nc'), A, ns=4, npulse=4)
        pb = l1a.write_l1a(os.path.join(d, 'L1A_b.nc'), B, ns=4, npulse=4)

        def same(p, b, what):
            part.count(states=1, transitions=1)
            if p is None:
                part.violation('%s: record is missing' % what)
                return
            for x in differences(p, b):
                part.violation('%s: %s' % (what, x))

        a = env.open(pa)
        if len(a) != n:
            part.violation('file of %d records has length %d' % (n, len(a)))
        if abs(float(a.first_time()) - A[0]['time']) > 1e-9 or abs(float(a.last_time()) - A[-1]['time']) > 1e-9:
            part.violation('file of %d records: first and last time are %r, %r' % (n, a.first_time(), a.last_time()))
        for i in range(n):
            same(next(a), A[i], 'file of %d records, record %d in sequence' % (n, i))
        for _ in range(2):
            try:
                next(a)
                part.violation('file of %d records: reading goes on after the end' % n)
            except StopIteration:
                pass
        got = list(a)
        if len(got) != n:
            part.violation('iteration over a file of %d records gives %d' % (n, len(got)))
        for i, p in enumerate(got[:n]):
            same(p, A[i], 'file of %d records, record %d of the iteration' % (n, i))
        a.close()
        # two files in lock step, with jumps in between
        a, b = env.open(pa), env.open(pb)
        for i in range(max(n, m)):
            if i < n:
                same(next(a), A[i], 'two files of %d and %d records, record %d of the first' % (n, m, i))
            if i < m:
                same(next(b), B[i], 'two files of %d and %d records, record %d of the second' % (n, m, i))
                same(b[m - 1 - i], B[m - 1 - i], 'two files, record %d of the second, backwards' % (m - 1 - i))
            if i < n:
                same(a[(i * 37) % n], A[(i * 37) % n], 'two files, jump to record %d of the first' % ((i * 37) % n))
        g = a.read_globals()
        for k, v in l1a.GLOBALS.items():
            if getattr(g, k) != v:
                part.violation('global attribute %s is %r, expected %r' % (k, getattr(g, k), v))
        a.close()
        b.close()
        part.count(evaluations=1, traces=1)
        part.nontriv('walk %d %d' % (n, m))
        part.sample('files of %d and %d records read in sequence, by iteration, in lock step and with jumps' % (n, m))
    return part


def partial(item):
    """files in which some records do not take part (no position, outside of the region): the others are read once and in
    order, by iteration and in sequence, and record numbers are those of the file"""
    n, blank, region = item
    part = core.Part()
    label = 'file of %d records, without position: %s, region %s' % (n, blank, region)
    bursts = l1a.orbit(n, ns=4, npulse=4)
    step = bursts[1]['lat'] - bursts[0]['lat'] if n > 1 else 1.0
    for i in blank:
        bursts[i] = dict(bursts[i], lat=0.0, lon=0.0)
    lo, hi = region
    limits = {}
    if lo is not None:
        limits['min_lat_cnf'] = l1a.orbit(n, ns=4, npulse=4)[lo]['lat'] - step / 2
    if hi is not None:
        limits['max_lat_cnf'] = l1a.orbit(n, ns=4, npulse=4)[hi]['lat'] + step / 2
    want = [i for i in range(n) if i not in blank and (lo is None or i >= lo) and (hi is None or i <= hi)]
    with core.scratch('c13') as d:
        env = Env(d)
        from dedop.conf import ConfigurationFile
        cnf = ConfigurationFile(**dict(l1a.CNF, **limits))
        ds = env.open(l1a.write_l1a(os.path.join(d, 'L1A_x.nc'), bursts, ns=4, npulse=4), cnf)

        def walk():
            while True:
                try:
                    yield next(ds)
                except StopIteration:
                    return

        for how, got in (('iteration', list(ds)), ('sequence', list(walk())), ('second iteration', list(ds))):
            part.count(evaluations=1, traces=1, states=len(got))
            got = [p for p in got if p is not None]
            if len(got) != len(want):
                part.violation('%s: %d records in %s, expected %d' % (label, len(got), how, len(want)))
            for p, i in zip(got, want):
                for x in differences(p, bursts[i])[:1]:
                    part.violation('%s, %s, record %d: %s' % (label, how, i, x))
        for i in (-n - 1, -n, -2, -1, 0, n // 2, n - 1, n, n + 1):
            p = at(ds, i)
            part.count(transitions=1)
            if (p is IndexError) != (not 0 <= i < n):
                part.violation('%s: record %d %s' % (label, i, 'is refused' if p is IndexError else 'is returned'))
            elif p is not IndexError:
                # (Cartesian positions follow from the geodetic ones)
                for x in [x for x in differences(p, bursts[i]) if i not in blank or '_sar_sat' not in x][:1]:
                    part.violation('%s, record %d: %s' % (label, i, x))
        ds.close()
    part.nontriv(label)
    return part


# name -> (type, scale, offset): as in the real L1A products
PACKINGS = {
    'ints': {'lat': ('i4', 1e-6, 0.0), 'lon': ('i4', 1e-6, 0.0), 'alt': ('i4', 1e-4, 700000.0),
             'orb_alt_rate': ('i2', 1e-2, 0.0), 'range_ku': ('i4', 1e-4, 700000.0), 'agc_ku': ('i4', 1e-2, 0.0),
             'sig0_cal_ku': ('i4', 1e-2, 0.0), 'i_meas_ku': ('i1', 0.0078125, 0.0), 'q_meas_ku': ('i1', 0.0078125, 0.0),
             'burst_power_cor_ku': ('u2', 1e-4, 0.0), 'burst_phase_cor_ku': ('i2', 1e-4, 0.0),
             'gprw_meas_ku': ('u2', 1e-4, 0.0), 'roll_sral_mispointing': ('i2', 1e-4, 0.0),
             'pitch_sral_mispointing': ('i2', 1e-4, 0.0), 'yaw_sral_mispointing': ('i2', 1e-4, 0.0),
             'cog_cor': ('i4', 1e-4, 0.0), 'int_path_cor_ku': ('i4', 1e-4, 0.0), 'uso_cor': ('i4', 1e-4, 0.0)},
    'offsets': {'lat': ('i4', 1e-6, 5.0), 'lon': ('i4', 1e-6, -10.0), 'i_meas_ku': ('u1', 0.0078125, -1.0),
                'q_meas_ku': ('u1', 0.0078125, -1.0), 'agc_ku': ('i2', 0.01, 30.0), 'gprw_meas_ku': ('u2', 1e-4, 0.25)},
    'offset only': {'alt': ('f8', None, 800000.0), 'range_ku': ('f8', None, 800000.0)},
    'floats': {'i_meas_ku': ('f4', None, None), 'q_meas_ku': ('f4', None, None), 'lat': ('f4', None, None)},
    'fill values': {'lat': ('i4', 1e-6, 0.0, 2147483647), 'surf_type': ('i1', None, None, 3),
                    'i_meas_ku': ('i1', 0.0078125, 0.0, 0), 'agc_ku': ('i4', 1e-2, 0.0, 3000),
                    'seq_count': ('i4', None, None, 1003)},
}


def packed_copy(src, dst, packing):
    """a file with packed variables and its plain twin; both hold the same numbers"""
    with nc.Dataset(src) as s, nc.Dataset(dst + '.plain.nc', 'w') as p, nc.Dataset(dst, 'w') as q:
        for t in (p, q):
            for k in s.ncattrs():
                t.setncattr(k, s.getncattr(k))
            for name, dim in s.dimensions.items():
                t.createDimension(name, len(dim))
        for name, v in s.variables.items():
            v.set_auto_maskandscale(False)
            vals = np.array(v[:])
            spec = packing.get(name[:-len(S)] if name.endswith(S) else name)
            if spec is None:
                for t in (p, q):
                    t.createVariable(name, v.dtype, v.dimensions)[:] = vals
                continue
            typ, scale, offset, *fill = spec
            raw = vals.astype(float)
            if offset is not None:
                raw = raw - offset
            if scale is not None:
                raw = raw / scale
            dt = np.dtype(typ)
            if dt.kind in 'iu':
                info = np.iinfo(dt)
                raw = np.clip(np.round(raw), info.min, info.max)
            raw = raw.astype(dt)
            w = q.createVariable(name, dt, v.dimensions, fill_value=dt.type(fill[0]) if fill else None)
            w.set_auto_maskandscale(False)
            if scale is not None:
                w.scale_factor = float(scale)
            if offset is not None:
                w.add_offset = float(offset)
            w[:] = raw
            plain = raw
            if scale is not None:
                plain = plain * float(scale)
            if offset is not None:
                plain = plain + float(offset)
            t = p.createVariable(name, v.dtype if v.dtype.kind in 'iu' else 'f8', v.dimensions)
            t[:] = plain
    return dst, dst + '.plain.nc'


def packed(item):
    name, cnf, shape = item
    pipeline.fast_fit()
    part = core.Part()
    label = 'packing "%s", %s' % (name, cnf)
    bursts = []
    for i, n in enumerate(shape):
        bursts += l1a.shift_time(l1a.orbit(n, tag=i), 100.0 * i)
    with core.scratch('c13') as d:
        src = l1a.write_l1a(os.path.join(d, 'src.nc'), bursts)
        p, q = packed_copy(src, os.path.join(d, 'L1A_x.nc'), PACKINGS[name])
        results = []
        for k, path in enumerate((p, q)):
            sub = os.path.join(d, str(k))
            os.makedirs(sub)
            same_name = os.path.join(sub, 'L1A_x.nc')
            os.rename(path, same_name)
            proc = pipeline.make_processor(sub, cnf)
            try:
                pipeline.call(proc, same_name)
            except Exception as err:
                part.violation('%s: the %s file cannot be processed: %s: %s' % (
                    label, ('packed', 'plain')[k], type(err).__name__, err))
                return part
            r = pipeline.Result()
            r.l1b, r.l1bs = pipeline.read_products(sub, same_name)
            results.append(r)
            part.count(evaluations=1, states=r.l1b.n, traces=1)
            part.nontriv('%s %d' % (label, k))
        a, b = results
        for x, y, what in ((a.l1b, b.l1b, 'L1B'), (a.l1bs, b.l1bs, 'L1BS')):
            if x.n != y.n:
                part.violation('%s: %d %s records, expected %d' % (label, x.n, what, y.n))
                continue
            for v in y.value:
                u, w = x.value[v].astype(float), y.value[v].astype(float)
                tol = 1.001 * y.quantum[v] if v not in y.plain else 0.0
                if y.raw[v].dtype.kind == 'f':
                    tol = 1e-6 * (1e-300 + np.max(np.abs(w[np.isfinite(w)]), initial=0))
                if v in ('i_echoes_ku', 'q_echoes_ku', 'i2q2_meas_ku'):
                    tol = 1.001
                if u.shape != w.shape or not np.all((np.abs(u - w) <= tol) | (np.isnan(u) & np.isnan(w))):
                    part.violation('%s: %s %s differs from that of the plain file' % (label, what, v))
        part.sample('%s: %d records as those of the plain file' % (label, a.l1b.n))
    return part


def calibration(item):
    pipeline.fast_fit()
    cnf, change = item
    part = core.Part()
    l1a.NCAL2 = 4
    try:
        calibrated(part, cnf, change)
    finally:
        l1a.NCAL2 = 2
    return part


def calibrated(part, cnf, change):
    bursts = scen.drained(l1a.orbit(10))
    for b in bursts:
        for k, v in change.items():
            b[k] = v(b) if callable(v) else (v if np.isscalar(v) else np.asarray(v, float))
    label = 'calibration %s, %s' % (cnf, sorted((k, str(v)) for k, v in change.items()))
    scen.check_reference(part, label, bursts, dict(cnf, N_looks_stack_cnf=4),
                         only={'waveform', 'iq', 'nb_stack', 'time', 'agc_ku', 'sig0_cal_ku', 'range_ku'})


def cal_cases(thorough):
    ramp = np.linspace(0.3, 2.0, l1a.NP)
    tables = [np.ones((4, l1a.NS)), np.vstack([np.linspace(0.5, 3.0 + i, l1a.NS)[::(-1) ** i] for i in range(4)])]
    changes = [{}]
    changes += [{'cal1_power': ramp}, {'cal1_power': np.zeros(l1a.NP)}, {'cal1_phase': 3 * ramp},
                {'cal1_phase': np.zeros(l1a.NP), 'cal1_power': np.ones(l1a.NP)}]
    changes += [{'gprw': t} for t in tables]
    changes += [{'agc': a, 'sig0cal': s} for a in (0.0, 20.0, 62.0) for s in (-5.0, 0.0, 12.5)]
    changes += [{'cog': c, 'pitch_pointing': p} for c in (0.0, 1.5, -0.7) for p in (0.0, 25.0, -40.0)]
    for c1, c2, idx in itertools.product((True, False), (True, False), (0, 1, 2, 3)):
        for ch in changes:
            yield {'flag_cal1_corrections_cnf': c1, 'flag_cal2_correction_cnf': c2, 'flag_cal2_table_index_cnf': idx}, ch
    for intra, uso in itertools.product((True, False), repeat=2):
        yield {'flag_cal1_intraburst_corrections_cnf': intra, 'flag_uso_correction_cnf': uso}, {}


def run(ctx):
    ctx.rule = ('every sequence of reads over the positions around the ends and the read-ahead blocks of a file, every '
                'packing, every combination of calibration flags and tables; non-trivial: distinct sequences and records')
    items = []
    depth = 3 if ctx.thorough else 2
    for n in (1, 2, 39, 40, 41, 80, 81, 95):
        spots = sorted({i for i in (0, 1, 39, 40, 41, 79, 80, 81, n - 1, n, n + 1, -1, -n) if i <= n + 1})
        for first in spots:
            items.append((n, depth, first))
    if not ctx.thorough:
        items += [(81, 3, f) for f in (0, 39, 40, 80)]
    core.pmap(ctx, access, items)
    core.pmap(ctx, walking, [(n, m) for n in (1, 39, 40, 41, 81, 121) for m in (5, 40, 90)])
    spots = [()] + [(i,) for i in range(5)] + list(itertools.combinations(range(5), 2)) + [(0, 1, 4), (2, 3, 4), (0, 1, 2, 3)]
    regions = [(None, None)] + [(lo, hi) for lo in (None, 0, 1, 2, 4) for hi in (None, 0, 2, 3, 4)
                                if (lo, hi) != (None, None) and (lo or 0) <= (4 if hi is None else hi)]
    core.pmap(ctx, partial, [(5, b, r) for b in spots for r in regions] + [
        (90, b, r) for b in ((), (0, 39, 40, 89), tuple(range(30, 50))) for r in ((None, None), (1, None), (40, 80), (39, 40), (85, None))])
    pk = [(name, cnf, shape) for name in PACKINGS
          for cnf in ({}, {'output_format_flag_cnf': 'sentinel-3'}) for shape in ((9, 5), (30, 20))]
    core.pmap(ctx, packed, pk)
    parts = core.pmap(ctx, calibration, list(cal_cases(ctx.thorough)))
    scen.ambiguities(ctx, parts)
    ctx.space_note('lengths of files', '1, 2, 39, 40, 41, 80, 81, 95 records')
    ctx.space_note('reads', 'all sequences of %d reads over up to 13 positions, also outside of the file' % depth)
    ctx.space_note('packings', sorted(PACKINGS))
    ctx.space_note('calibration', 'both flags x table x powers, phases, gains, tables, centre of gravity')
