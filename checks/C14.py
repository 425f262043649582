"""C14: a stored number means what was computed, over the whole range that its variable can hold."""
import itertools
import os

import netCDF4 as nc
import numpy as np

from vlib import core, l1a, pipeline, scen

LEVEL = 'exploration'

S = '_l1a_echo_sar_ku'
# variables that are copied from the nearest burst as they are
COPIED = ['isp_coarse_time', 'isp_fine_time', 'sral_fine_time', 'flag_time_status', 'nav_bul_status',
          'nav_bul_source', 'oper_instr', 'SAR_mode', 'cl_gain', 'acq_stat', 'dem_eeprom', 'loss_track', 'h0_nav_dem',
          'h0_applied', 'cor2_nav_dem', 'cor2_applied', 'dh0', 'agccode_ku']
# padding: nothing is stored for beams that the stack does not have
PADDED = {'extended': (('beam_ang', 'size'), ('look_ang', 'size'), ('stack_scale_factor_ku', 'size')),
          's3': (('beam_ang', 'size'),),
          'l1bs': (('beam_ang', 'nstack'), ('i_echoes_ku', 'size'), ('q_echoes_ku', 'size'))}
UNSET = {'extended': ('range_rate', 'beam_form'), 's3': ('range_rate', 'beam_form'),
         'l1bs': ('snr_ku', 'max_loc_stack', 'beam_form', 'power_var_stack')}


def scaled(bursts, f):
    return [dict(b, i=b['i'] * f, q=b['q'] * f) for b in bursts]


def run_case(part, label, bursts, cnf, only=None, skip=(), wave_tol=2e-6):
    pipeline.fast_fit()
    res = scen.check_reference(part, label, bursts, cnf, only=only, skip=skip, wave_tol=wave_tol)
    if res is None or res.error is not None:
        return
    recs, k = pipeline.reference(bursts, cnf)
    for prod, kind in ((res.l1b, scen.kind_of(cnf)), (res.l1bs, 'l1bs')):
        if prod.n != len(recs):
            continue
        for name, key in PADDED[kind]:
            for i, r in enumerate(recs):
                tail = prod.raw[name][i][r[key]:]
                if not np.all(tail == prod.fill[name]):
                    part.violation('%s: %s %s of record %d holds %s beyond its %d beams' % (
                        label, kind, name, i, tail.ravel()[:4], r[key]))
        for name in UNSET[kind]:
            if not np.all(prod.raw[name] == prod.fill[name]):
                part.violation('%s: %s %s is not available, but holds %s' % (label, kind, name, prod.raw[name][:4]))
        for name, v in prod.raw.items():
            if v.dtype.kind == 'f' and not np.all(np.isfinite(v)):
                part.violation('%s: %s %s is not finite' % (label, kind, name))


def amplitude(item):
    f, cnf, silent = item
    part = core.Part()
    bursts = scaled(scen.drained(l1a.orbit(9)), f)
    for i in silent:
        bursts[i] = dict(bursts[i], i=bursts[i]['i'] * 0, q=bursts[i]['q'] * 0)
    label = 'echoes times %g, silent bursts %s, %s' % (f, silent, cnf)
    skip = set()
    # the fixed point waveforms (steps of 0.001) end at 4.29e6
    if f > 100:
        run_ext = scen.kind_of(cnf) == 'extended'
        if not run_ext:
            return part
        pipeline.fast_fit()
        recs, k = pipeline.reference(bursts, cnf)
        res = pipeline.run(bursts, cnf)
        part.count(evaluations=1, traces=1, states=len(recs))
        part.nontriv(label)
        if res.error is not None:
            part.violation('%s: processing failed: %s' % (label, res.error))
            return part
        for d in pipeline.compare(res.l1b, recs, k, 'extended')[:3]:
            part.violation('%s: L1B %s' % (label, d))
        for d in pipeline.compare(res.l1bs, recs, k, 'l1bs', skip={'waveform'})[:3]:
            part.violation('%s: L1BS %s' % (label, d))
        return part
    run_case(part, label, bursts, cnf, skip=skip)
    return part


LIMITS = {}


def copied(item):
    """every copied number at the ends of the range of its variable"""
    name, values, fmt = item
    part = core.Part()
    bursts = scen.drained(l1a.orbit(9))
    for i, b in enumerate(bursts):
        v = values[i % len(values)]
        if name == 'seq_count':
            b['seq'] = v
        elif name == 'surf_type':
            b['surf_type'] = v
        else:
            b['over'] = {name + S: v}
    label = '%s = %s, %s' % (name, values, fmt)
    only = {name, 'burst_start_ind', 'burst_stop_ind', 'agc_cor_ku', 'time', 'nb_stack'}
    run_case(part, label, bursts, {'output_format_flag_cnf': fmt}, only=only)
    return part


def packed(item):
    """every packed number over the range of its variable"""
    change, fmt = item
    part = core.Part()
    bursts = scen.drained(l1a.orbit(9))
    for b in bursts:
        for k, vals in change.items():
            b[k] = vals[b['idx'] % len(vals)]
    label = '%s, %s' % (change, fmt)
    skip = {'waveform'} if 'agc' in change or 'sig0cal' in change else set()
    run_case(part, label, bursts, {'output_format_flag_cnf': fmt}, skip=skip)
    return part


def sized(item):
    """every stack size against every length of the beam dimension"""
    n, looks, zp, fmt = item
    part = core.Part()
    bursts = scen.drained(l1a.orbit(n))
    cnf = {'N_looks_stack_cnf': looks, 'zp_fact_range_cnf': zp, 'output_format_flag_cnf': fmt}
    run_case(part, '%d bursts, %s' % (n, cnf), bursts, cnf)
    return part


def generic(item):
    """the writer on its own: what is written is what is read"""
    from dedop.data.output.netcdf_writer import NetCDFWriter
    dtype, scale, offset, fill, shape = item
    part = core.Part()

    class Writer(NetCDFWriter):
        def write_record(self, **values):
            super().write_record(**values)

    dt = np.dtype(dtype)
    kw = {}
    if scale is not None:
        kw['scale_factor'] = scale
    if offset is not None:
        kw['add_offset'] = offset
    if fill is not None:
        kw['fill_value'] = dt.type(fill)
    label = '%s, scale %s, offset %s, fill %s, record shape %s' % (dtype, scale, offset, fill, shape)
    if dt.kind in 'iu':
        info = np.iinfo(dt)
        raws = [info.min, info.min + 1, 0, 1, 7, info.max - 1, info.max]
    else:
        raws = [-1e30, -1.5, 0.0, 1e-30, 2.25, 1e30]
    values = [r * (scale if scale is not None else 1) + (offset if offset is not None else 0) for r in raws]
    if scale is None and offset is None:
        values = raws
    with core.scratch('c14') as d:
        path = os.path.join(d, 'sub', 'x.nc')
        w = Writer(path)
        w.define_dimension('t', None)
        w.define_dimension('a', 3)
        w.define_dimension('b', 4)
        dims = ('t', 'a', 'b')[:1 + len(shape)]
        w.define_variable('v', dt.type, dims, long_name='v', **kw)
        w.define_variable('n', np.int32, ('t',), long_name='n', fill_value=-9)
        w.open()
        sent = []
        for j, val in enumerate(values + [None]):
            if val is None or not shape:
                x = val
            else:
                x = np.full(tuple(s - 1 for s in shape) if j % 2 else shape, val)
            w.write_record(v=x, n=None if j % 3 == 2 else j)
            sent.append(x)
        w.write_global('g', None)
        w.write_globals(h='abc', k=3)
        w.close()
        w.close()
        part.count(evaluations=1, states=len(sent))
        part.nontriv(label)
        with nc.Dataset(path) as ds:
            ds.set_auto_maskandscale(False)
            v = ds['v']
            raw = np.array(v[:])
            want_fill = dt.type(fill) if fill is not None else dt.type(nc.default_fillvals[dt.str[1:]])
            if len(raw) != len(sent):
                part.violation('%s: %d records, expected %d' % (label, len(raw), len(sent)))
                return part
            for key, val in kw.items():
                if v.getncattr('_FillValue' if key == 'fill_value' else key) != val:
                    part.violation('%s: attribute %s is not stored' % (label, key))
            for j, x in enumerate(sent):
                block = np.atleast_1d(raw[j])
                if x is None:
                    covered = np.zeros(block.shape, bool)
                else:
                    covered = np.zeros(block.shape, bool)
                    covered[tuple(slice(0, s) for s in np.shape(x))] = True
                    r = raws[j]
                    got = block[covered]
                    tol = 0 if scale is None and offset is None else (
                        1 if dt.kind in 'iu' else abs(r) * 1e-6 + abs(offset or 0) * 1e-6 / scale)
                    if not np.all(np.abs(got.astype(float) - float(r)) <= tol + abs(float(r)) * 1e-7 * (dt == 'f4')):
                        part.violation('%s: %r is stored as %r, expected %r' % (label, values[j], got[0], r))
                # (an integer variable of one byte has no default fill value)
                if not (fill is None and dt.itemsize == 1) and not np.all(block[~covered] == want_fill):
                    part.violation('%s: record %d holds %r where nothing was written' % (
                        label, j, block[~covered].ravel()[:3]))
            for j in range(len(sent)):
                if ds['n'][j] != (-9 if j % 3 == 2 else j):
                    part.violation('%s: record %d of another variable is %r' % (label, j, ds['n'][j]))
            if ds.getncattr('g') != 'Not available' or ds.getncattr('h') != 'abc' or ds.getncattr('k') != 3:
                part.violation('%s: global attributes %s' % (label, {a: ds.getncattr(a) for a in ds.ncattrs()}))
    return part


def ends(typ):
    i = np.iinfo(typ)
    return [int(i.max), int(i.min), int(i.max) - 1, 0, 1]


def run(ctx):
    ctx.rule = ('one run of the processor per combination; non-trivial: every record of the products, identified by '
                'case, surface and stack size, and every packing of the writer')
    fmts = ('extended', 'sentinel-3')
    amps = []
    for f in (0.0, 1e-12, 1e-8, 1e-4, 1e-2, 1.0, 30.0, 1e4, 1e8, 1e12):
        for fmt, zp in itertools.product(fmts, (1, 2)):
            for silent in ((), (3,), (0, 1, 2, 3, 4)):
                amps.append((f, {'output_format_flag_cnf': fmt, 'zp_fact_range_cnf': zp}, silent))
    # types of the product variables, i.e. the range that can be asked for
    types = {n: 'i1' for n in COPIED}
    types.update(isp_coarse_time='u4', isp_fine_time='i4', sral_fine_time='u4', h0_nav_dem='u4', h0_applied='u4',
                 cor2_nav_dem='i2', cor2_applied='i2', dh0='i4', agccode_ku='i1', seq_count='u2', surf_type='i1')
    cops = [(n, tuple(ends(t)), fmt) for n, t in types.items() for fmt in fmts]
    if ctx.thorough:
        cops += [(n, (v,), fmt) for n, t in types.items() for v in ends(t) for fmt in fmts]
    packs = []
    for fmt in fmts:
        for ch in ({'agc': (0.0, 0.01, 62.99)}, {'agc': (-3.0,)}, {'sig0cal': (-100.0, 0.005, 100.0)},
                   {'alt_rate': (-327.0, 0.0, 327.0)}, {'alt_rate': (0.004, -0.004)},
                   {'roll': (-3.2, 0.0, 3.2), 'pitch': (3.2, -3.2), 'yaw': (0.00005, 3.1)},
                   {'cog': (-3.2, 0.0, 3.2)}, {'cog': (0.00004,)}, {'pitch_pointing': (0.0, 60.0)},
                   {'day': (0, 1, 32766)}, {'day': (-1, -32768)}, {'sec': (0.0, 43200.123456)}):
            packs.append((ch, fmt))
    for typ, (sc, off), fill, shape in itertools.product(
            ('i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'f4', 'f8'),
            ((None, None), (1e-4, 0.0), (1e-2, 700.0), (0.5, -3.0), (2.0, None)),
            (None, 99), ((), (3,), (3, 4))):
        # (the ends of 64 bits are not floating point numbers)
        if typ != 'i8' or sc is None:
            packs.append((typ, sc, off, fill, shape))
    gen = [p for p in packs if len(p) == 5]
    packs = [p for p in packs if len(p) == 2]
    looks = range(1, 14)
    sizes = [(n, k, zp, fmt) for n in ((7, 12) if not ctx.thorough else range(4, 17)) for k in looks
             for zp in ((1,) if not ctx.thorough else (1, 2)) for fmt in fmts]
    parts = core.pmap(ctx, amplitude, amps)
    parts += core.pmap(ctx, copied, cops)
    parts += core.pmap(ctx, packed, packs)
    parts += core.pmap(ctx, sized, sizes)
    core.pmap(ctx, generic, gen)
    scen.ambiguities(ctx, parts)
    ctx.space_note('echo strength', '0, 1e-12 .. 1e12, with silent bursts')
    ctx.space_note('copied numbers', '%d variables at the ends of their range' % len(types))
    ctx.space_note('packed numbers', '%d sets of values' % (len(packs) // 2))
    ctx.space_note('stacks', 'every number of looks 1..13')
    ctx.space_note('writer', '%d packings and shapes' % len(gen))
