"""Run the real L1B processor on a list of bursts and read the products back.

Everything goes through the public interface: L1A file + auxiliary files in, netCDF products out.
"""
import os

import netCDF4 as nc
import numpy as np

from . import core, l1a, refmodel

_fast = False


def fast_fit():
    """Replace scipy's curve fit (most of the run time, and not deterministic in how often it gives up on tiny
    stacks) by a moment estimate.  Must be called before dedop is imported.  The four fitted stack parameters are
    not compared in checks that use it."""
    global _fast
    import scipy.optimize as so

    def curve_fit(f, x, y, *args, **kw):
        x, y = np.asarray(x, float), np.asarray(y, float)
        if x.size < 3:
            raise TypeError('not enough data')
        w = np.abs(y) + 1e-30
        m = float(np.sum(x * w) / np.sum(w))
        s = float(np.sqrt(2 * np.sum((x - m) ** 2 * w) / np.sum(w)))
        return np.array([float(np.max(y)), m, s]), np.eye(3)

    so.curve_fit = curve_fit
    _fast = True


FIT_VARS = ('max_stack', 'stdev_stack', 'skew_stack', 'kurt_stack')


class Product:
    """decoded content of one product file: raw[name], value[name] (floats, no masking), scale[name], globals"""

    def __init__(self, path):
        self.path = path
        self.raw, self.value, self.quantum, self.fill, self.plain = {}, {}, {}, {}, set()
        with nc.Dataset(path) as d:
            d.set_auto_maskandscale(False)
            self.globals = {k: d.getncattr(k) for k in d.ncattrs()}
            self.dims = {k: len(v) for k, v in d.dimensions.items()}
            for name, v in d.variables.items():
                raw = np.array(v[:])
                short = name
                for suffix in ('_l1b_echo_sar_ku', '_l1bs_echo_sar_ku'):
                    if short.endswith(suffix):
                        short = short[:-len(suffix)]
                at = v.ncattrs()
                sf = float(v.getncattr('scale_factor')) if 'scale_factor' in at else None
                ao = float(v.getncattr('add_offset')) if 'add_offset' in at else 0.0
                self.raw[short] = raw
                self.fill[short] = v.getncattr('_FillValue') if '_FillValue' in at else None
                if sf is None and ao == 0.0:
                    self.value[short] = raw
                    self.plain.add(short)
                    self.quantum[short] = 1.0 if raw.dtype.kind in 'iu' else 0.0
                else:
                    sf = 1.0 if sf is None else sf
                    self.value[short] = raw.astype(float) * sf + ao
                    self.quantum[short] = abs(sf) if raw.dtype.kind in 'iu' else 0.0
        self.n = len(self.raw['time'])

    def signature(self, skip=()):
        return {k: v.tobytes() for k, v in sorted(self.raw.items()) if k not in skip}

    def record(self, i, skip=()):
        return {k: v[i].tobytes() for k, v in sorted(self.raw.items())
                if v.ndim and k not in skip and v.shape[0] == self.n}


def names(l1a_path, name='t'):
    base = os.path.splitext(os.path.basename(l1a_path))[0]
    if base.startswith('L1A'):
        base = base[3:]
    mid = '_%s' % base if base else ''
    return 'L1B%s_%s.nc' % (mid, name), 'L1BS%s_%s.nc' % (mid, name)


class Result:
    def __init__(self):
        self.l1b = self.l1bs = None
        self.error = None
        self.status = 'none'


def make_processor(d, cnf=None, chd=None, cst=None, l1bs=True, name='t'):
    from dedop.proc.sar import L1BProcessor
    paths = l1a.write_config(os.path.join(d, 'conf'), cnf, chd, cst)
    return L1BProcessor(name, paths[0], paths[1], paths[2], os.path.join(d, 'out'), skip_l1bs=not l1bs)


def call(proc, path, monitor=None):
    with core.quiet():
        if monitor is None:
            return proc.process(path)
        return proc.process(path, monitor)


def read_products(d, path, l1bs=True, name='t'):
    b, s = names(path, name)
    out = os.path.join(d, 'out')
    pb = Product(os.path.join(out, b))
    ps = Product(os.path.join(out, s)) if l1bs else None
    return pb, ps


def run(bursts, cnf=None, chd=None, cst=None, l1bs=True, ns=l1a.NS, npulse=l1a.NP, file_name='L1A_x.nc',
        globals_=l1a.GLOBALS):
    """one fresh processor, one file -> Result (error set if process() raised)"""
    r = Result()
    with core.scratch('run') as d:
        path = l1a.write_l1a(os.path.join(d, file_name), bursts, ns, npulse, globals_)
        proc = make_processor(d, cnf, chd, cst, l1bs)
        try:
            r.status = call(proc, path)
        except Exception as err:
            if not core.raised_by_code_under_test(err):
                raise
            r.error = err
            return r
        r.l1b, r.l1bs = read_products(d, path, l1bs)
    return r


def merged(base, over):
    out = dict(base)
    for k, v in (over or {}).items():
        if v is None:
            out.pop(k, None)
        else:
            out[k] = v
    return out


def reference(bursts, cnf=None, chd=None, cst=None):
    c, h, s = merged(l1a.CNF, cnf), merged(l1a.CHD, chd), merged(l1a.CST, cst)
    return refmodel.process(bursts, c, h, s), refmodel.Conf(c, h, s)


# ---- comparison with the reference model -------------------------------------------------------------------
_ANG = {'beam_ang', 'look_ang', 'start_look_angle_stack', 'stop_look_angle_stack', 'start_beam_ang_stack',
        'stop_beam_ang_stack'}
_EXTRA = {'lat': 5e-8, 'lon': 1e-9, 'alt': 6e-3, 'x_pos': 1e-4, 'y_pos': 1e-4, 'z_pos': 1e-4, 'range_ku': 6e-3,
          'meas_x_pos': 1e-4, 'meas_y_pos': 1e-4, 'meas_z_pos': 1e-4, 'time': 1e-6, 'UTC_sec': 1e-6,
          'GPS_time': 1e-6, 'x_vel': 1e-6, 'y_vel': 1e-6, 'z_vel': 1e-6, 'orb_alt_rate': 1e-7,
          'scale_factor_ku': 1e-7, 'stack_scale_factor_ku': 1e-7}


def _fits(prod, name, want, q):
    """is the value representable in the packed variable at all?"""
    raw = prod.raw[name]
    if raw.dtype.kind not in 'iu':
        return True
    info = np.iinfo(raw.dtype)
    return info.min <= want / (q or 1) <= info.max


def compare(prod, recs, k, kind, only=None, skip=(), wave_tol=2e-6):
    """list of differences between a product and the reference records; kind: extended, s3, l1bs"""
    diffs = []
    if prod.n != len(recs):
        return ['%d records, expected %d' % (prod.n, len(recs))]
    for i, rec in enumerate(recs):
        want = refmodel.l1bs_record(rec, k) if kind == 'l1bs' else refmodel.l1b_record(rec, k, kind)
        for name, w in want.items():
            if only is not None and name not in only or name in skip:
                continue
            if name == 'waveform':
                d = _wave_diff(prod, i, w, kind, wave_tol)
                if d:
                    diffs.append('record %d waveform: %s' % (i, d))
                continue
            if name == 'iq':
                d = _iq_diff(prod, i, w)
                if d:
                    diffs.append('record %d complex echoes: %s' % (i, d))
                continue
            if name not in prod.value:
                diffs.append('variable %s missing' % name)
                continue
            got = prod.value[name][i]
            tol = 0.51 * prod.quantum[name] + _EXTRA.get(name, 1e-9) + 1e-9
            w = np.asarray(w, float)
            if prod.quantum[name] and prod.raw[name].dtype.kind in 'iu':
                tol = max(tol, prod.quantum[name] * 1.001)
                if name in prod.plain and np.all(w == np.round(w)):
                    tol = 0.0       # counts, days and codes are stored as they are
            if w.ndim:
                got = np.asarray(got, float)[:len(w)]
                if len(got) != len(w) or not np.all(np.abs(got - w) <= tol):
                    diffs.append('record %d %s = %s, expected %s' % (i, name, got[:8], w[:8]))
            else:
                if name == 'lon':
                    err = abs((float(got) - float(w) + 180.0) % 360.0 - 180.0)
                else:
                    err = abs(float(got) - float(w))
                if not err <= tol:
                    diffs.append('record %d %s = %r, expected %r' % (i, name, got, float(w)))
        if len(diffs) > 6:
            break
    return diffs


def waveform(prod, i, kind):
    if kind == 'extended':
        return prod.value['i2q2_meas_ku'][i] * prod.value['i2q2_scale_factor'][i]
    return prod.value['i2q2_meas_ku'][i].astype(float)


def _wave_diff(prod, i, w, kind, wave_tol):
    got = waveform(prod, i, kind)
    if got.shape != w.shape:
        return 'shape %s, expected %s' % (got.shape, w.shape)
    if not np.all(np.isfinite(got)):
        return 'not finite'
    tol = wave_tol * np.max(np.abs(w)) + (0 if kind == 'extended' else 1.001 * prod.quantum['i2q2_meas_ku'])
    tol += 1e-12
    err = np.abs(got - w)
    if not np.all(err <= tol):
        j = int(np.argmax(err))
        return 'sample %d = %r, expected %r' % (j, got[j], w[j])
    return None


def _iq_diff(prod, i, w):
    m = w.shape[0]
    sf = float(prod.value['iq_scale_factor'][i])
    got = (prod.value['i_echoes_ku'][i][:m].astype(float) + 1j * prod.value['q_echoes_ku'][i][:m].astype(float)) * sf
    got = got[:, :w.shape[1]]
    if got.shape != w.shape:
        return 'shape %s, expected %s' % (got.shape, w.shape)
    peak = max(np.max(np.abs(w.real)), np.max(np.abs(w.imag)))
    tol = peak / 127.0 * 1.001 + 1e-12
    err = np.maximum(np.abs(got.real - w.real), np.abs(got.imag - w.imag))
    if not np.all(err <= tol):
        return 'max error %g of peak %g' % (np.max(err), peak)
    return None
