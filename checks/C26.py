"""C26: inspecting and comparing products shows the numbers of the files, for all small products and plot options."""
import math
import os

from vlib import core

LEVEL = 'exploration'

UNITS = 'seconds since 2000-01-01 00:00:00.0'


def make(path, kind, n, m, variant, extra=()):
    """a small product of the given kind; returns what is in it"""
    import netCDF4 as nc
    import numpy as np
    rng = np.random.RandomState(1000 * n + 10 * m + variant)
    doc = {'lat': 1e-6 * rng.randint(-80000000, 80000000, n), 'lon': 1e-6 * rng.randint(-180000000, 180000000, n),
           'time': 5e8 + np.arange(n) * 0.25 + variant, 'scale': np.array([0.5, 2.0, 0.001, 1e3, 3.0])[rng.randint(0, 5, n)],
           'counts': rng.randint(0, 65536, (n, m)),
           'field': rng.rand(n, m) * (-1) ** variant * 10, 'square': rng.rand(n, 3) - 0.5, 'ramp': np.arange(n) * 1.5 - 2}
    if variant == 2:
        doc['counts'][:] = 0
    if variant == 3:
        doc['counts'][:] = 7
        doc['scale'][:] = 2.0
    s = '_%s_echo_sar_ku' % kind
    with nc.Dataset(path, 'w') as ds:
        ds.setncattr('title', 'variant %d' % variant)
        ds.setncattr('number', np.int32(variant))
        dims = ('time' + s, 'echo_sample_ind')
        ds.createDimension(dims[0], n)
        ds.createDimension(dims[1], m)
        ds.createDimension('three', 3)
        ds.createDimension('unused', 0)

        def put(name, type, dims, data, **atts):
            v = ds.createVariable(name, type, dims)
            v.setncatts(atts)
            v[:] = data
        put('time' + s, 'f8', dims[:1], doc['time'], units=UNITS, calendar='gregorian')
        put('lat' + s, 'i4', dims[:1], doc['lat'], units='degrees', scale_factor=1e-6, add_offset=0.)
        put('lon' + s, 'i4', dims[:1], doc['lon'], units='degrees', scale_factor=1e-6, add_offset=0.)
        put('i2q2_meas_ku' + s, 'u2', dims, doc['counts'], units='count')
        put('scale_factor_ku' + s, 'f8', dims[:1], doc['scale'], units='W/#')
        put('field', 'f8', dims, doc['field'], units='K')
        put('square', 'f8', (dims[0], 'three'), doc['square'])
        put('ramp', 'f8', dims[:1], doc['ramp'], units='m')
        ds.createVariable('scalar', 'i4', ())
    doc['wave'] = doc['scale'][:, None] * doc['counts']
    doc['dims'] = {dims[0]: n, dims[1]: m, 'three': 3, 'unused': 0}
    doc['names'] = {p + s: dims[:1] for p in ('time', 'lat', 'lon', 'scale_factor_ku')}
    doc['names'].update({'i2q2_meas_ku' + s: dims, 'field': dims, 'square': (dims[0], 'three'), 'ramp': dims[:1], 'scalar': ()})
    doc['kind'] = kind
    return doc


def close(a, b, tol=1e-9):
    import numpy as np
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def told(insp, doc):
    """what is wrong with the numbers of an open product"""
    import datetime
    bad = []
    n, m = doc['wave'].shape

    def want(what, got, value, tol=1e-9):
        if not close(got, value, tol):
            bad.append('%s is %s, not %s' % (what, got, value))
    want('lat', insp.lat, doc['lat'])
    want('lon', insp.lon, doc['lon'])
    want('lat_0', insp.lat_0, doc['lat'].mean())
    want('lon_0', insp.lon_0, doc['lon'].mean())
    want('lat_range', insp.lat_range, (doc['lat'].min(), doc['lat'].max()))
    want('lon_range', insp.lon_range, (doc['lon'].min(), doc['lon'].max()))
    want('waveform', insp.waveform, doc['wave'])
    want('waveform_range', insp.waveform_range, (doc['wave'].min(), doc['wave'].max()))
    want('num_times, num_samples', (insp.num_times, insp.num_samples), (n, m))
    want('echo_sample_ind', insp.echo_sample_ind, range(m))

    def seconds(t):
        d = t - type(t)(2000, 1, 1)
        return d.days * 86400 + d.seconds + d.microseconds * 1e-6
    want('time', [seconds(t) for t in insp.time], doc['time'], 1e-12)
    want('time_range', [seconds(t) for t in insp.time_range], (doc['time'].min(), doc['time'].max()), 1e-12)
    want('time_0', seconds(insp.time_0), doc['time'].mean(), 1e-12)
    if list(insp.dim_names) != sorted(doc['dims']) or dict(insp.dim_name_to_size) != doc['dims']:
        bad.append('dimensions %s %s' % (insp.dim_names, insp.dim_name_to_size))
    if list(insp.var_names) != sorted(doc['names']):
        bad.append('variables %s' % insp.var_names)
    by = {}
    for v, d in doc['names'].items():
        by.setdefault(tuple(d), set()).add(v)
    if {k: set(v) for k, v in insp.dim_names_to_var_names.items()} != by:
        bad.append('variables by dimension %s' % insp.dim_names_to_var_names)
    if set(insp.attributes) != {'title', 'number'}:
        bad.append('attributes %s' % insp.attributes)
    if insp.dataset['ramp'][:].tolist() != doc['ramp'].tolist():
        bad.append('the dataset has other data')
    return bad


def numbers(item):
    """all products of one shape, and all pairs with another"""
    from vlib import oldlibs
    oldlibs.install()
    from dedop.ui.compare import compare_l1b_products
    from dedop.ui.inspect import inspect_l1b_product
    kind, n, m, others = item
    part = core.Part()
    with core.scratch('c26') as d:
        docs = {}
        for v in range(4):
            path = os.path.join(d, 'p%d.nc' % v)
            docs[path] = make(path, kind, n, m, v)
            with core.quiet():
                insp = inspect_l1b_product(path)
            part.count(evaluations=1)
            for b in told(insp, docs[path])[:2]:
                part.violation('inspecting a product %s: %s' % ((kind, n, m, v), b))
            if insp.file_path != path:
                part.violation('inspecting %s: the path is %s' % (path, insp.file_path))
            with core.quiet():
                insp.close()
            part.nontriv('%s-%d-%d-%d' % (kind, n, m, v))
        for (kind2, n2, m2) in others:
            for v in (1, 2):
                path = os.path.join(d, 'q%d.nc' % v)
                doc2 = make(path, kind2, n2, m2, v + 10)
                for p, doc in docs.items():
                    for a, da, b, db in ((p, doc, path, doc2), (path, doc2, p, doc)):
                        part.count(evaluations=1)
                        label = 'comparing %s with %s' % (da['wave'].shape, db['wave'].shape)
                        try:
                            with core.quiet():
                                comp = compare_l1b_products(a, b)
                        except ValueError as e:
                            if (n2, m2) == (n, m):
                                part.violation('%s: refused: %s' % (label, e))
                            continue
                        if (n2, m2) != (n, m):
                            part.violation('%s: not refused' % label)
                            continue
                        delta = da['wave'] - db['wave']
                        if not close(comp.waveforms_delta, delta) or not close(
                                comp.waveforms_delta_range, (delta.min(), delta.max())):
                            part.violation('%s: the difference is %s' % (label, comp.waveforms_delta))
                        if tuple(comp.file_paths) != (a, b) or not close(comp.waveforms[0], da['wave']) \
                                or not close(comp.waveforms[1], db['wave']):
                            part.violation('%s: the products are mixed up' % label)
                        bad = told(comp.p1, da) + told(comp.p2, db)
                        if bad:
                            part.violation('%s: %s' % (label, bad[0]))
                        if [x.filepath() for x in comp.datasets] != [a, b]:
                            part.violation('%s: the datasets are mixed up' % label)
                        with core.quiet():
                            comp.close()
                        part.nontriv(core.digest((kind, kind2, n, m, n2, m2, v, p, a)))
                os.remove(path)
    return part


def real(item):
    """the products of the processor can be inspected and compared"""
    import netCDF4 as nc
    import numpy as np
    from vlib import l1a, oldlibs, pipeline, scen
    part = core.Part()
    with core.scratch('c26') as d:
        found = []
        for k, cnf in enumerate(item):
            e = os.path.join(d, str(k))
            os.mkdir(e)
            path = l1a.write_l1a(os.path.join(e, 'L1A_x.nc'), scen.drained(l1a.orbit(12)))
            pipeline.call(pipeline.make_processor(e, dict(cnf)), path)
            found.append([os.path.join(e, 'out', n) for n in pipeline.names(path)])
        oldlibs.install()
        from dedop.ui.compare import compare_l1b_products
        from dedop.ui.inspect import inspect_l1b_product

        def raw(path, kind):
            with nc.Dataset(path) as ds:
                return {n: np.ma.filled(ds['%s_%s_echo_sar_ku' % (n, kind)][:], 0) for n in (
                    'lat', 'lon', 'time', 'i2q2_meas_ku', 'scale_factor_ku')}
        for i, kind in enumerate(('l1b', 'l1bs')):
            docs = [raw(f[i], kind) for f in found]
            waves = [x['scale_factor_ku'][:, None] * x['i2q2_meas_ku'] for x in docs]
            for f, x, w in zip(found, docs, waves):
                with core.quiet():
                    insp = inspect_l1b_product(f[i])
                part.count(evaluations=1)
                if not (close(insp.waveform, w) and close(insp.lat, x['lat']) and close(insp.lon, x['lon'])):
                    part.violation('inspecting a %s product of the processor (%s): other numbers' % (kind, item))
                if len(insp.time) != len(x['time']) or insp.waveform.max() <= 0:
                    part.violation('inspecting a %s product of the processor (%s): no data' % (kind, item))
                insp.close()
            try:
                with core.quiet():
                    comp = compare_l1b_products(found[0][i], found[1][i])
                if waves[0].shape != waves[1].shape:
                    part.violation('comparing products of different size (%s): not refused' % (item,))
                elif not close(comp.waveforms_delta, waves[0] - waves[1]):
                    part.violation('comparing products of the processor (%s): other difference' % (item,))
                comp.close()
            except ValueError as e:
                if waves[0].shape == waves[1].shape:
                    part.violation('comparing products of the processor (%s): %s' % (item, e))
            part.nontriv(core.digest((kind, item)))
    return part


def refused(item):
    """what is no product is refused"""
    import netCDF4 as nc
    from vlib import oldlibs
    oldlibs.install()
    from dedop.ui.compare import compare_l1b_products
    from dedop.ui.inspect import inspect_l1b_product
    part = core.Part()
    with core.scratch('c26') as d:
        good = os.path.join(d, 'good.nc')
        make(good, 'l1b', 2, 2, 0)
        path = os.path.join(d, 'x.nc')
        if item == 'none':
            path = None
        elif item == 'empty':
            path = ''
        elif item == 'l1a':
            with nc.Dataset(path, 'w') as ds:
                ds.createDimension('time_l1a_echo_sar_ku', 2)
                ds.createVariable('time_l1a_echo_sar_ku', 'f8', ('time_l1a_echo_sar_ku',))
        elif item == 'no variables':
            nc.Dataset(path, 'w').close()
        elif item == 'text':
            with open(path, 'w') as fp:
                fp.write('no netCDF')
        for what, call in (('inspect', lambda: inspect_l1b_product(path)), ('first', lambda: compare_l1b_products(path, good)),
                           ('second', lambda: compare_l1b_products(good, path))):
            part.count(evaluations=1)
            try:
                with core.quiet():
                    call()
            except (ValueError, OSError) as e:
                if item in ('none', 'empty', 'l1a', 'no variables') and not isinstance(e, ValueError):
                    part.violation('%s as %s: %s' % (item, what, e))
                part.nontriv('%s-%s' % (item, what))
            else:
                part.violation('%s as %s: not refused' % (item, what))
    return part


# ---- plots ----------------------------------------------------------------------------------------------------
def limits(lo, hi, data):
    return (data.min() if lo is None else lo, data.max() if hi is None else hi)


class Drawn:
    """what the current figure shows"""

    def __init__(self):
        import matplotlib.pyplot as plt
        self.figs = plt.get_fignums()
        fig = plt.gcf()
        self.axes = fig.axes
        self.images = [im for ax in fig.axes for im in ax.images]
        self.lines = [[l.get_xydata() for l in ax.lines] for ax in fig.axes]
        self.labels = [t for ax in fig.axes for t in (ax.get_xlabel(), ax.get_ylabel(), ax.get_title())]


def plots(item):
    """every plot with every option, interactive or into a folder or a document"""
    import numpy as np
    import matplotlib.pyplot as plt
    from vlib import oldlibs
    oldlibs.install()
    from dedop.ui.compare import compare_l1b_products
    from dedop.ui.inspect import inspect_l1b_product
    kind, n, m, how, share, shares = item
    part = core.Part()
    turn = iter(range(10 ** 9))
    with core.scratch('c26') as d:
        a, b = os.path.join(d, 'a.nc'), os.path.join(d, 'b.nc')
        one, two = make(a, kind, n, m, 0), make(b, kind, n, m, 1)
        out = {'show': None, 'dir': os.path.join(d, 'figures', 'deep'), 'pdf': os.path.join(d, 'figures', 'all.pdf')}[how]
        with core.quiet():
            insp, comp = inspect_l1b_product(a, out), compare_l1b_products(a, b, out and out.replace('figures', 'compared'))
        s = '_%s_echo_sar_ku' % kind
        fields = {'field': one['field'], 'square': one['square'], 'i2q2_meas_ku' + s: one['counts']}
        flat = {'ramp': one['ramp'], 'lat' + s: one['lat'], 'lon' + s: one['lon'], 'scale_factor_ku' + s: one['scale']}
        delta = one['wave'] - two['wave']
        pages = [0, 0]
        ranges = [(None, None), (0, None), (None, 0), (0, 5.5), (-1.5, 0), (2.0, 3.0)]

        def go(label, call, check, who=0, file=None):
            if next(turn) % shares != share:
                return          # the turn of another worker
            # figures that stay open must not disturb the following ones
            if how != 'pdf' or sum(pages) % 5 == 0:
                plt.close('all')
            before = len(plt.get_fignums())
            part.count(evaluations=1)
            label = '%s, %s (%d, %d)' % (label, how, n, m)
            try:
                with core.quiet():
                    call()
            except Exception as e:
                part.violation('%s fails: %r' % (label, e))
                return
            drawn = Drawn()
            bad = check(drawn) if len(drawn.figs) == before + 1 else '%d figures' % (len(drawn.figs) - before)
            pages[who] += 1
            if not bad and how == 'dir' and file:
                path = os.path.join((out, out.replace('figures', 'compared'))[who], file)
                if not os.path.isfile(path) or os.path.getsize(path) < 100:
                    bad = 'no file %s' % file
            if bad:
                part.violation('%s: %s' % (label, bad))
            else:
                part.nontriv(core.digest(label))

        def image(data, lo, hi, k=0, names=()):
            def check(drawn):
                if len(drawn.images) != 1:
                    return '%d images' % len(drawn.images)
                im = drawn.images[0]
                if not close(im.get_array(), data):
                    return 'shows other data: %s instead of %s' % (im.get_array().tolist(), data.tolist())
                if not close(im.get_clim(), limits(lo, hi, data)):
                    return 'limits %s, not %s' % (im.get_clim(), limits(lo, hi, data))
                if not all(any(x in t for t in drawn.labels) for x in names):
                    return 'labels %s' % drawn.labels
            return check

        for lo, hi in ranges:
            if limits(lo, hi, one['wave'])[0] <= limits(lo, hi, one['wave'])[1]:
                go('waveform_im(%s, %s)' % (lo, hi), lambda: insp.plot.waveform_im(vmin=lo, vmax=hi), image(one['wave'], lo, hi),
                   file='fig-waveform-im.png')
            if limits(lo, hi, delta)[0] <= limits(lo, hi, delta)[1]:
                go('waveforms_delta_im(%s, %s)' % (lo, hi), lambda: comp.plot.waveforms_delta_im(vmin=lo, vmax=hi),
                   image(delta, lo, hi), 1, file='fig-waveform_delta-im.png')
            for name, data in fields.items():
                if not limits(lo, hi, data)[0] <= limits(lo, hi, data)[1]:
                    continue
                go('im(%s, %s, %s)' % (name, lo, hi), lambda: insp.plot.im(name, zmin=lo, zmax=hi),
                   image(data, lo, hi, names=(name,)), file='fig-%s.png' % name)
                for x, y in ((None, None), (0, None), (None, n - 1), (m - 1 if name != 'square' else 2, 0)):
                    if how == 'show' and (x is None or y is None):
                        continue        # sliders

                    def check(drawn):
                        bad = image(data, lo, hi)(drawn)
                        if bad:
                            return bad
                        marks = [l.tolist() for ls in drawn.lines for l in ls]
                        if y is not None and not any(close(l, np.column_stack([np.arange(data.shape[1]), data[y]]))
                                                     for ls in drawn.lines for l in ls):
                            return 'no line along %d' % y
                        if x is not None and not any(close(l, np.column_stack([data[:, x], np.arange(data.shape[0])]))
                                                     for ls in drawn.lines for l in ls):
                            return 'no line across %d' % x
                        if x is not None and [[x, 0], [x, 1]] not in marks or y is not None and [[0, y], [1, y]] not in marks:
                            return 'no mark at %s %s: %s' % (x, y, marks)
                    go('im_line(%s, %s, %s, %s, %s)' % (name, lo, hi, x, y),
                       lambda: insp.plot.im_line(name, zmin=lo, zmax=hi, xind=x, yind=y), check,
                       file='fig-%s%s%s.png' % (name, '' if x is None else '-x-%s' % x, '' if y is None else '-y-%s' % y))
            for log in (False, True):
                for bins in (4, 16):
                    def bars(data, default, k=0):
                        lo2, hi2 = limits(lo, hi, default)
                        hi2 = lo2 + 1 if lo2 == hi2 else hi2
                        counts, edges = np.histogram(data.flatten(), bins=bins, range=(lo2, hi2))
                        total = counts.sum()
                        height = counts / (total * (edges[1] - edges[0])) if total else None

                        def check(drawn):
                            rects = drawn.axes[0].patches[k * bins:(k + 1) * bins]
                            if len(rects) != bins:
                                return '%d bars' % len(drawn.axes[0].patches)
                            if not close([r.get_x() for r in rects], edges[:-1], 1e-6):
                                return 'bars at other places: %s, not %s' % ([r.get_x() for r in rects], edges[:-1])
                            if total and not close([r.get_height() for r in rects], height, 1e-6):
                                return 'bars of other heights'
                            if (drawn.axes[0].get_yscale() == 'log') != log:
                                return 'scale %s' % drawn.axes[0].get_yscale()
                        return check
                    w = limits(lo, hi, one['wave'])
                    if w[0] <= w[1]:
                        go('waveform_hist(%s, %s, %s, %s)' % (lo, hi, bins, log),
                           lambda: insp.plot.waveform_hist(vmin=lo, vmax=hi, bins=bins, log=log), bars(one['wave'], one['wave']),
                           file='fig-waveform-hist.png')
                    w = limits(lo, hi, delta)
                    if w[0] <= w[1]:
                        go('waveforms_delta_hist(%s, %s, %s, %s)' % (lo, hi, bins, log),
                           lambda: comp.plot.waveforms_delta_hist(vmin=lo, vmax=hi, bins=bins, log=log), bars(delta, delta), 1,
                           file='fig-waveforms_delta-hist.png')
                    if lo is not None and hi is not None:
                        def both(drawn):
                            return bars(one['wave'], delta)(drawn) or bars(two['wave'], delta, 1)(drawn)
                        go('waveforms_hist(%s, %s, %s, %s)' % (lo, hi, bins, log),
                           lambda: comp.plot.waveforms_hist(vmin=lo, vmax=hi, bins=bins, log=log), both, 1,
                           file='fig-waveforms-hist.png')
            if lo is not None and hi is not None:
                def scatter(drawn):
                    got = drawn.axes[0].collections[0].get_offsets()
                    if not close(got, np.column_stack([one['wave'].flatten(), two['wave'].flatten()])):
                        return 'other points'
                    if not close(drawn.axes[0].get_xlim() + drawn.axes[0].get_ylim(), (lo, hi, lo, hi)):
                        return 'other limits'
                go('waveforms_scatter(%s, %s)' % (lo, hi), lambda: comp.plot.waveforms_scatter(vmin=lo, vmax=hi), scatter, 1,
                   file='fig-waveforms-scatter.png')

                def hexbin(drawn):
                    c = drawn.axes[0].collections[0]
                    if not close(c.get_array().sum(), n * m):
                        return '%s points' % c.get_array().sum()
                    for axis, wave in enumerate((one['wave'], two['wave'])):
                        at = float(np.sum(np.asarray(c.get_offsets())[:, axis] * c.get_array()) / (n * m))
                        if not abs(at - wave.mean()) <= 0.04 * (wave.max() - wave.min()):
                            return 'points around %s on axis %d, not %s' % (at, axis, wave.mean())
                    if not close(drawn.axes[0].get_xlim() + drawn.axes[0].get_ylim(), (lo, hi, lo, hi)):
                        return 'other limits'
                go('waveforms_hexbin(%s, %s)' % (lo, hi), lambda: comp.plot.waveforms_hexbin(vmin=lo, vmax=hi, log=False), hexbin, 1,
                   file='fig-waveforms-hexbin.png')

        def curves(*data):
            def check(drawn):
                got = [l for ls in drawn.lines for l in ls]
                if len(got) != len(data) or not all(close(g, np.column_stack(x)) for g, x in zip(got, data)):
                    return 'shows %s' % [g.tolist() for g in got]
            return check

        for i in range(n):
            for r in (None,) + tuple(range(n)):
                x = np.arange(m)
                data = [(x, one['wave'][i])] + ([(x, one['wave'][r])] if r is not None else [])
                go('waveform_line(%s, %s)' % (i, r), lambda: insp.plot.waveform_line(ind=i, ref_ind=r), curves(*data),
                   file='fig-waveform-x-%d.png' % i)
        for yn, y in flat.items():
            for xn, x in [('index', np.arange(n))] + list(flat.items()):
                go('line(%s, %s)' % (xn, yn), lambda: insp.plot.line(x=xn, y=yn), curves((x, y)), file='fig-%s-over-%s.png' % (xn, yn))
        for shape in ('surf', 'poly', 'line'):
            if n > 1 and m > 1:
                for lo, hi in ((0, None), (None, 9.0), (None, None), (0, 4.0)):
                    def solid(drawn):
                        if not close(drawn.axes[0].get_zlim(), limits(lo, hi, one['wave'])):
                            return 'limits %s' % (drawn.axes[0].get_zlim(),)
                        if not drawn.axes[0].collections:
                            return 'nothing drawn'
                    go('waveform_3d_%s(%s, %s)' % (shape, lo, hi),
                       lambda: getattr(insp.plot, 'waveform_3d_' + shape)(zmin=lo, zmax=hi), solid, file='fig-waveform-3d-%s.png' % shape)
        plt.close('all')
        with core.quiet():
            insp.close()
            comp.close()
        if how == 'pdf':
            for who, path in enumerate((out, out.replace('figures', 'compared'))):
                if not pages[who]:
                    continue
                with open(path, 'rb') as fp:
                    text = fp.read()
                k = text.count(b'/Type /Page\n') + text.count(b'/Type /Page ')
                if k != pages[who] and not part['violations']:
                    part.violation('%d plots, but %d pages in the document' % (pages[who], k))
    return part


def maps(item):
    """locations: the projected positions of all records"""
    import numpy as np
    from vlib import oldlibs
    oldlibs.install()
    import bokeh.io
    from dedop.ui.compare import compare_l1b_products
    from dedop.ui.inspect import inspect_l1b_product
    n, how = item
    part = core.Part()
    shown = []
    old = bokeh.io.show, bokeh.io.save
    bokeh.io.show = lambda f, *a, **kw: shown.append((f, None))
    bokeh.io.save = lambda f, name, *a, **kw: shown.append((f, name))
    try:
        with core.scratch('c26') as d:
            a, b = os.path.join(d, 'a.nc'), os.path.join(d, 'b.nc')
            one, two = make(a, 'l1b', n, 2, 0), make(b, 'l1b', n, 2, 1)
            out = os.path.join(d, 'out') if how == 'dir' else None
            with core.quiet():
                inspect_l1b_product(a, out).plot.locations()
                compare_l1b_products(a, b, out).plot.locations()
            part.count(evaluations=2)
            for (fig, name), docs in zip(shown, ((one,), (one, two))):
                got = [r.data_source.data for r in fig.renderers if 'x' in getattr(getattr(r, 'data_source', None), 'data', {})]
                want = [(6378137. * np.radians(k['lon']), 6378137. * np.log(np.tan(math.pi / 4 + np.radians(k['lat']) / 2)))
                        for k in docs]
                if len(got) != len(want) or not all(close(g['x'], w[0], 1e-7) and close(g['y'], w[1], 1e-7) for g, w in zip(got, want)):
                    part.violation('locations of %d records, %s: other places' % item)
                if out and (name is None or os.path.dirname(name) != out or not os.path.isdir(out)):
                    part.violation('locations of %d records, %s: saved to %s' % (n, how, name))
            if len(shown) != 2:
                part.violation('locations of %d records, %s: %d maps' % (n, how, len(shown)))
            part.nontriv(core.digest(item))
    finally:
        bokeh.io.show, bokeh.io.save = old
    return part


def formats(item):
    """the output format follows from the path, or is given"""
    from vlib import oldlibs
    oldlibs.install()
    from dedop.ui.inspect import inspect_l1b_product
    name, fmt = item
    part = core.Part()
    with core.scratch('c26') as d:
        a = os.path.join(d, 'a.nc')
        make(a, 'l1b', 2, 2, 0)
        out = os.path.join(d, 'out')
        os.mkdir(out)
        ext = os.path.splitext(name)[1]
        kind = fmt.lower() if fmt else ext[1:].lower() if len(ext) > 1 else 'dir'
        ok = kind == 'dir' or kind == 'pdf' and ext in ('', '.pdf', '.PDF')
        try:
            with core.quiet():
                insp = inspect_l1b_product(a, os.path.join(out, name), fmt)
                insp.plot.waveform_im()
                insp.plot.waveform_line(ind=1)
                insp.close()
            r = 'done'
        except ValueError:
            r = 'refused'
        import matplotlib.pyplot as plt
        plt.close('all')
        part.count(evaluations=1)
        got = sorted(os.path.relpath(os.path.join(p, f), out) for p, _, fs in os.walk(out) for f in fs)
        if not ok:
            want = []
        elif kind == 'pdf':
            want = [name + ('' if ext else '.pdf')]
        else:
            want = sorted(os.path.join(name, f) for f in ('fig-waveform-im.png', 'fig-waveform-x-1.png'))
        if r != ('done' if ok else 'refused') or got != want:
            part.violation('output to %r as %r: %s, %s' % (name, fmt, r, got))
        part.nontriv(core.digest(item))
    return part


def run(ctx):
    from vlib import oldlibs, pipeline
    pipeline.fast_fit()
    oldlibs.install()
    with core.quiet():
        import dedop.ui.compare
    ctx.rule = 'different products, pairs and plots'
    shapes = [(1, 1), (1, 3), (2, 1), (2, 2), (3, 2), (2, 3), (3, 3), (4, 5)]
    if ctx.thorough:
        shapes += [(5, 4), (1, 8), (8, 1), (7, 9), (16, 16)]
    items = []
    for kind in ('l1b', 'l1bs'):
        for n, m in shapes:
            items.append((kind, n, m, tuple((k, x, y) for k in ('l1b', 'l1bs') for x, y in shapes
                                            if k == kind or (x, y) == (n, m))))
    core.pmap(ctx, numbers, items)
    overs = [(), (('output_format_flag_cnf', 'sentinel-3'),), (('zp_fact_range_cnf', 2),)]
    core.pmap(ctx, real, [(a, b) for a in overs for b in overs], fresh=True)
    core.pmap(ctx, refused, ['none', 'empty', 'l1a', 'no variables', 'text', 'missing'])
    sizes = [(2, 3), (4, 4), (1, 2)] if ctx.thorough else [(2, 3), (4, 4)]
    hows = ('show', 'dir', 'pdf')
    items = [(k, n, m, h, i, 8) for h in hows for n, m in sizes for k in ('l1b', 'l1bs') for i in range(8)
             if ctx.thorough or k == 'l1b' and (h == 'show' or (n, m) == (2, 3))]
    core.pmap(ctx, plots, items)
    core.pmap(ctx, maps, [(n, h) for n in (1, 2, 5) for h in ('show', 'dir')])
    core.pmap(ctx, formats, [(n, f) for n in ('out', 'x.pdf', 'x.PDF', 'x.png', 'deep/down.pdf', 'deep/down', 'x.dir')
                             for f in (None, 'pdf', 'dir', 'PDF', 'Dir', 'png')])
    ctx.space_note('products', '%d shapes x 2 kinds x 4 contents, all pairs of shapes' % len(shapes))
    ctx.space_note('plots', 'all plots x limits (none, zero, negative, positive) x variables x indices, %s' % (hows,))
    ctx.sample('compare (3, 2) with (2, 3): refused')
    ctx.sample('im(field, 0, None)')
