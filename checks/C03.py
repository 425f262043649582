"""C03: exactly the records with a position inside the region of interest take part in the processing."""
import itertools

from vlib import core, l1a, pipeline, refmodel, scen

LEVEL = 'model_checking'
TAIL = 4


def base(n, name):
    if name.startswith('from '):
        lat, lon = map(float, name.split()[1:])
        kw = dict(lat0=lat, lon0=lon, heading=80.0)
        return l1a.orbit(n, **kw) + l1a.shift_time(l1a.orbit(max(n - 2, TAIL), tag=9, **kw), 200.0)
    kw = {'ascending': dict(lat0=10.0, lon0=20.0, heading=80.0),
          'descending': dict(lat0=-30.0, lon0=150.0, heading=-70.0),
          'eastward': dict(lat0=5.0, lon0=-60.0, heading=12.0)}[name]
    # two passes over the same ground, so that a region always leaves two segments (a lone short one is refused)
    return l1a.orbit(n, **kw) + l1a.shift_time(l1a.orbit(max(n - 2, TAIL), tag=9, **kw), 200.0)


def both(part, label, bursts, cnf):
    """reference model on the full file, and the same file without the records that must not take part"""
    k = refmodel.Conf(pipeline.merged(l1a.CNF, cnf), l1a.CHD, l1a.CST)
    keep = [r for _, r in refmodel.select(bursts, k)]
    plain = {key: v for key, v in cnf.items() if not key.startswith(('min_', 'max_'))}
    other = pipeline.run(keep, plain)
    part.count(evaluations=1)
    if other.error is not None:
        # too few records left: the full file must then be refused as well
        res = pipeline.run(bursts, cnf)
        part.count(evaluations=1)
        part.nontriv(label)
        if res.error is None:
            part.violation('%s: succeeded, but the file without the excluded records is refused (%s)' % (
                label, other.error))
        return
    res = scen.check_reference(part, label, bursts, cnf)
    if res is None or res.error is not None:
        return
    for d in scen.same_products(res, other):
        part.violation('%s: %s from the file without the excluded records' % (label, d))
    for g in ('first_meas_time', 'last_meas_time'):
        if 'min_' in str(cnf) or 'max_' in str(cnf):
            if res.l1b.globals[g] != other.l1b.globals[g]:
                part.violation('%s: %s = %s, expected %s' % (label, g, res.l1b.globals[g], other.l1b.globals[g]))


def case(item):
    pipeline.fast_fit()
    kind, n, name, arg = item
    part = core.Part()
    bursts = base(n, name)
    if kind == 'invalid':
        bursts = [l1a.zeroed(b) if i in arg else b for i, b in enumerate(bursts)]
        both(part, 'records %s of %d have no position' % (sorted(arg), len(bursts)), bursts, {})
    elif kind == 'half':
        # only one of the coordinates is zero: a perfectly valid position
        i, key = arg
        bursts[i] = dict(bursts[i])
        bursts[i][key] = 0.0
        # move the whole pass next to the equator / meridian so that the record stays on the track
        both(part, 'record %d has %s = 0 only' % (i, key), bursts, {})
    elif kind == 'near':
        both(part, 'first record at %s' % name[5:], bursts, {})
    elif kind == 'roi':
        both(part, 'region %s of pass %s' % (arg, name), bursts, dict(arg))
    elif kind == 'mixed':
        region, bad = arg
        bursts = [l1a.zeroed(b) if i in bad else b for i, b in enumerate(bursts)]
        both(part, 'region %s of pass %s with invalid records %s' % (region, name, bad), bursts, dict(region))
    elif kind == 'empty':
        res = pipeline.run(bursts, dict(arg))
        part.count(evaluations=1)
        part.nontriv((name, str(arg)))
        if res.error is None and res.l1b.n:
            part.violation('region %s contains no record of pass %s, but the product has %d' % (arg, name, res.l1b.n))
    return part


def bounds(values, dense):
    """limits: exactly on a record, and between two records"""
    v = sorted(set(values))
    mid = [(a + b) / 2 for a, b in zip(v, v[1:])]
    out = sorted(v + mid) if dense else sorted([v[0], v[1], mid[1], v[len(v) // 2], v[-2], v[-1]] + mid[-1:])
    return out


def run(ctx):
    n = 7 if not ctx.thorough else 9
    items = []
    total = n + max(n - 2, TAIL)
    # every set of invalid records in the first segment, with and without the tail's first record
    for r in range(n + 1):
        for bad in itertools.combinations(range(n), r):
            items.append(('invalid', n, 'ascending', bad))
    for r in (1, 2, 3):
        for bad in itertools.combinations(range(n, min(total, n + 6)), r):
            items.append(('invalid', n, 'descending', bad))
            items.append(('invalid', n, 'descending', (0, n - 1) + bad))
    for name in ('ascending', 'descending', 'eastward'):
        b = base(9, name)
        seg = b[:9]
        lats, lons = [r['lat'] for r in seg], [r['lon'] for r in seg]
        # one-sided and two-sided latitude and longitude windows
        for key, vals in (('lat', lats), ('lon', lons)):
            bl = bounds(vals, True)
            for x in bl:
                items.append(('roi', 9, name, {'min_%s_cnf' % key: x}))
                items.append(('roi', 9, name, {'max_%s_cnf' % key: x}))
            bl = bounds(vals, ctx.thorough)
            for x, y in itertools.combinations_with_replacement(bl, 2):
                items.append(('roi', 9, name, {'min_%s_cnf' % key: x, 'max_%s_cnf' % key: y}))
        la, lo = sorted(lats), sorted(lons)
        for x, y in itertools.product((la[0], la[2], la[3]), (la[5], la[8])):
            for u, v in itertools.product((lo[0], lo[1], lo[4]), (lo[6], lo[8])):
                items.append(('roi', 9, name, {'min_lat_cnf': x, 'max_lat_cnf': y, 'min_lon_cnf': u,
                                               'max_lon_cnf': v}))
        for bad in [(i,) for i in range(9)] + [(2, 3), (6, 7, 8), (0, 8)]:
            items.append(('mixed', 9, name, ({'min_lat_cnf': la[1], 'max_lat_cnf': la[7]}, bad)))
        items.append(('empty', 9, name, {'min_lat_cnf': 85.0}))
        items.append(('empty', 9, name, {'max_lat_cnf': -85.0, 'min_lon_cnf': -180.0}))
    for lat, lon in ((0, 20), (0, -1), (0, 180), (0, -180), (10, 0), (-70, 0), (1e-6, 0), (0, 1e-6), (1e-6, -1e-6),
                     (2e-6, 1e-6), (10, -10), (-45, 45), (30, 30), (0.5, -0.5)):
        items.append(('near', 7, 'from %r %r' % (lat, lon), None))
    for i in range(0, 7, 2):
        for key in ('lat', 'lon'):
            items.append(('half', 7, 'ascending', (i, key)))
    ctx.space_note('invalid records', 'every subset of a segment of %d records' % n)
    ctx.space_note('region of interest', 'every limit on or between records, one- and two-sided, latitude/longitude')
    parts = core.pmap(ctx, case, items, chunksize=2)
    scen.ambiguities(ctx, parts)
