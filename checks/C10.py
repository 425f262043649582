"""C10: conversions between geodetic and Earth-fixed Cartesian coordinates are right everywhere on and above the Earth."""
import itertools
import math

import numpy as np

from vlib import core, l1a, refmodel

LEVEL = 'exploration'

ELLIPSOIDS = {
    'wgs84': (6378137.0, 0.00335281067183084),
    'topex': (6378136.3, 1 / 298.257),
    'sphere': (6371000.0, 0.0),
}


def constants(d, name):
    from dedop.conf import ConstantsFile
    a, f = ELLIPSOIDS[name]
    path = l1a.write_aux(d + '/CST-%s.json' % name, 'CST', l1a.CST, semi_major_axis_cst=a,
                         semi_minor_axis_cst=a * (1 - f), flat_coeff_cst=f)
    return ConstantsFile(path), {'semi_major_axis_cst': a, 'semi_minor_axis_cst': a * (1 - f), 'flat_coeff_cst': f}


def near(values, eps=(0.0, 1e-12, 1e-9, 1e-6, 1e-3)):
    out = set()
    for v in values:
        for e in eps:
            out.update((v - e, v + e))
    return out


def grid(thorough):
    lats = near([-90.0, -45.0, 0.0, 45.0, 90.0])
    lats |= near([-90.0, 90.0], (1e-5, 1e-4, 0.01, 0.03, 0.08, 0.3, 0.9))
    step = 1.0 if thorough else 3.0
    lats.update(np.arange(-90.0, 90.0 + step, step).tolist())
    lats = sorted(x for x in lats if -90.0 <= x <= 90.0)
    lons = near([-180.0, -90.0, 0.0, 90.0, 180.0], (0.0, 1e-12, 1e-7))
    step = 5.0 if thorough else 20.0
    lons.update(np.arange(-180.0, 180.0 + step, step).tolist())
    lons.update((270.0, 359.99))
    lons = sorted(x for x in lons if -180.0 <= x <= 360.0)
    alts = [-500.0, -1.0, 0.0, 1.0, 8848.0, 7.0e5, 814500.0, 1.4e6]
    return lats, lons, alts


def case(item):
    ell, lats, lons, alts = item
    from dedop.proc.geo import ecef2lla, lla2ecef, normalize
    part = core.Part()
    with core.scratch('c10') as d:
        cst, ref = constants(d, ell)
        for lat, lon, alt in itertools.product(lats, lons, alts):
            part.count(evaluations=1, states=1)
            la, lo = math.radians(lat), math.radians(lon)
            where = '%s ellipsoid, lat %r lon %r alt %r' % (ell, lat, lon, alt)
            want = refmodel.lla2ecef(la, lo, alt, ref)
            got = np.array([float(v) for v in lla2ecef((la, lo, alt), cst)])
            if not np.all(np.abs(got - want) <= 1e-6):
                part.violation('%s: Cartesian position %s, expected %s' % (where, got, want))
            deg = np.array([float(v) for v in lla2ecef((lat, lon, alt), cst, lla_as_degrees=True)])
            if not np.all(np.abs(deg - want) <= 1e-6):
                part.violation('%s: Cartesian position from degrees %s, expected %s' % (where, deg, want))
            blat, blon, balt = (float(v) for v in ecef2lla(tuple(want), cst))
            if not all(math.isfinite(v) for v in (blat, blon, balt)):
                part.violation('%s: back to %s' % (where, (blat, blon, balt)))
                continue
            # in metres on the ground
            if abs(blat - la) * 6.4e6 > 2e-2:
                part.violation('%s: latitude comes back as %r' % (where, math.degrees(blat)))
            if abs(balt - alt) > 3e-2:
                part.violation('%s: altitude comes back as %r' % (where, balt))
            dlon = math.remainder(blon - lo, 2 * math.pi)
            if abs(dlon) * 6.4e6 * max(math.cos(la), 0) > 1e-3:
                part.violation('%s: longitude comes back as %r' % (where, math.degrees(blon)))
            again = refmodel.lla2ecef(blat, blon, balt, ref)
            if np.linalg.norm(again - want) > 5e-2:
                part.violation('%s: round trip is %g m off' % (where, np.linalg.norm(again - want)))
        part.nontriv(item)
        for lat in lats:
            part.sample('%s: lat %r at %d longitudes x %d altitudes' % (ell, lat, len(lons), len(alts)))
    return part


def angles(item):
    """normalisation of angles and the angle between vectors"""
    from dedop.proc.geo import normalize
    from dedop.proc.functions import angle_between
    part = core.Part()
    with core.scratch('c10') as d:
        cst, _ = constants(d, 'wgs84')
        base = sorted(near([k * math.pi / 2 for k in range(-12, 13)], (0.0, 1e-9, 1e-3)) |
                      set(np.linspace(-19, 19, 191).tolist()))
        for a in base:
            part.count(evaluations=1, states=1)
            part.nontriv('normalize %r' % a)
            n = normalize(a, cst)
            if not -math.pi - 1e-12 <= n <= math.pi + 1e-12:
                part.violation('normalised %r is %r, outside of -pi..pi' % (a, n))
            if abs(math.remainder(n - a, 2 * math.pi)) > 1e-9:
                part.violation('normalised %r is %r, another direction' % (a, n))
        comps = (-1.0, -1e-3, 0.0, 0.5, 2.0)
        vecs = [v for v in itertools.product(comps, repeat=3) if any(v)]
        vecs = vecs[::3] + [(1, 0, 0), (-1, 0, 0), (0.1, 0.2, 0.3), (-0.1, -0.2, -0.3), (1e6, 2e6, 3e6), (1, 1e-8, 0)]
        for u, v in itertools.product(vecs, repeat=2):
            part.count(evaluations=1, states=1)
            x, y = np.array(u, float), np.array(v, float)
            want = math.atan2(np.linalg.norm(np.cross(x, y)), float(np.dot(x, y)))
            for shape in ('flat', 'matrix'):
                a = angle_between(x if shape == 'flat' else np.asmatrix(x).T, y if shape == 'flat' else np.asmatrix(y).T)
                if not abs(float(a) - want) <= 1e-7:
                    part.violation('angle between %s and %s is %r, expected %r' % (u, v, a, want))
    return part


def run(ctx):
    ctx.rule = ('every point of the grid latitude x longitude x altitude x ellipsoid, forth and back; non-trivial: '
                'distinct latitudes and directions')
    lats, lons, alts = grid(ctx.thorough)
    ctx.space_note('latitudes', '%d from -90 to 90, denser at the poles, the equator and 45 degrees' % len(lats))
    ctx.space_note('longitudes', '%d from -180 to 360' % len(lons))
    ctx.space_note('altitudes', alts)
    ctx.space_note('ellipsoids', sorted(ELLIPSOIDS))
    items = [(e, lats[i:i + 4], lons, alts) for e in ELLIPSOIDS for i in range(0, len(lats), 4)]
    core.pmap(ctx, case, items)
    core.pmap(ctx, angles, [None])
