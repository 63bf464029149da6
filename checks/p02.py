"""P02: oracle over the results of impact_point_and_normal for generated crossings of generated chambers."""
import numpy as np
from vlib import chambers
from vlib.geomref import crossing_tables

PROP, LEVEL = 'P02', 'exploration'
TECHNIQUE = 'differential oracle on every observed wall hit (independent geometry)'
NOTE = 'Each observed wall hit is recomputed by an independent brute-force geometry; limited to the generated crossings.'
RULE = ('random chambers (ellipse, rectangle, convex, non-convex, off-centre) times crossings of eight path classes (long, short, grazing, through '
        'vertices, ending exactly on the wall, axis-parallel, multi-wall); non-trivial = path starts inside and ends outside by the reference '
        'geometry; distinct = (chamber kind and family, path class, wall segment class)')
ASSUMPTIONS = ['paths whose start is closer to the wall than 1e-9 of the chamber size are not judged']


def paths(rng, ref, n):
    out = []
    x, y = chambers.inside_points(rng, ref, n)
    S = ref.scale
    th = rng.uniform(0, 2 * np.pi, n)
    out.append(('long', x, y, x + 3 * S * np.cos(th), y + 3 * S * np.sin(th)))
    out.append(('far', x, y, x + 1e4 * S * np.cos(th), y + 1e4 * S * np.sin(th)))
    x, y = chambers.inside_points(rng, ref, n)
    th = rng.uniform(0, 2 * np.pi, n)
    l = S * rng.uniform(0, 1.5, n)
    out.append(('medium', x, y, x + l * np.cos(th), y + l * np.sin(th)))
    # short steps across the wall
    bx, by, nx, ny = chambers.boundary_points(rng, ref, n)
    l = S * 10**rng.uniform(-6, -1, n)
    sl = rng.uniform(-1.3, 1.3, n)
    dx, dy = nx * np.cos(sl) - ny * np.sin(sl), nx * np.sin(sl) + ny * np.cos(sl)
    f = rng.random(n)
    out.append(('short', bx + f * l * dx, by + f * l * dy, bx - (1 - f) * l * dx, by - (1 - f) * l * dy))
    # grazing
    sl = np.pi / 2 * (1 - 10**rng.uniform(-4, -1, n)) * rng.choice([-1, 1], n)
    dx, dy = nx * np.cos(sl) - ny * np.sin(sl), nx * np.sin(sl) + ny * np.cos(sl)
    l = S * 10**rng.uniform(-3, -1, n)
    out.append(('grazing', bx + f * l * dx, by + f * l * dy, bx - (1 - f) * l * dx, by - (1 - f) * l * dy))
    # axis-parallel
    x, y = chambers.inside_points(rng, ref, n)
    h = rng.random(n) < .5
    s = rng.choice([-1., 1.], n) * S * rng.uniform(.1, 4, n)
    out.append(('axis', x, y, np.where(h, x + s, x), np.where(h, y, y + s)))
    # through points of the wall: vertices and generic, ending on it or beyond it
    x, y = chambers.inside_points(rng, ref, n)
    if ref.kind == 'poly':
        v = rng.integers(0, len(ref.X), n)
        g = rng.choice([1., 1.5, 1.01], n)
        out.append(('vertex', x, y, x + g * (ref.X[v] - x), y + g * (ref.Y[v] - y)))
    bx, by, nx, ny = chambers.boundary_points(rng, ref, n)
    out.append(('onwall', x, y, bx, by))
    return out


def judge(case, ch, ref, kind, lab, cls, x0, y0, x1, y1):
    m = ref.inside(x0, y0) & (ref.dist(x0, y0) > 1e-9 * ref.scale)
    outs = np.asarray(ch.is_outside(x1.copy(), y1.copy()), bool)   # what the simulation treats as a hit
    m &= outs
    x0, y0, x1, y1 = x0[m], y0[m], x1[m], y1[m]
    n = len(x0)
    if n == 0:
        return
    z0, z1 = case.rng.normal(0, 1, n), case.rng.normal(0, 1, n)
    args = [np.ascontiguousarray(v) for v in (x0, y0, z0, x1, y1, z1)]
    keep = [v.copy() for v in args]
    xi, yi, zi, nx, ny, seg = ch.impact_point_and_normal(*args)
    for a, b in zip(args, keep):
        case.check(np.array_equal(a, b), 'inputs-modified', '%s: the caller positions were modified' % lab)
    xi, yi, nx, ny = [np.asarray(v, float) for v in (xi, yi, nx, ny)]
    if not case.check(all(v.shape == (n,) for v in (xi, yi, nx, ny)), 'shape', '%s wrong result shape' % lab):
        return
    plen = np.hypot(x1 - x0, y1 - y0)
    S = ref.scale
    fin = np.isfinite(xi) & np.isfinite(yi) & np.isfinite(nx) & np.isfinite(ny)
    case.check(fin.all(), 'non-finite', lambda: '%s/%s: non-finite result for %s' % (lab, cls, desc(0 + int(np.argmin(fin)))))

    def desc(i):
        return 'in=(%r,%r) out=(%r,%r) -> (%r,%r) n=(%r,%r) seg=%r' % (x0[i], y0[i], x1[i], y1[i], xi[i], yi[i], nx[i], ny[i], None if seg is None else seg[i])

    if ref.kind == 'ellip':
        t = np.array([ref.first_crossing(a, b, c, d)[0] for a, b, c, d in zip(x0, y0, x1, y1)])
        t = np.minimum(t, 1.)
        tol = 0.0205 * t * plen + 0.0102 * plen + 1.1e-4 * np.hypot(x1, y1) + 1e-9 * S
        tfar = t
    else:
        T, U = crossing_tables(ref, x0, y0, x1, y1)
        eu = 1e-9 * S / ref.L[None, :] + 1e-12
        et = 1e-9 * S / plen[:, None]
        valid = (U >= -eu) & (U <= 1 + eu) & (T >= -et) & (T <= 1 + et)
        t = np.min(np.where(valid, T, np.inf), axis=1)
        strict = (U > eu) & (U < 1 - eu) & (T > et) & (T < 1 - et)
        lone = np.isfinite(t)
        # contacts up to the first unambiguous crossing (a vertex merely touched may be passed)
        tfar = np.min(np.where(valid & strict, T, np.inf), axis=1)
        tfar = np.where(np.isfinite(tfar), tfar, np.max(np.where(valid, T, -np.inf), axis=1))
        first = valid & (T <= (tfar[:, None] + 2 * et))
        clean = (first.sum(1) == 1) & np.any(first & strict, axis=1)   # unambiguous crossing of one edge
        nt = ~lone
        # the end point counts as outside although no wall is crossed: only possible on the wall itself
        if nt.any():
            dd = ref.dist(x1[nt], y1[nt])
            if not case.check(np.all(dd < 1e-9 * S), 'outside-without-crossing', lambda: '%s/%s: end point inside was treated as outside: %s' % (lab, cls, desc(np.flatnonzero(nt)[int(np.argmax(dd))]))):
                return
            t = np.where(nt, 1., t)
            tfar = np.where(nt, 1., tfar)
        t, tfar = np.clip(t, 0, 1), np.clip(tfar, 0, 1)
        tol = 0.0205 * t * plen + 1e-9 * S
    cx, cy = x0 + t * (x1 - x0), y0 + t * (y1 - y0)
    err = np.hypot(xi - cx, yi - cy)
    if ref.kind == 'poly':
        D = np.abs(np.hypot(xi - x0, yi - y0)[:, None] - np.where(first, T, np.nan) * plen[:, None])
        D = np.where(first, D - 0.0205 * np.clip(T, 0, 1) * plen[:, None] - 1e-9 * S, np.inf)
        err = np.where(np.any(first, axis=1), np.min(D, axis=1) + tol, err)
    # on the path, before the crossing
    ux, uy = (x1 - x0) / plen, (y1 - y0) / plen
    perp = np.abs((xi - x0) * uy - (yi - y0) * ux)
    along = (xi - x0) * ux + (yi - y0) * uy
    eps = 1e-12 * (S + plen)
    if ref.kind == 'poly':
        # ambiguous hits (corner, end exactly on the wall) may fall back to the start point
        back = (xi == x0) & (yi == y0) & ~clean
    else:
        back = np.zeros(n, bool)
    case.check(np.all(perp <= eps), 'off-path', lambda: '%s/%s: impact point off the path by %g: %s' % (lab, cls, perp.max(), desc(int(np.argmax(perp)))))
    bad = (along < -eps) | (along > tfar * plen + eps)
    case.check(not bad.any(), 'beyond-wall', lambda: '%s/%s: impact point not between start and wall: %s' % (lab, cls, desc(int(np.argmax(bad)))))
    bad = (err > tol) & ~back
    case.check(not bad.any(), 'wrong-point', lambda: '%s/%s: impact point %g from the crossing (%g,%g), allowed %g: %s' % (
        (lab, cls) + tuple(v[int(np.argmax(bad))] for v in (err, cx, cy, tol)) + (desc(int(np.argmax(bad))),)))
    ins = ref.inside(xi, yi)
    bad = ~ins & (ref.dist(xi, yi) > 1e-13 * S)
    bad |= np.asarray(ch.is_outside(xi.copy(), yi.copy()), bool)
    case.check(not bad.any(), 'not-inside', lambda: '%s/%s: impact point not inside: %s' % (lab, cls, desc(int(np.argmax(bad)))))
    # normals
    nn = np.hypot(nx, ny)
    bad = np.abs(nn - 1) > 1e-9
    case.check(not bad.any(), 'normal-not-unit', lambda: '%s/%s: |n| = %r: %s' % (lab, cls, nn[int(np.argmax(bad))], desc(int(np.argmax(bad)))))
    if ref.kind == 'ellip':
        # normal of the wall at the crossing; the point used may be up to tol away
        r = np.sqrt(ref.f(xi, yi))
        far = (r > .05) & (tol < 0.02 * min(ref.a, ref.b))
        ex, ey = ref.normal(cx, cy)
        dev = np.hypot(nx - ex, ny - ey)
        # exact normal of the confocal-scaled ellipse through the reported point
        with np.errstate(all='ignore'):
            qx, qy = ref.normal(xi, yi)
            dev2 = np.hypot(nx - qx, ny - qy)
        kappa = max(ref.a, ref.b) / min(ref.a, ref.b)**2
        # the code normal is that of the parametric angle: judge against the crossing normal within the shift allowance
        allow = kappa * kappa * max(ref.a, ref.b) * (tol + 1e-9 * S) * 2 + 1e-7
        bad = far & (dev > allow) & (dev2 > 1e-9)
        case.check(not bad.any(), 'wrong-normal', lambda: '%s/%s: normal off by %g: %s' % (lab, cls, dev[int(np.argmax(bad))], desc(int(np.argmax(bad)))))
        inw = -(nx * cx / ref.a**2 + ny * cy / ref.b**2)
        case.check(np.all(inw[far] > 0), 'normal-outward', lambda: '%s/%s: normal points outward' % (lab, cls))
        case.check(seg is None or np.all(np.asarray(seg) < 0), 'segment-on-ellipse', 'ellipse reports wall segments')
    else:
        seg = np.asarray(seg)
        ne = len(ref.X)
        case.check(np.all((seg >= (-1 if kind == 'legacy' else 0)) & (seg < ne)), 'segment-range', lambda: '%s/%s: segment index out of range: %r' % (lab, cls, seg))
        sg = np.clip(seg, 0, ne - 1)
        okseg = first[np.arange(n), sg] & (seg >= 0)
        bad = clean & ~okseg
        case.check(not bad.any(), 'wrong-segment', lambda: '%s/%s: segment %r reported, crossed %r: %s' % (
            lab, cls, seg[int(np.argmax(bad))], np.flatnonzero(first[int(np.argmax(bad))]), desc(int(np.argmax(bad)))))
        # unambiguous end on the wall: still has to be the segment it lies on
        endwall = ~clean & (first.sum(1) == 1) & np.any(first & (U > eu) & (U < 1 - eu) & (T > et), axis=1)
        bad = endwall & (seg >= 0) & ~okseg
        case.check(not bad.any(), 'wrong-segment-onwall', lambda: '%s/%s: end on the wall: segment %r reported, wall is %r: %s' % (
            lab, cls, seg[int(np.argmax(bad))], np.flatnonzero(first[int(np.argmax(bad))]), desc(int(np.argmax(bad)))))
        amb = ~clean & ~endwall & (seg >= 0) & np.any(first, axis=1)
        bad = amb & ~okseg & (kind != 'legacy')
        case.check(not bad.any(), 'wrong-segment-corner', lambda: '%s/%s: corner hit: segment %r reported, candidates %r: %s' % (
            lab, cls, seg[int(np.argmax(bad))], np.flatnonzero(first[int(np.argmax(bad))]), desc(int(np.argmax(bad)))))
        dev = np.hypot(nx - ref.Nx[sg], ny - ref.Ny[sg])
        bad = (seg >= 0) & (dev > 1e-9)
        case.check(not bad.any(), 'wrong-normal', lambda: '%s/%s: normal is not that of segment: %s' % (lab, cls, desc(int(np.argmax(bad)))))
        case.count('clean', clean.sum())
        case.count('ambiguous', (~clean).sum())
        case.count('not_found', (seg < 0).sum())
        case.count('multi_wall', (valid.sum(1) > 1).sum())
    case.count('crossings', n)
    case.ok('%s/%s' % (lab, cls), n)
    case.sample(chamber=lab, cls=cls, x_in=float(x0[0]), y_in=float(y0[0]), x_out=float(x1[0]), y_out=float(y1[0]), x_int=float(xi[0]), y_int=float(yi[0]))
    # independence of the batch
    for i in case.rng.integers(0, n, 3):
        r1 = ch.impact_point_and_normal(*[v[i:i + 1].copy() for v in keep])
        same = np.allclose([r1[0][0], r1[1][0], r1[3][0], r1[4][0]], [xi[i], yi[i], nx[i], ny[i]], rtol=1e-12, atol=1e-14)
        case.check(same, 'batch-dependence', lambda: '%s/%s: result depends on the other particles in the call: %s' % (lab, cls, desc(i)))


def crossing(case, kind):
    ch, ref, lab = chambers.make(case.rng, kind)
    n = 150 if case.tier == 'quick' else 1500
    for cls, x0, y0, x1, y1 in paths(case.rng, ref, n):
        judge(case, ch, ref, kind, lab, cls, x0, y0, x1, y1)


def stuck(case, kind):
    """Paths that start on the wall within rounding (a particle pushed against the wall again and again)."""
    ch, ref, lab = chambers.make(case.rng, kind)
    rng = case.rng
    S = ref.scale
    n = 200 if case.tier == 'quick' else 2000
    bx, by, nx, ny = chambers.boundary_points(rng, ref, n)
    d = S * 10**rng.uniform(-19, -11, n)
    x0, y0 = bx + d * nx, by + d * ny
    a = rng.uniform(-1.5, 1.5, n)
    L = S * 10**rng.uniform(-6, -1, n)
    x1, y1 = x0 - L * (nx * np.cos(a) - ny * np.sin(a)), y0 - L * (ny * np.cos(a) + nx * np.sin(a))
    m = ~np.asarray(ch.is_outside(x0.copy(), y0.copy()), bool) & np.asarray(ch.is_outside(x1.copy(), y1.copy()), bool)
    if not m.any():
        return
    x0, y0, x1, y1, nx, ny = [np.ascontiguousarray(v[m]) for v in (x0, y0, x1, y1, nx, ny)]
    n = len(x0)
    z = np.zeros(n)
    xi, yi, zi, Nx, Ny, seg = ch.impact_point_and_normal(x0, y0, z, x1, y1, z.copy())

    def desc(i):
        return 'in=(%r,%r) out=(%r,%r) -> (%r,%r) n=(%r,%r) seg=%r' % (x0[i], y0[i], x1[i], y1[i], xi[i], yi[i], Nx[i], Ny[i], None if seg is None else seg[i])
    bad = np.asarray(ch.is_outside(xi.copy(), yi.copy()), bool)
    case.check(not bad.any(), 'stuck-outside', lambda: '%s: impact point outside: %s' % (lab, desc(int(np.argmax(bad)))))
    bad2 = np.abs(np.hypot(Nx, Ny) - 1) > 1e-9
    case.check(not bad2.any(), 'normal-not-unit', lambda: '%s: %s' % (lab, desc(int(np.argmax(bad2)))))
    if ref.kind == 'poly':
        seg = np.asarray(seg)
        if not case.check(np.all((seg >= 0) & (seg < len(ref.X))), 'segment-range', lambda: '%s: segment out of range: %r' % (lab, seg)):
            return
        # a path of length 1e-6 .. 1e-1 S: the impact point is within 1e-11 S of the wall it starts on, unless that wall is left along its
        # own direction; judge the segments for paths that cross their own wall at a clear angle
        clear = np.abs(a[m]) < 1.2
        X, Y, ex, ey = ref.X[seg], ref.Y[seg], np.roll(ref.X, -1)[seg] - ref.X[seg], np.roll(ref.Y, -1)[seg] - ref.Y[seg]
        t = np.clip(((xi - X) * ex + (yi - Y) * ey) / (ex**2 + ey**2), 0, 1)
        dist = np.hypot(X + t * ex - xi, Y + t * ey - yi)
        bad3 = clear & (dist > 1e-9 * S)
        case.check(not bad3.any(), 'stuck-segment', lambda: '%s: reported segment is %g away: %s' % (lab, dist[np.argmax(bad3)], desc(int(np.argmax(bad3)))))
        bad4 = np.hypot(Nx - ref.Nx[seg], Ny - ref.Ny[seg]) > 1e-9
        case.check(not bad4.any(), 'wrong-normal', lambda: '%s: normal is not that of the segment: %s' % (lab, desc(int(np.argmax(bad4)))))
    case.count('paths_from_the_wall', n)
    case.ok('%s/stuck' % lab, n)


def tasks(tier):
    from vlib.harness import Task
    k = 1 if tier == 'quick' else 6
    return [Task(stuck, 40 * k, name='stuck-' + c, kind=c, min_ok=200) for c in ('ellip', 'rect', 'convex', 'nonconvex')] + [Task(crossing, 60 * k, kind='ellip', min_ok=5000), Task(crossing, 60 * k, kind='rect', min_ok=5000),
            Task(crossing, 120 * k, kind='convex', min_ok=10000), Task(crossing, 40 * k, kind='convex_general', min_ok=2000),
            Task(crossing, 160 * k, kind='nonconvex', min_ok=10000), Task(crossing, 40 * k, kind='legacy', min_ok=2000)]
