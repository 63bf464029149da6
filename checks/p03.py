"""P03: is_outside, area, segment lengths and half apertures against an independent computation."""
import numpy as np
from vlib import chambers, simgen
from vlib.geomref import PolyRef
from vlib.harness import Task

PROP, LEVEL = 'P03', 'exploration'
TECHNIQUE = 'differential oracle on every observed classification (independent geometry)'
NOTE = 'Each observed classification is recomputed by an independent winding/crossing test; limited to the generated chambers and points.'
RULE = ('random chambers times points of six classes (uniform, next to the wall at 1e-12..1e-2 of the size, exactly on vertices ordinates, axis '
        'points, far away, inside the inscribed ellipse); non-trivial = farther than 1e-11 of the chamber size from the wall; distinct = '
        '(chamber kind and family, point class, inside or outside)')


def points(rng, ref, n):
    S = ref.scale
    yield 'uniform', rng.uniform(-1.3 * S, 1.3 * S, n), rng.uniform(-1.3 * S, 1.3 * S, n)
    bx, by, nx, ny = chambers.boundary_points(rng, ref, n)
    d = S * 10**rng.uniform(-11, -2, n) * rng.choice([-1, 1], n)
    yield 'near', bx + d * nx, by + d * ny
    if ref.kind == 'poly':
        v = rng.integers(0, len(ref.X), n)
        yield 'vertex-y', rng.uniform(-1.3 * S, 1.3 * S, n), ref.Y[v]
        yield 'vertex-x', ref.X[v], rng.uniform(-1.3 * S, 1.3 * S, n)
        v = v[:200]
        th = rng.uniform(0, 2 * np.pi, len(v))
        d = S * 10**rng.uniform(-10, -2, len(v))
        yield 'near-vertex', ref.X[v] + d * np.cos(th), ref.Y[v] + d * np.sin(th)
    z = np.zeros(n)
    yield 'axis', np.where(rng.random(n) < .5, z, rng.uniform(-1.5 * S, 1.5 * S, n)), np.where(rng.random(n) < .5, z, rng.uniform(-1.5 * S, 1.5 * S, n))
    yield 'far', S * 10**rng.uniform(0, 6, n) * rng.choice([-1, 1], n), S * 10**rng.uniform(-6, 6, n) * rng.choice([-1, 1], n)


def classify(case, kind):
    rng = case.rng
    ch, ref, lab = chambers.make(rng, kind)
    S = ref.scale
    org = bool(ref.inside([0.], [0.])[0])
    n = 400 if case.tier == 'quick' else 4000
    for cls, x, y in points(rng, ref, n):
        x, y = np.ascontiguousarray(x, float), np.ascontiguousarray(y, float)
        kx, ky = x.copy(), y.copy()
        o = np.asarray(ch.is_outside(x, y))
        case.check(np.array_equal(x, kx) and np.array_equal(y, ky), 'inputs-modified', lab)
        if not case.check(o.shape == x.shape and o.dtype == bool, 'shape', '%s: result %r %r' % (lab, o.shape, o.dtype)):
            return
        ins = ref.inside(x, y)
        far = (ref.dist(x, y) > 1e-11 * S) & (np.hypot(x, y) > (0 if org else 2e-9))   # the origin belongs to no valid inscribed ellipse then
        bad = far & (o == ins)
        case.check(not bad.any(), 'misclassified', lambda: '%s/%s: point (%r, %r) is %s but classified %s' % (
            lab, cls, x[int(np.argmax(bad))], y[int(np.argmax(bad))], 'inside' if ins[int(np.argmax(bad))] else 'outside', 'outside' if o[int(np.argmax(bad))] else 'inside'))
        case.ok('%s/%s/in' % (lab, cls), int((far & ins).sum()))
        case.ok('%s/%s/out' % (lab, cls), int((far & ~ins).sum()))
        case.count('inside', (far & ins).sum())
        case.count('outside', (far & ~ins).sum())
        # independence of the rest of the call
        p = rng.permutation(len(x))[:50]
        o2 = np.asarray(ch.is_outside(x[p].copy(), y[p].copy()))
        case.check(np.array_equal(o2, o[p]), 'batch-dependence', '%s/%s: classification depends on the other points' % (lab, cls))
        case.sample(chamber=lab, cls=cls, x=float(x[0]), y=float(y[0]), outside=bool(o[0]))
    if ref.kind == 'ellip' or kind == 'convex' or (kind == 'rect' and 'False' not in lab):
        # the wall itself counts as outside ("strictly inside"); exactly representable wall points
        if ref.kind == 'ellip':
            px, py = np.array([ref.a, -ref.a, 0, 0]), np.array([0, 0, ref.b, -ref.b])
        else:
            px, py = ref.X.copy(), ref.Y.copy()
        o = np.asarray(ch.is_outside(px, py))
        case.check(o.all(), 'wall-inside', lambda: '%s: wall point (%r, %r) classified as inside' % (lab, px[int(np.argmin(o))], py[int(np.argmin(o))]))
        case.ok('%s/wall' % lab, len(px))
    # descriptors
    if kind != 'legacy':
        case.check(abs(ch.area - ref.area) <= 1e-9 * ref.area, 'area', '%s: area %r, expected %r' % (lab, ch.area, ref.area))
    xa = ref.a if ref.kind == 'ellip' else np.max(np.abs(ref.X))
    ya = ref.b if ref.kind == 'ellip' else np.max(np.abs(ref.Y))
    case.check(abs(ch.x_aper - xa) <= 1e-12 * S and abs(ch.y_aper - ya) <= 1e-12 * S, 'aperture', '%s: apertures %r %r, expected %r %r' % (lab, ch.x_aper, ch.y_aper, xa, ya))
    if ref.kind == 'poly':
        case.check(ch.N_vert == len(ref.X) if hasattr(ch, 'N_vert') else True, 'n-vert', lab)
        if hasattr(ch, 'L_edg'):
            case.check(np.allclose(ch.L_edg, ref.L, rtol=1e-9, atol=0), 'segment-length', '%s: segment lengths %r, expected %r' % (lab, ch.L_edg, ref.L))
    case.ok('%s/desc' % lab)
    e = np.zeros(0)
    case.check(len(ch.is_outside(e, e)) == 0, 'empty', 'empty call')


def reject(case):
    """Invalid polygons are refused, valid ones accepted."""
    from PyECLOUD.geom_impact_poly_fast_impact import polyg_cham_geom_object, polyg_cham_photoemission
    rng = case.rng

    def refused(f):
        try:
            f()
        except ValueError:
            return True
        return False
    Vx, Vy, lab = chambers.polygon(rng, True)
    insc = (1e-4, 1e-4)
    d = simgen.poly_dict(Vx, Vy, insc)
    case.check(not refused(lambda: polyg_cham_geom_object(d, 0)), 'valid-rejected', 'valid convex polygon %s rejected' % lab)
    dr = simgen.poly_dict(Vx[::-1], Vy[::-1], insc)
    for cv in (True, False):
        case.check(refused(lambda: polyg_cham_geom_object(dr, 0, flag_assume_convex=cv)), 'clockwise-accepted', 'clockwise polygon accepted (%s)' % lab)
    k = int(rng.integers(0, len(Vx)))
    if rng.random() < .4:
        k = len(Vx) - 1 if rng.random() < .5 else 0
    if k == len(Vx) - 1:   # closing segment of zero length
        dz = simgen.poly_dict(np.append(Vx, Vx[0]), np.append(Vy, Vy[0]), insc)
    else:
        dz = simgen.poly_dict(np.insert(Vx, k + 1, Vx[k]), np.insert(Vy, k + 1, Vy[k]), insc)
    for cv in (True, False):
        case.check(refused(lambda: polyg_cham_geom_object(dz, 0, flag_assume_convex=cv)), 'zero-segment-accepted', 'polygon with zero length segment %d accepted' % k)
    while True:
        Ux, Uy, lab2 = chambers.polygon(rng, False)
        if not PolyRef(Ux, Uy).convex() and PolyRef(Ux, Uy).area > 0:
            break
    dn = simgen.poly_dict(Ux, Uy, insc)
    case.check(refused(lambda: polyg_cham_geom_object(dn, 0, flag_assume_convex=True)), 'nonconvex-accepted', 'non-convex polygon %s accepted as convex' % lab2)
    case.check(not refused(lambda: polyg_cham_geom_object(dn, 0, flag_assume_convex=False)), 'valid-rejected', 'valid non-convex polygon %s rejected' % lab2)
    w = np.cumsum(rng.random(len(Vx)))
    cdf = w / w[-1]
    case.check(not refused(lambda: polyg_cham_photoemission(simgen.poly_dict(Vx, Vy, insc, phem_cdf=cdf))), 'valid-rejected', 'photoemission polygon rejected')
    case.check(refused(lambda: polyg_cham_photoemission(simgen.poly_dict(Vx, Vy, insc, phem_cdf=cdf * .5))), 'bad-cdf-accepted', 'cdf not ending at 1 accepted')
    bad = cdf.copy()
    bad[0] = 1.2
    case.check(refused(lambda: polyg_cham_photoemission(simgen.poly_dict(Vx, Vy, insc, phem_cdf=bad))), 'bad-cdf-accepted', 'decreasing cdf accepted')
    case.check(refused(lambda: polyg_cham_photoemission(simgen.poly_dict(Vx[::-1], Vy[::-1], insc, phem_cdf=cdf))), 'clockwise-accepted', 'clockwise photoemission polygon accepted')
    ch = polyg_cham_photoemission(simgen.poly_dict(Ux, Uy, simgen.inscribed(Ux, Uy), phem_cdf=np.linspace(0, 1, len(Ux) + 1)[1:]))
    ref = PolyRef(Ux, Uy)
    x, y = rng.uniform(-1.2 * ref.scale, 1.2 * ref.scale, (2, 500))
    far = ref.dist(x, y) > 1e-11 * ref.scale
    o = np.asarray(ch.is_outside(x, y))
    case.check(np.array_equal(o[far], ~ref.inside(x, y)[far]), 'misclassified', 'photoemission chamber %s: wrong classification' % lab2)
    case.ok('%s/%d' % (lab, k), 10)
    case.ok(lab2)


def tasks(tier):
    k = 1 if tier == 'quick' else 6
    return [Task(classify, 60 * k, kind='ellip', min_ok=5000), Task(classify, 60 * k, kind='rect', min_ok=5000),
            Task(classify, 150 * k, kind='convex', min_ok=10000), Task(classify, 50 * k, kind='convex_general', min_ok=5000),
            Task(classify, 200 * k, kind='nonconvex', min_ok=10000), Task(classify, 60 * k, kind='legacy', min_ok=2000),
            Task(reject, 150 * k, min_ok=500)]
