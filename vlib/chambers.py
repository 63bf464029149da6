"""Random chambers: (chamber object of the code under test, independent reference, label)."""
import numpy as np
from . import simgen
from .geomref import PolyRef, EllipRef


def ngon(n, a, b, rot=0.):
    th = np.linspace(0, 2 * np.pi, n, endpoint=False) + rot
    return a * np.cos(th), b * np.sin(th)


def lhc_screen(rng):
    """Circle cut by two horizontal planes (strictly convex up to the flats)."""
    r, h = 2.3e-2, rng.uniform(1.4e-2, 2.1e-2)
    x1 = np.sqrt(r * r - h * h)
    t1 = np.arctan2(h, x1)
    right = np.linspace(-t1, t1, int(rng.integers(3, 25)))
    left = np.linspace(np.pi - t1, np.pi + t1, int(rng.integers(3, 25)))
    th = np.concatenate((right, left))
    return r * np.cos(th), r * np.sin(th)


def antechamber(rng):
    """Chamber with a side slot (non-convex)."""
    r, h, l = 2e-2, rng.uniform(2e-3, 6e-3), rng.uniform(3e-2, 5e-2)
    t1 = np.arcsin(h / r)
    th = np.linspace(t1, 2 * np.pi - t1, int(rng.integers(8, 30)))
    x, y = r * np.cos(th), r * np.sin(th)
    return np.concatenate((x, [l, l])), np.concatenate((y, [-h, h]))


def comb(rng):
    """Grooved wall: several teeth, so that one straight path can cross the wall many times."""
    k = int(rng.integers(2, 6))
    w, h, d = 3e-2, 1.5e-2, rng.uniform(2e-3, 1e-2)
    xs = np.linspace(w, -w, 2 * k + 1)
    ys = np.where(np.arange(2 * k + 1) % 2 == 0, h, h - d)
    return np.concatenate((xs, [-w, w])), np.concatenate((ys, [-h, -h]))


def l_shape(rng):
    a, b = rng.uniform(1e-2, 3e-2), rng.uniform(1e-2, 3e-2)
    return np.array([0, 2, 2, 1, 1, 0.]) * a - a / 3, np.array([0, 0, 1, 1, 2, 2.]) * b - b / 3


def polygon(rng, convex):
    k = int(rng.integers(0, 5))
    if convex:
        if k == 0:
            V, lab = simgen.rand_convex(rng), 'rand'
        elif k == 1:
            V, lab = ngon(int(rng.integers(3, 40)), rng.uniform(5e-3, 4e-2), rng.uniform(5e-3, 4e-2), rng.uniform(0, 6.3)), 'ngon'
        elif k == 2:
            V, lab = lhc_screen(rng), 'screen'
        elif k == 3:
            V, lab = (np.array([2, 1, -1, -2, -1, 1.]) * 1e-2, np.array([0, 1, 1, 0, -1, -1.]) * 1e-2), 'hexa'
        else:
            V, lab = (np.array([1, 1, -1, -1, -1, 0, 1]) * 2e-2, np.array([0, 1, 1, .3, -1, -1, -1]) * 1e-2), 'collinear'
    else:
        if k <= 1:
            V, lab = simgen.rand_nonconvex(rng), 'star'
        elif k == 2:
            V, lab = antechamber(rng), 'ante'
        elif k == 3:
            V, lab = comb(rng), 'comb'
        else:
            V, lab = l_shape(rng), 'L'
    Vx, Vy = np.array(V[0], float), np.array(V[1], float)
    if rng.random() < 0.4:  # off-centre
        Vx = Vx + rng.uniform(-1, 1) * 0.3 * np.max(np.abs(Vx))
        Vy = Vy + rng.uniform(-1, 1) * 0.3 * np.max(np.abs(Vy))
        lab += '+off'
    if rng.random() < 0.5:
        r = int(rng.integers(0, len(Vx)))
        Vx, Vy = np.roll(Vx, r), np.roll(Vy, r)
    return Vx, Vy, lab


def make(rng, kind):
    """kind: ellip | rect | convex | nonconvex | convex_general | legacy"""
    if kind == 'ellip':
        from PyECLOUD.geom_impact_ellip import ellip_cham_geom_object
        a, b = rng.uniform(3e-3, 5e-2, 2)
        if rng.random() < .3:
            b = a
        return ellip_cham_geom_object(a, b, flag_verbose_file=False), EllipRef(a, b), 'ellip'
    if kind == 'rect':
        from PyECLOUD.geom_impact_rect_fast_impact import rect_cham_geom_object
        a, b = rng.uniform(3e-3, 5e-2, 2)
        if rng.random() < .3:
            a, b = 2.2e-2, 1.8e-2
        kw = {}
        if rng.random() < .3:
            kw['flag_assume_convex'] = False
        return rect_cham_geom_object(a, b, 0, **kw), PolyRef([a, -a, -a, a], [b, b, -b, -b]), 'rect' + str(kw.get('flag_assume_convex', ''))
    convex = kind != 'nonconvex'
    while True:
        Vx, Vy, lab = polygon(rng, convex)
        ref = PolyRef(Vx, Vy)
        if ref.area > 0 and np.min(ref.L) > 1e-6 and (convex or not ref.convex()):
            break
    insc = simgen.inscribed(Vx, Vy, shrink=rng.choice([0.999999, 0.9, 0.2]))
    d = simgen.poly_dict(Vx, Vy, insc)
    if kind == 'legacy':
        from PyECLOUD.geom_impact_poly import polyg_cham_geom_object
        return polyg_cham_geom_object(d, 0), ref, 'legacy:' + lab
    from PyECLOUD.geom_impact_poly_fast_impact import polyg_cham_geom_object
    return polyg_cham_geom_object(d, 0, flag_assume_convex=(kind == 'convex')), ref, kind + ':' + lab


def inside_points(rng, ref, n):
    X, Y = [], []
    got = 0
    if ref.kind == 'ellip':
        lo, hi, lo2, hi2 = -ref.a, ref.a, -ref.b, ref.b
    else:
        lo, hi, lo2, hi2 = ref.X.min(), ref.X.max(), ref.Y.min(), ref.Y.max()
    while got < n:
        x, y = rng.uniform(lo, hi, 4 * n), rng.uniform(lo2, hi2, 4 * n)
        m = ref.inside(x, y) & (ref.dist(x, y) > 1e-9 * ref.scale)
        X.append(x[m])
        Y.append(y[m])
        got += m.sum()
    return np.concatenate(X)[:n].copy(), np.concatenate(Y)[:n].copy()


def boundary_points(rng, ref, n):
    """Points on the wall and the inward normal there."""
    if ref.kind == 'ellip':
        th = rng.uniform(0, 2 * np.pi, n)
        x, y = ref.a * np.cos(th), ref.b * np.sin(th)
        nx, ny = ref.normal(x, y)
        return x, y, nx, ny
    e = rng.integers(0, len(ref.X), n)
    u = rng.random(n)
    return ref.X[e] + u * (ref.X2[e] - ref.X[e]), ref.Y[e] + u * (ref.Y2[e] - ref.Y[e]), ref.Nx[e], ref.Ny[e]
