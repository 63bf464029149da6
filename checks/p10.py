"""P10: particle trackers against an independent integration of the Lorentz force, in isolation and in simulations."""
import math
import numpy as np
import scipy.io as sio
from vlib import configs, mpsys
from vlib.harness import Task
from vlib.simgen import QE, ME, MACH, merge

PROP, LEVEL = 'P10', 'exploration'
TECHNIQUE = 'runtime monitor of tracker steps against independent references (closed-form rotation per step, high-order integration of the Lorentz force), with convergence and invariant checks'
NOTE = 'Every observed tracker call is judged against a reference integration with the configured field; limited to the fields, energies, species and step lengths drawn.'
RULE = 'one evaluation = one tracker call (all its particles) judged; distinct = (tracker, field, species, kind of comparison)'


class Field:
    """Reference magnetic field and the arguments that configure it."""

    def __init__(self, rng, kind):
        self.kind = kind
        s = float(10**rng.uniform(-3, .7))
        self.B0 = np.zeros(3)
        self.kn, self.ks = [], []
        self.grad = 0.
        self.map = None
        if kind in ('uniform', 'quad', 'map', 'map3'):
            self.B0 = rng.normal(0, s, 3) * (rng.random(3) < .8)
        if kind == 'quad':
            self.grad = float(rng.choice([-1, 1]) * 10**rng.uniform(-1, 2))
        if kind == 'multipole':
            n = int(rng.integers(1, 8))
            sc = s / (2e-2)**np.arange(n) * np.array([math.factorial(i) for i in range(n)])
            self.kn = list(rng.normal(0, 1, n) * sc * (rng.random(n) < .7))
            self.ks = list(rng.normal(0, 1, n) * sc * (rng.random(n) < .7)) if rng.random() < .6 else None
            if rng.random() < .5:
                self.B0 = rng.normal(0, s, 3) * (rng.random(3) < .6)
        if kind in ('map', 'map3'):
            nx, ny = int(rng.integers(5, 40)), int(rng.integers(5, 40))
            self.xx, self.yy = np.linspace(-2.5e-2, 2.5e-2, nx), np.linspace(-2e-2, 2.2e-2, ny)
            X, Y = np.meshgrid(self.xx, self.yy, indexing='ij')
            c = rng.normal(0, s, (3, 4))
            self.map = [m[0] + m[1] * np.sin(X / 1e-2) + m[2] * np.cos(Y / 7e-3) + m[3] * X * Y / 1e-4 for m in c]
            if kind == 'map':
                self.map[2] = None
            self.fact = float(rng.choice([1., rng.uniform(.1, 3)]))

    def __call__(self, x, y):
        B = [np.full(x.shape, b) for b in self.B0]
        if self.kind == 'quad':
            B[0], B[1] = B[0] + self.grad * y, B[1] + self.grad * x
        if self.kind == 'multipole':
            z = x + 1j * y
            tot = np.zeros(x.shape, complex)
            for c, f in ((self.kn, 1), (self.ks or [], 1j)):
                for i in range(len(c)):
                    tot += f * c[i] * z**i / math.factorial(i)
            B[0], B[1] = B[0] + tot.imag, B[1] + tot.real
        if self.map is not None:
            from scipy.interpolate import RegularGridInterpolator
            out = (x < self.xx[0]) | (x >= self.xx[-1]) | (y < self.yy[0]) | (y >= self.yy[-1])
            for i in range(3):
                if self.map[i] is not None:
                    f = RegularGridInterpolator((self.xx, self.yy), self.map[i], bounds_error=False, fill_value=0.)
                    B[i] = B[i] + self.fact * np.where(out, 0., f(np.array([x, y]).T))
        return B

    def file(self, case):
        fn = case.path('bmap.mat')
        d = dict(xx=self.xx, yy=self.yy, Bx=self.map[0], By=self.map[1])
        if self.map[2] is not None:
            d['Bz'] = self.map[2]
        sio.savemat(fn, d, oned_as='row')
        return fn


def rotate(v, ax, ang):
    """Rotation of v (3,N) by ang about the unit axes ax."""
    c, s = np.cos(ang), np.sin(ang)
    d = (v * ax).sum(0)
    return v * c + np.cross(ax, v, axis=0) * s + ax * d * (1 - c)


def boris_ref(r, v, E, Bfun, q, m, dt, n, extra=None):
    """Boris scheme written as half kick, rotation by 2 atan(wc dt/2), half kick, drift."""
    r, v = r.copy(), v.copy()
    for _ in range(n):
        B = np.array(Bfun(r[0], r[1]))
        if extra is not None:
            B = B + extra
        v = v + .5 * q / m * dt * E
        b = np.sqrt((B**2).sum(0))
        ax = np.where(b > 0, B / np.where(b > 0, b, 1), 0)
        v = rotate(v, ax, -2 * np.arctan(.5 * q / m * dt * b))
        v = v + .5 * q / m * dt * E
        r = r + v * dt
    return r, v


def uniform_exact(r, v, E, B, q, m, T):
    """Closed-form motion in uniform fields (through the complex exponential of the rotation generator)."""
    import scipy.linalg as sl
    R, V = np.empty_like(r), np.empty_like(v)
    for p in range(r.shape[1]):
        b = B[:, p] if B.ndim == 2 else B
        w = q / m
        G = w * np.array([[0, b[2], -b[1]], [-b[2], 0, b[0]], [b[1], -b[0], 0]])
        M = np.zeros((7, 7))
        M[0:3, 3:6] = np.eye(3)
        M[3:6, 3:6] = G
        M[3:6, 6] = w * E[:, p]
        # scaled so that the exponential is well conditioned
        S = np.diag([1, 1, 1, T, T, T, 1.])
        P = sl.expm(S @ M @ np.linalg.inv(S) * T)
        s = P @ np.concatenate([r[:, p], v[:, p] * T, [1.]])
        R[:, p], V[:, p] = s[:3], s[3:6] / T
    return R, V


def rk4(r, v, E, Bfun, q, m, T, n):
    h = T / n
    w = q / m

    def acc(r, v):
        return w * (E + np.cross(v, np.array(Bfun(r[0], r[1])), axis=0))
    for _ in range(n):
        k1v, k1r = acc(r, v), v
        k2v, k2r = acc(r + .5 * h * k1r, v + .5 * h * k1v), v + .5 * h * k1v
        k3v, k3r = acc(r + .5 * h * k2r, v + .5 * h * k2v), v + .5 * h * k2v
        k4v, k4r = acc(r + h * k3r, v + h * k3v), v + h * k3v
        r, v = r + h / 6 * (k1r + 2 * k2r + 2 * k3r + k4r), v + h / 6 * (k1v + 2 * k2v + 2 * k3v + k4v)
    return r, v


def pusher(case, rng, kind, F, Dt, n):
    if kind == 'Boris':
        from PyECLOUD.dynamics_Boris_f2py import pusher_Boris
        mapf, fact = None, 1.
        if F.kind == 'quad':
            mapf, fact = ''.join(['analytic_qaudrupole', '_unit_grad']), F.grad
        elif F.map is not None:
            mapf, fact = F.file(case), F.fact
        return pusher_Boris(Dt, F.B0[0], F.B0[1], F.B0[2], mapf, fact, N_sub_steps=n)
    if kind == 'BorisMultipole':
        from PyECLOUD.dynamics_Boris_multipole import pusher_Boris_multipole
        kn, ks = F.kn, F.ks
        b0 = [float(b) for b in F.B0]
        if F.kind == 'quad':
            kn, ks = [0., F.grad], None
        if F.kind in ('multipole', 'none') and not np.any(b0) and rng.random() < .7:
            b0 = [None, None, None]
        if F.kind == 'uniform' and rng.random() < .5:
            kn, ks, b0 = [b0[1]], [b0[0]], [None, None, b0[2]]
        return pusher_Boris_multipole(Dt, N_sub_steps=n, B_multip=kn, B_skew=ks, B0x=b0[0], B0y=b0[1], B0z=b0[2])


def cloud(case, rng, nmax, n, electron, spread=1e-2):
    from PyECLOUD.geom_impact_rect_fast_impact import rect_cham_geom_object
    ch = rect_cham_geom_object(5e-2, 5e-2, 0)
    over = dict(charge=-QE, mass=ME) if electron else {}
    MP, kw = mpsys.make(rng, ch, nmax=nmax, **over)
    v = np.sqrt(2 * 10**rng.uniform(-2, 3.5) * QE / MP.mass)
    if n:
        MP.add_new_MPs(n, rng.uniform(1, 1e6, n), *(rng.uniform(-spread, spread, (3, n)) * np.array([[1], [1], [10]])), *rng.normal(0, v, (3, n)), rng.uniform(0, 1e-6, n))
    return MP


def state(MP):
    n = MP.N_mp
    return (np.array([np.array(getattr(MP, k)[:n]) for k in ('x_mp', 'y_mp', 'z_mp')]), np.array([np.array(getattr(MP, k)[:n]) for k in ('vx_mp', 'vy_mp', 'vz_mp')]))


def other(MP):
    n = MP.N_mp
    return [np.array(MP.nel_mp)] + ([np.array(MP.t_last_impact)] if MP.flag_lifetime_hist else []) + [np.array(getattr(MP, k)[n:]) for k in ('x_mp', 'y_mp', 'z_mp', 'vx_mp', 'vy_mp', 'vz_mp')] + [np.array([n])]


def efield(rng, MP, r, v):
    n = r.shape[1]
    vt = np.abs(v).max() + 1. if n else 1.
    s = 10**rng.uniform(-3, 1) * vt * MP.mass / abs(MP.charge) / 1e-10
    E = np.zeros((3, n))
    if rng.random() < .8:
        E[:2] = rng.normal(0, s, (2, n)) if rng.random() < .6 else rng.normal(0, s, (2, 1))
    return E


def agree(case, key, lab, got, want, rtol, what, floor=None):
    """Positions and velocities against the reference, relative to the motion of the step."""
    (r, v), (R, V) = got, want[:2]
    sr = want[2] if len(want) > 2 else np.abs(R).max()
    sv = np.abs(V).max() + 1e-300
    dr, dv = np.abs(r - R).max(initial=0), np.abs(v - V).max(initial=0)
    good = np.all(np.isfinite(r)) and np.all(np.isfinite(v)) and dr <= rtol * sr + 1e-14 and dv <= rtol * sv
    return case.check(good, key, lambda: '%s: %s: position differs by %.3e (motion %.3e), velocity by %.3e (%.3e)' % (lab, what, dr, sr, dv, sv))


def push(case, MP, dyn, E, mode, lab, extra=None, Dts=None, n=None):
    before = other(MP)
    kw = {}
    if extra is not None:
        kw = {k: e.copy() for k, e in zip(('Bx_n', 'By_n', 'Bz_n'), extra) if e.any()}  # components that are zero are not given
    e = [E[0].copy(), E[1].copy()]
    out = dyn.step(MP, e[0], e[1], **kw) if mode == 'step' else dyn.stepcustomDt(MP, e[0], e[1], Dt_substep=Dts, N_sub_steps=n, **kw)
    case.check(out is None or out is MP or out.N_mp == MP.N_mp, 'returned', '%s: tracker returned another cloud' % lab)
    after = other(MP)
    case.check(all(np.array_equal(a, b) for a, b in zip(before, after)), 'side-effect', '%s: tracker changed sizes, times of last impact, the number of particles or unused storage' % lab)
    return state(MP)


FIELDS = {'Boris': ['uniform', 'quad', 'map', 'map3', 'none'], 'BorisMultipole': ['uniform', 'quad', 'multipole', 'none']}


def boris(case):
    """One call of a Boris tracker against the scheme; sub-steps against single steps; energy in pure magnetic fields."""
    rng = case.rng
    for it in range(12):
        kind = str(rng.choice(['Boris', 'BorisMultipole']))
        fk = str(rng.choice(FIELDS[kind]))
        F = Field(rng, fk)
        n = int(rng.choice([1, 1, 2, 3, 7, 20]))
        Dt = float(10**rng.uniform(-12, -9.5))
        N = int(rng.choice([0, 1, 2, 40, 300], p=[.05, .1, .1, .35, .4]))
        MP = cloud(case, rng, 400, N, rng.random() < .5)
        if F.ks and rng.random() < .3:  # as many skew components as normal ones, or refused
            F.ks = F.ks[:int(rng.integers(1, len(F.ks) + 1))] if rng.random() < .5 else F.ks + [float(rng.normal(0, 1e4))]
        try:
            dyn = pusher(case, rng, kind, F, Dt, n)
        except ValueError:
            if F.ks and len(F.ks) != len(F.kn):
                case.ok('unequal lengths refused')
                continue
            raise
        r0, v0 = state(MP)
        E = efield(rng, MP, r0, v0)
        extra = None
        if kind == 'BorisMultipole' and rng.random() < .6:
            extra = rng.normal(0, .05, (3, N)) if rng.random() < .7 else np.zeros((3, 1))
            if rng.random() < .4:
                extra *= (rng.random(3) < .4)[:, None]
        lab = '%s|%s|%s' % (kind, fk, 'e' if abs(MP.charge / MP.mass + QE / ME) < 1e9 else 'ion')
        mode = str(rng.choice(['step', 'custom']))
        dts, ns = (Dt / n, n) if mode == 'step' else (float(10**rng.uniform(-12, -10)), int(rng.integers(1, 8)))
        got = push(case, MP, dyn, E, mode, lab, extra, dts, ns)
        if N == 0:
            case.ok(lab + '|empty')
            continue
        R, V = boris_ref(r0, v0, E, F, MP.charge, MP.mass, dts, ns, None if extra is None else np.broadcast_to(extra, (3, N)))
        move = np.abs(R - r0).max()
        if not agree(case, 'scheme', lab, (got[0] - r0, got[1]), (R - r0, V, move), 1e-8, '%s of %g s x %d' % (mode, dts, ns)):
            return
        case.ok('%s|%s' % (lab, mode))
        if not E.any():
            e0, e1 = (v0**2).sum(0), (got[1]**2).sum(0)
            case.check(np.all(np.abs(e1 - e0) <= 1e-12 * ns * e0 + 1e-300), 'energy', lambda: '%s: kinetic energy changed by %.2e in a magnetic field' % (lab, np.max(np.abs(e1 / e0 - 1))))
            case.ok(lab + '|energy')
        # sub-steps one by one
        MP2 = cloud(case, rng, 400, N, True)
        MP2.charge, MP2.mass = MP.charge, MP.mass
        for k, a in zip(('x_mp', 'y_mp', 'z_mp'), r0):
            getattr(MP2, k)[:N] = a
        for k, a in zip(('vx_mp', 'vy_mp', 'vz_mp'), v0):
            getattr(MP2, k)[:N] = a
        for _ in range(ns):
            g2 = push(case, MP2, dyn, E, 'custom', lab, extra, dts, 1)
        agree(case, 'substeps', lab, (got[0] - r0, got[1]), (g2[0] - r0, g2[1], move), 1e-10, '%d sub-steps and %d single steps' % (ns, ns))
        case.ok(lab + '|substeps')
    case.sample(last=lab, Dt=Dt, n=n)


def converge(case):
    """Refinement of the Boris trackers towards the exact trajectory."""
    rng = case.rng
    for it in range(3):
        kind = str(rng.choice(['Boris', 'BorisMultipole']))
        fk = str(rng.choice([f for f in FIELDS[kind] if not f.startswith('map')]))
        F = Field(rng, fk)
        N = 20
        MP = cloud(case, rng, 50, N, rng.random() < .6)
        r0, v0 = state(MP)
        q, m = MP.charge, MP.mass
        b = np.sqrt(sum(np.abs(x)**2 for x in F(r0[0], r0[1]))).max() + 1e-12
        T = float(min(rng.uniform(.2, 2.5) / (abs(q) / m * b), 3e-3 / np.abs(v0).max()))
        E = rng.normal(0, .3 * np.abs(v0).max() * m / abs(q) / T, (3, N))
        E[2] = 0.
        R, V = rk4(r0, v0, E, F, q, m, T, 400)
        lab = '%s|%s|conv' % (kind, fk)
        err, res = [], []
        for n in (50, 100, 200, 400):
            dyn = pusher(case, rng, kind, F, T, n)
            for k, a in zip(('x_mp', 'y_mp', 'z_mp'), r0):
                getattr(MP, k)[:N] = a
            for k, a in zip(('vx_mp', 'vy_mp', 'vz_mp'), v0):
                getattr(MP, k)[:N] = a
            g = push(case, MP, dyn, E, 'step', lab)
            res.append(g)
            err.append((np.abs(g[0] - R).max() / np.abs(R - r0).max(), np.abs(g[1] - V).max() / np.abs(v0).max()))
        err = np.array(err)
        rich = (np.abs(2 * res[3][0] - res[2][0] - R).max() / np.abs(R - r0).max(), np.abs(2 * res[3][1] - res[2][1] - V).max() / np.abs(v0).max())
        # (terms of first and second order can cancel for one step length)
        good = bool(np.all(err[-1] <= .6 * err[:-1].max(0) + 1e-6)) and bool(np.all(err[-1] < 2e-2)) and max(rich) < 2e-3
        case.count('extrapolated_below_1e-4', int(max(rich) < 1e-4))
        case.check(good, 'convergence', lambda: '%s: relative errors of position and velocity for 50, 100, 200, 400 steps: %s' % (lab, err.tolist()))
        case.ok(lab)
        case.count('refinements', 4)


def strong(case):
    """Strong-field trackers: exact in uniform fields."""
    from PyECLOUD.dynamics_dipole import pusher_dipole_magnet
    from PyECLOUD.dynamics_strong_B_generalized import pusher_strong_B_generalized
    rng = case.rng
    for it in range(10):
        N = int(rng.choice([0, 1, 25], p=[.1, .2, .7]))
        MP = cloud(case, rng, 60, N, True)
        r0, v0 = state(MP)
        E = efield(rng, MP, r0, v0)
        Dt = float(10**rng.uniform(-12.5, -9.5))
        gen = rng.random() < .6
        if not gen:
            B = np.array([0, rng.choice([-1, 1]) * 10**rng.uniform(-6, .9), 0])
            if rng.random() < .1:
                B[1] = 0.
            dyn = pusher_dipole_magnet(Dt, float(B[1]))
            Bp, fk = np.repeat(B[:, None], N, 1), 'dip'
        else:
            F = Field(rng, str(rng.choice(['uniform', 'quad', 'map', 'none'])))
            F.B0[2] = 0.
            thr = float(rng.choice([1e-6, 1e-3, 1e-4]))
            if F.kind in ('uniform', 'none') and rng.random() < .5:  # fields around the threshold
                th = rng.uniform(0, 2 * np.pi)
                F.kind, F.B0 = 'uniform', thr * 10**rng.uniform(-1, 2.5) * np.array([np.cos(th), np.sin(th), 0.])
            elif F.kind == 'quad' and rng.random() < .3:
                F.grad *= 1e-3
                F.B0 *= 0.
            mapf, fact = None, 1.
            if F.kind == 'quad':
                mapf, fact = ''.join(['analytic_qaudrupole', '_unit_grad']), F.grad
            elif F.map is not None:
                mapf, fact = F.file(case), F.fact
            dyn = pusher_strong_B_generalized(Dt, F.B0[0], F.B0[1], mapf, fact, thr)
            Bp, fk = np.array(F(r0[0], r0[1])).reshape(3, N), F.kind
            bm = np.sqrt((Bp**2).sum(0))
            if np.any(np.abs(bm / thr - 1) < 1e-6):
                continue
            Bp = np.where(bm < thr, 0., Bp)  # below the threshold the field is neglected
        lab = 'strong|%s|%s' % ('gen' if gen else 'dip', fk)
        got = push(case, MP, dyn, E, 'step', lab)
        if N == 0:
            case.ok(lab + '|empty')
            continue
        w = QE / ME * np.sqrt((Bp**2).sum(0)).max()
        R, V = uniform_exact(r0, v0, E, Bp, -QE, ME, Dt)
        wm = np.sqrt((Bp**2).sum(0))
        wm = QE / ME * Dt * (wm[wm > 0].min() if (wm > 0).any() else 1.)  # smallest rotation: differences like 1-cos lose digits
        agree(case, 'strong-exact', lab, (got[0] - r0, got[1]), (R - r0, V, np.abs(R - r0).max() + 1e-9 * np.abs(v0).max() * Dt), 1e-6 * (1 + w * Dt) + 3e-15 / wm**2, 'step of %g s, up to %.2g cyclotron radians' % (Dt, w * Dt))
        case.ok(lab)
        if not E.any():
            e0, e1 = (v0**2).sum(0), (got[1]**2).sum(0)
            case.check(np.all(np.abs(e1 - e0) <= 1e-9 * e0), 'energy', lambda: '%s: kinetic energy changed by %.2e in a magnetic field' % (lab, np.max(np.abs(e1 / e0 - 1))))
            case.ok(lab + '|energy')
    case.sample(last=lab, Dt=Dt)


def cross(case):
    """Different trackers, same field, refined steps."""
    from PyECLOUD.dynamics_dipole import pusher_dipole_magnet
    from PyECLOUD.dynamics_strong_B_generalized import pusher_strong_B_generalized
    rng = case.rng
    N = 30
    B = float(10**rng.uniform(-3, 0))
    F = Field(rng, 'uniform')
    F.B0 = np.array([0, B, 0])
    T = float(rng.uniform(.1, 2) / (QE / ME * B))
    res = {}
    MP = cloud(case, rng, 50, N, True)
    r0, v0 = state(MP)
    E = efield(rng, MP, r0, v0)
    for name, dyn in [('dip', pusher_dipole_magnet(T, B)), ('gen', pusher_strong_B_generalized(T, 0., B, None, 1., 1e-6)),
                      ('boris', pusher(case, rng, 'Boris', F, T, 3000)), ('multi', pusher(case, rng, 'BorisMultipole', F, T, 3000))]:
        for k, a in zip(('x_mp', 'y_mp', 'z_mp'), r0):
            getattr(MP, k)[:N] = a
        for k, a in zip(('vx_mp', 'vy_mp', 'vz_mp'), v0):
            getattr(MP, k)[:N] = a
        res[name] = push(case, MP, dyn, E, 'step', name)
    R, V = res['dip']
    sc = np.abs(R - r0).max() + np.abs(v0).max() * T
    for name in ('gen', 'boris', 'multi'):
        agree(case, 'cross', 'dip-' + name, (res[name][0] - r0, res[name][1]), (R - r0, V, sc), 1e-6 if name == 'gen' else 3e-3, 'different trackers in the same field')
        case.ok('cross|' + name)
    agree(case, 'cross', 'boris-multi', (res['multi'][0] - r0, res['multi'][1]), (res['boris'][0] - r0, res['boris'][1], sc), 1e-9, 'different trackers in the same field')


def simulate(case, tracker):
    """Tracker calls inside simulations, field taken from the machine parameters."""
    rng = case.rng
    clouds = int(rng.random() < .3) if not tracker.startswith('Strong') else 0
    cfg = configs.random(rng, tracker=tracker, clouds=clouds, regen='none')
    sim = cfg.build(case)
    m = {k: v for k, v in merge(MACH, cfg.mach).items()}
    F = Field(rng, 'none')
    F.B0 = np.array([float(m.get(k) or 0.) for k in ('B0x', 'B0y', 'B0z')])
    if tracker == 'StrongBdip':
        F.B0 = np.array([0, m['B'], 0])
    if tracker == 'StrongBgen':
        F.B0[2] = 0.
    if tracker == 'Boris_quad':
        F.kind, F.grad = 'quad', m['fact_Bmap']
    if tracker == 'BorisMultipole':
        F.kind, F.kn, F.ks = 'multipole', m['B_multip'], m.get('B_skew')
    for i, cl in enumerate(sim.cloud_list):
        dyn = cl.dynamics
        q, mass = (-QE, ME) if i == 0 else (list(cfg.clouds.values())[i - 1]['cloud_charge'], list(cfg.clouds.values())[i - 1]['cloud_mass'])
        nsub = m.get('N_sub_steps', 1)
        for name in ('step', 'stepcustomDt'):
            if not hasattr(dyn, name):
                continue

            def f(MP, Ex, Ey, *a, _o=getattr(dyn, name), q=q, mass=mass, i=i, **k):
                r0, v0 = state(MP)
                E = np.array([np.array(Ex) + np.zeros(r0.shape[1]), np.array(Ey) + np.zeros(r0.shape[1]), np.zeros(r0.shape[1])])
                st[0] += 1
                out = None
                if st[1]:
                    return _o(MP, Ex, Ey, *a, **k)
                st[1] = 1
                try:
                    out = _o(MP, Ex, Ey, *a, **k)
                finally:
                    st[1] = 0
                if not r0.shape[1]:
                    return out
                g = state(MP)
                Dt = cfg.sim['Dt']
                if tracker.startswith('Strong'):
                    R, V = uniform_exact(r0[:, :12], v0[:, :12], E[:, :12], F.B0, q, mass, Dt)
                    g = g[0][:, :12], g[1][:, :12]
                    r0 = r0[:, :12]
                    tol = 1e-6 * (1 + QE / ME * np.abs(F.B0).max() * Dt)
                else:
                    # the whole step of the simulation, whatever way it was asked for
                    R, V = boris_ref(r0, v0, E, F, q, mass, Dt / nsub, nsub)
                    tol = 1e-7
                agree(case, 'in-simulation', '%s cloud %d' % (tracker, i), (g[0] - r0, g[1]), (R - r0, V, np.abs(R - r0).max() + 1e-18), tol, 'step at t=%r (%s)' % (sim.beamtim.tt_curr, cfg.lab))
                case.ok('sim|%s|%s|%d' % (tracker, cfg.mach['chamb_type'], min(i, 1)))
                case.count('particles_stepped', r0.shape[1])
                if case.fails:
                    raise StopIteration
                return out
            setattr(dyn, name, f)
    st = [0, 0]
    try:
        sim.run()
    except StopIteration:
        return
    case.check(st[0] > 0, 'oracle', '%s: no tracker call seen' % tracker)
    case.sample(config=cfg.lab, tracker_calls=st[0])


def tasks(tier):
    k = 1 if tier == 'quick' else 10
    return [Task(boris, 60 * k, min_ok=500), Task(converge, 24 * k, min_ok=30), Task(strong, 40 * k, min_ok=150), Task(cross, 10 * k, min_ok=20)] + \
        [Task(simulate, 6 * k, name='sim-' + t, tracker=t, min_ok=60) for t in configs.TRACKERS]
