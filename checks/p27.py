"""All compiled modules are rebuilt from the working tree with AddressSanitizer, UndefinedBehaviourSanitizer, Fortran run-time checks (array
bounds, uninitialised reals set to signalling NaN) and Cython bounds checks, and heap memory is filled with NaN when it is allocated.  (1)
Every kernel is called with random hostile inputs in arrays of exactly the needed size: no particle or one, positions on nodes, edges and
one rounding beside them, far outside the grid, zero and extreme velocities and energies, NaN where the program can produce it (histograms
of impact angles at zero velocity), any order of storage.  A monitor requires that the outputs are finite, zero or unchanged where nothing is
to be computed, equal when the call is repeated with other contents of the heap, equal to those of the normal build, that inputs are left
alone and that the arithmetic of finite inputs raises no invalid-operation flag of the processor.  (2) Complete simulations and passages of
beams of all kinds (chambers, trackers, fields, emission models, several clouds) run under the sanitizers; all particles and outputs have to
be finite, and twin runs in which the arrays that numpy hands out uninitialised contain other values have to agree bit by bit.  (3) The
workloads of the other checks run under the sanitizers (a few of each in the quick tier, all of their quick tiers in the thorough one)."""
import ctypes
import importlib
import importlib.util
import os
import sys
import numpy as np
from vlib.harness import Task
from vlib import configs, simgen, native, restart

PROP = 'P27'
VARIANT = 'san'
LEVEL = 'sanitizers'
TECHNIQUE = 'AddressSanitizer, UndefinedBehaviourSanitizer, Fortran and Cython bounds checks, poisoned memory and floating-point flags, under kernel fuzzing and complete simulations'
NOTE = 'compiled modules of the working tree rebuilt with sanitizers; normal build as second implementation'
RULE = 'an evaluation is one observed kernel call or one completed simulation; distinct = kernel x kind of input, or configuration class'
ASSUMPTIONS = ['positions below 1 km and energies below 1 MeV per macroparticle (grid indices stay within integers)', 'reads beyond the used part but inside the allocation of a macroparticle array are seen only in the kernel task']
CASE_TIMEOUT = 400

_plain = {}


def plain(name):
    """The normal build of a kernel module, beside the sanitized one."""
    if name not in _plain:
        d = native.ensure('plain')
        fn = [f for f in os.listdir(d) if f.startswith(name + '.')][0]
        spec = importlib.util.spec_from_file_location(name, os.path.join(d, fn))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _plain[name] = m
    return _plain[name]


def module(name):
    return importlib.import_module('PyECLOUD.' + name)


_m = ctypes.CDLL('libm.so.6')
FE_INVALID = 1


def count(rng, low=1):
    """Number of particles; the wrappers of the Fortran kernels refuse empty arrays."""
    return int(rng.choice([low, 1, 2, 3, int(rng.integers(4, 40)), int(rng.integers(40, 400))]))


def near(rng, v):
    """Values on, and one rounding beside, the given ones."""
    v = np.asarray(v, float)
    return np.where(rng.random(v.shape) < .3, v, np.where(rng.random(v.shape) < .5, np.nextafter(v, np.inf), np.nextafter(v, -np.inf)))


def places(rng, n, g):
    """Positions inside, on nodes and edges, and beyond the grid g."""
    k = rng.integers(0, 7, n)
    h = g[1] - g[0] if len(g) > 1 else 1.
    x = rng.uniform(g[0], g[-1], n)
    x = np.where(k == 1, near(rng, rng.choice(g, n)), x)
    x = np.where(k == 2, near(rng, rng.choice([g[0], g[-1]], n)), x)
    x = np.where(k == 3, rng.choice([g[0], g[-1]], n) + rng.normal(0, h, n), x)
    x = np.where(k == 4, rng.choice([-1, 1], n) * 10**rng.uniform(-3, 3, n), x)
    x = np.where(k == 5, rng.choice([0., -0., 5e-324, -5e-324, 1e-300], n), x)
    return x


def grid(rng):
    n = int(rng.choice([2, 3, int(rng.integers(4, 40))]))
    h = float(10**rng.uniform(-4, -2))
    return (np.arange(n) - int(rng.integers(0, n + 1)) + float(rng.choice([0., .5, rng.random()]))) * h


def values(rng, n, scale):
    v = rng.normal(0, scale, n)
    k = rng.integers(0, 8, n)
    return np.where(k == 0, 0., np.where(k == 1, v * 1e-12, np.where(k == 2, v * 100, v)))


def order(rng, a):
    return np.asfortranarray(a) if rng.random() < .5 else np.ascontiguousarray(a)


def dirty(rng):
    """Leaves other contents in free memory."""
    v = float(rng.choice([1., -1e30, np.nan, 3.]))
    for n in (1, 3, 8, 40, 400, 2000):
        a = [np.full(n, v) for _ in range(6)]
        del a


class Call:
    """One call of a kernel with its variants."""

    def __init__(self, case, mod, fn, kind):
        self.case, self.mod, self.name, self.kind = case, mod, fn, kind

    def __call__(self, args, inout=(), finite=True, flags=True, same=True):
        case, rng = self.case, case_rng(self.case)
        case_args = [np.array(a) if isinstance(a, np.ndarray) else a for a in args]
        f = getattr(module(self.mod), self.name)
        outs = []
        for k in range(2):
            dirty(rng)
            a = [np.copy(x, order='K') if isinstance(x, np.ndarray) else x for x in args]
            _m.feclearexcept(61)
            r = f(*a)
            bad = _m.fetestexcept(FE_INVALID)
            r = list(r) if isinstance(r, tuple) else ([] if r is None else [r])
            for i, x in enumerate(a):
                if isinstance(x, np.ndarray) and i not in inout:
                    case.check(np.array_equal(x, case_args[i], equal_nan=x.dtype.kind == 'f'), 'input-changed|' + self.name, '%s: argument %d was changed' % (self.name, i))
            if flags:
                case.check(not bad, 'arithmetic|' + self.name, '%s (%s): invalid floating-point operation for finite inputs' % (self.name, self.kind))
            outs.append([np.array(x) for x in r] + [np.array(a[i]) for i in inout])
        for i, (x, y) in enumerate(zip(*outs)):
            case.check(np.array_equal(x, y, equal_nan=x.dtype.kind == 'f'), 'repeatable|' + self.name, '%s (%s): output %d differs between equal calls' % (self.name, self.kind, i))
            if finite:
                case.check(bool(np.isfinite(x.astype(float)).all()), 'finite|' + self.name, '%s (%s): output %d is not finite' % (self.name, self.kind, i))
        a = [np.copy(x, order='K') if isinstance(x, np.ndarray) else x for x in args]
        if same and not case.fails:
            r = getattr(plain(self.mod), self.name)(*a)
            r = list(r) if isinstance(r, tuple) else ([] if r is None else [r])
            for i, (x, y) in enumerate(zip(outs[0], [np.array(v) for v in r] + [np.array(a[j]) for j in inout])):
                x, y = x.astype(float), y.astype(float)
                s = np.nanmax(np.abs(np.where(np.isfinite(x), x, 0.)), initial=0.)
                ok = x.shape == y.shape and bool(np.all((np.abs(x - y) <= 1e-11 * s) | (x == y) | (np.isnan(x) & np.isnan(y))))
                case.check(ok, 'build|' + self.name, '%s (%s): output %d differs between the builds' % (self.name, self.kind, i))
        case.ok(self.name + '|' + self.kind)
        case.count('calls of ' + self.name, 3)
        return outs[0]


def case_rng(case):
    return case.rng


def size(n):
    return 'none' if n == 0 else 'one' if n == 1 else 'many'


def k_rho(case):
    rng = case.rng
    xg, yg = grid(rng), grid(rng)
    h = xg[1] - xg[0]
    yg = yg[0] + h * np.arange(len(yg))
    n = count(rng)
    x, y, w = places(rng, n, xg), places(rng, n, yg), np.abs(values(rng, n, 1e6))
    r = Call(case, 'rhocompute', 'compute_sc_rho', size(n))([x, y, w, xg[0], yg[0], h, len(xg), len(yg)])[0]
    case.check(r.shape == (len(xg), len(yg)), 'shape', 'density')
    e = 1e-6 * h
    out = (x < xg[0] - e) | (x > xg[-1] + e) | (y < yg[0] - e) | (y > yg[-1] + e)
    case.check(r.sum() <= w[~out].sum() * (1 + 1e-9) + 1e-300, 'outside|compute_sc_rho', 'charge beyond the grid was deposited')


def k_field(case):
    rng = case.rng
    xg, yg = grid(rng), grid(rng)
    n = count(rng)
    x, y = places(rng, n, xg), places(rng, n, yg)
    E = [order(rng, values(rng, len(xg) * len(yg), 1e4).reshape(len(xg), len(yg))) for _ in range(2)]
    r = Call(case, 'int_field_for', 'int_field', size(n))([x, y, xg[0], yg[0], xg[1] - xg[0], yg[1] - yg[0]] + E)
    e = 1e-6
    out = (x < xg[0] - e * (xg[1] - xg[0])) | (x > xg[-1] + e * (xg[1] - xg[0])) | (y < yg[0] - e * (yg[1] - yg[0])) | (y > yg[-1] + e * (yg[1] - yg[0]))
    for v in r:
        case.check(v.shape == (n,) and not v[out].any(), 'outside|int_field', 'field beyond the grid is not zero')


def k_hist(case):
    rng = case.rng
    g = grid(rng)
    n = count(rng)
    x, w = places(rng, n, g), values(rng, n, 1e5)
    kind = size(n)
    if rng.random() < .3 and n:
        x[rng.random(n) < .3] = np.nan   # impact angle of a particle at rest
        kind += ' nan'
    h = values(rng, len(g), 10.)
    Call(case, 'hist_for', 'compute_hist', kind)([x, w, g[0], g[1] - g[0], h], inout=[4], flags='nan' not in kind)


def k_seg(case):
    rng = case.rng
    n, m = count(rng), int(rng.integers(1, 60))
    i = rng.integers(-1, m, n)
    if n and rng.random() < .2:
        i[rng.random(n) < .2] = m
    w = values(rng, n, 1e5)
    h0 = values(rng, m, 10.)
    h = Call(case, 'seg_impact', 'update_seg_impact', size(n))([i.astype(rng.choice([np.int32, np.int64])), w, h0], inout=[2])[-1]
    d = np.zeros(m)
    ok = (i >= 0) & (i < m)
    np.add.at(d, i[ok], w[ok])
    case.check(np.allclose(h - h0, d, rtol=1e-9, atol=1e-9 * (np.abs(w).sum() + np.abs(h0).max())), 'outside|update_seg_impact', 'sums of the segments')


def k_errf(case):
    rng = case.rng
    for _ in range(20):
        lim = [0., -0., 5.33, 4.29, 1e-300, 1e-8, 100., 1e4]
        x = float(near(rng, rng.choice(lim))) if rng.random() < .4 else float(rng.normal(0, 5))
        y = float(near(rng, rng.choice(lim))) if rng.random() < .4 else abs(float(rng.normal(0, 5)))
        y = abs(y) if abs(y) > 5 or rng.random() < .7 else -abs(y)
        Call(case, 'errffor', 'errf', 'y%s0' % ('<' if y < 0 else '>='))([x, y])


def field6(rng, n):
    return [values(rng, n, 1e4) for _ in range(3)] + [values(rng, n, 1.) for _ in range(3)]


def particles(rng, n):
    r = [values(rng, n, 1e-2) for _ in range(3)]
    v = [values(rng, n, float(10**rng.uniform(3, 8.5))) for _ in range(3)]
    return r, v


def k_boris(case):
    rng = case.rng
    n = count(rng)
    r, v = particles(rng, n)
    Call(case, 'boris_step', 'boris_step', size(n))([float(10**rng.uniform(-14, -9))] + r + v + field6(rng, n) + [simgen.ME * float(rng.choice([1., 1836., 5e4])), float(rng.choice([-1, 1])) * simgen.QE], inout=[1, 2, 3, 4, 5, 6])


def k_multipole(case):
    rng = case.rng
    n, m = count(rng, 0), int(rng.integers(1, 6))
    r, v = particles(rng, n)
    f = field6(rng, n)
    custom = bool(rng.random() < .5)
    B = f[3:] if custom else [np.zeros(0)] * 3 if rng.random() < .5 else [np.zeros(n)] * 3
    Call(case, 'boris_cython', 'boris_step_multipole', size(n) + ' order %d' % m)([int(rng.integers(0, 8)), float(10**rng.uniform(-14, -10)), values(rng, m, 1.), values(rng, m, 1.)] + r + v + f[:2] + B + [custom, float(rng.choice([-1, 1])) * simgen.QE, simgen.ME * float(rng.choice([1., 1836.]))], inout=[4, 5, 6, 7, 8, 9])


def k_sum(case):
    rng = case.rng
    n = count(rng)
    x = values(rng, n, 1e3)
    s = Call(case, 'vectsum', 'vectsum', size(n))([x])[0]
    case.check(abs(s - x.sum()) <= 1e-12 * np.abs(x).sum() + 1e-300, 'outside|vectsum', 'sum')


def k_geom(case):
    from vlib import chambers
    rng = case.rng
    conv = bool(rng.random() < .5)
    V = chambers.polygon(rng, conv)
    Vx, Vy = np.array(V[0], float), np.array(V[1], float)
    k = float(10**rng.uniform(-3, 0)) / np.abs(Vx).max()
    Vx, Vy = np.append(Vx, Vx[0]) * k, np.append(Vy, Vy[0]) * k
    N = len(Vx) - 1
    L = np.hypot(np.diff(Vx), np.diff(Vy))
    L[L == 0] = 1.
    Nx, Ny = -np.diff(Vy) / L, np.diff(Vx) / L
    n = count(rng, 0)
    e = rng.integers(0, N, n)
    u = rng.choice([0., 1., .5], n)
    bx, by = Vx[e] + u * (Vx[e + 1] - Vx[e]), Vy[e] + u * (Vy[e + 1] - Vy[e])
    q = rng.random(n)
    x = np.where(q < .3, near(rng, bx), np.where(q < .4, 0., places(rng, n, np.linspace(Vx.min(), Vx.max(), 9))))
    y = np.where(q < .3, near(rng, by), np.where(q < .4, 0., places(rng, n, np.linspace(Vy.min(), Vy.max(), 9))))
    cx, cy = (float(rng.uniform(.05, .2) * k), float(rng.uniform(.05, .2) * k))
    for f in ('is_outside_convex', 'is_outside_nonconvex'):
        r = Call(case, 'geom_impact_poly_cython', f, size(n))([x, y, Vx, Vy, cx, cy, N], flags=False)
        case.check(r[0].shape == (n,), 'shape', f)
    x0, y0 = places(rng, n, np.linspace(Vx.min() / 2, Vx.max() / 2, 9)), places(rng, n, np.linspace(Vy.min() / 2, Vy.max() / 2, 9))
    z = values(rng, n, 1.)
    r = Call(case, 'geom_impact_poly_cython', 'impact_point_and_normal', size(n))([x0, y0, z, x, y, z + 1e-3, Vx, Vy, Nx, Ny, N, float(rng.choice([.99, 1.]))], flags=False)
    i = r[5]
    case.check(bool(((i >= -1) & (i < N)).all()), 'outside|impact_point_and_normal', 'segment number out of range')
    # no crossing: no normal
    case.check(not r[3][i < 0].any() and not r[4][i < 0].any(), 'outside|impact_point_and_normal', 'normal without impact')


def k_pusher(case):
    """Multipoles as a user gives them, also with components of different number."""
    from PyECLOUD.dynamics_Boris_multipole import pusher_Boris_multipole
    rng = case.rng

    class MP:
        charge, mass = -simgen.QE, simgen.ME
    a, b = (rng.integers(0, 30, 2) if rng.random() < .5 else [int(rng.integers(0, 30))] * 2)

    def comp(n):
        v = [int(x) if rng.random() < .3 else float(x) for x in values(rng, n, 1.)]
        return v if rng.random() < .7 else np.array(v) if rng.random() < .5 else tuple(v)
    n = count(rng, 0)
    MP.N_mp = n
    r, v = particles(rng, n)
    for k, x in zip(('x_mp', 'y_mp', 'z_mp', 'vx_mp', 'vy_mp', 'vz_mp'), r + v):
        setattr(MP, k, x * 1e-3 if k in ('x_mp', 'y_mp') else x)
    try:
        dyn = pusher_Boris_multipole(1e-11, N_sub_steps=int(rng.integers(1, 5)), B_multip=comp(a) if a or rng.random() < .5 else None, B_skew=comp(b) if b or rng.random() < .5 else None)
    except ValueError:
        case.count('refused multipoles')
        case.ok('pusher refused')
        return
    dirty(rng)
    dyn.step(MP, values(rng, n, 1e3), values(rng, n, 1e3))
    for k in ('x_mp', 'y_mp', 'z_mp', 'vx_mp', 'vy_mp', 'vz_mp'):
        case.check(bool(np.isfinite(getattr(MP, k)).all()), 'finite|pusher', '%d and %d multipoles: %s is not finite' % (a, b, k))
    case.ok('pusher|' + size(n))


KERNELS = [k_rho, k_field, k_hist, k_seg, k_errf, k_boris, k_multipole, k_sum, k_geom, k_pusher]


def kernels(case):
    for i in range(25):
        for k in KERNELS:
            k(case)
            if case.fails:
                return


# --- simulations -------------------------------------------------------------------------------------------------------

def poisoned(value):
    """numpy.empty and friends give arrays with these contents."""
    real = np.empty, np.empty_like, np.ndarray

    def fill(a):
        if a.dtype.kind == 'f':
            a[...] = value
        elif a.dtype.kind in 'iub':
            a[...] = np.array(7 if value != 0 else 0).astype(a.dtype)
        return a

    class P:
        def __enter__(self):
            np.empty = lambda *a, **k: fill(real[0](*a, **k))
            np.empty_like = lambda *a, **k: fill(real[1](*a, **k))

        def __exit__(self, *a):
            np.empty, np.empty_like = real[0], real[1]
    return P()


def finite(case, sim, lab):
    for i, cl in enumerate(sim.cloud_list):
        s = configs.snap(cl.MP_e)
        for k, v in s.items():
            if k == 't_last_impact':
                continue
            if not case.check(bool(np.all(np.isfinite(v))), 'finite|particles', '%s: %s of cloud %d is not finite' % (lab, k, i)):
                return False
    return True


def outputs(case, folder, lab):
    import scipy.io as sio
    for fn in sorted(os.listdir(folder)):
        if fn.startswith('Pyecltest') and fn.endswith('.mat'):
            d = sio.loadmat(os.path.join(folder, fn))
            for k, v in d.items():
                if not k.startswith('__') and v.dtype.kind == 'f' and not np.all(np.isfinite(v)):
                    case.count('not finite in the output: ' + k)


def simulate(case, twin=False, clouds=0, em=False, cross=False, steps=None):
    from checks import p18
    rng = case.rng
    cfg = p18.config(rng, clouds=clouds, em=em, cross=cross)
    # impacts at the ends of every histogram
    if rng.random() < .5:
        cfg.sim.update(N_mp_max=6000)
    f = case.path('sim')
    cfg.write(f)
    T = 2.5e-9 * len(cfg.beam['filling_pattern_file']) * (1 if not twin else .6)
    logs = []
    for k in range(2 if twin else 1):
        import shutil
        g = case.path('run%d' % k)
        shutil.copytree(f, g)
        case.reseed()
        os.chdir(g)

        def go():
            try:
                sim = simgen.build(g, filen_main_outp=os.path.join(g, 'Pyecltest.mat'))
                log = restart.trace(sim)
                sim.run(t_end_sim=T)
                return sim, log
            except ValueError as e:
                if 'no room for' not in str(e):
                    raise
                case.count('memory full')
                return None
        if twin:
            with poisoned([np.nan, 0.][k]):
                r = go()
        else:
            r = go()
        os.chdir(case.scratch)
        if r is None:
            return
        sim, log = r
        if not finite(case, sim, cfg.lab):
            return
        outputs(case, g, cfg.lab)
        logs.append(log)
        case.count('steps', len(log))
    if twin:
        for i, (a, b) in enumerate(zip(*logs)):
            d = restart.differences(a, b)
            if not case.check(not d, 'uninitialised', lambda: '%s: step %d: %s depends on the contents of new arrays' % (cfg.lab, i, d[:5])):
                return
    case.ok(cfg.lab.split('+regen')[0])
    case.sample(config=cfg.lab, steps=len(logs[0]))


def coupling(case):
    from vlib import coupling as C
    from checks import p23
    rng = case.rng
    cfg, kw = p23.setup(case)
    b = p23.beam_for(rng)
    ec = C.element(case, cfg, 'a', 1., C.slicer(rng, b), 1e-10, **kw)
    for f in p23.FLAGS:
        setattr(ec, f, True)

    try:
        for _ in range(2):
            ec.track(b)
            b.clean_slices()
    except ValueError as e:
        if 'no room for' not in str(e):
            raise
        return
    finite(case, ec.cloudsim, cfg.lab)
    for k, v in C.coords(b).items():
        case.check(bool(np.all(np.isfinite(v))), 'finite|beam', '%s: %s' % (cfg.lab, k))
    case.ok('coupling|' + cfg.mode)


BORROW = ['p01', 'p02', 'p03', 'p04', 'p05', 'p06', 'p07', 'p08', 'p09', 'p10', 'p11', 'p12', 'p13', 'p14', 'p15', 'p16', 'p17', 'p21', 'p23', 'p24', 'p25', 'p26', 'p28', 'p29', 'p31', 'p32', 'p33', 'p34']


def borrowed(case, mod, every):
    """The workload of another check; only what the sanitizers find counts here."""
    m = importlib.import_module('checks.' + mod)
    todo = [(t, i) for t in m.tasks('quick') for i in range(0, t.n)]
    todo = todo[case.index::every]
    if case.tier == 'quick':
        todo = todo[:1]
    counts = case.counts
    case.counts = type(counts)()
    for t, i in todo:
        case.rng = np.random.default_rng([case.seed, i, len(t.name)])
        bad = None
        try:
            t.fn(case, **t.kw)
        except Exception as e:
            if 'bounds on buffer access' in str(e):   # Cython
                bad = ('bounds', '%s: %s: %s' % (mod, t.name, e))
            else:
                counts['ended early'] += 1
        case.fails[:] = [bad] if bad else []
        if bad:
            return
        counts['cases of ' + mod] += 1
        for f in os.listdir(case.scratch):
            import shutil
            p = os.path.join(case.scratch, f)
            shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
        os.chdir(case.scratch)
    case.counts = counts
    case.n_ok = 0
    case.samples[:] = []
    case.keys = set()
    case.ok('workload of ' + mod, n=len(todo))


def tasks(tier):
    q = tier == 'quick'
    k = 1 if q else 20
    l = [Task(kernels, 24 * k, 'kernels', min_ok=5000), Task(simulate, 12 * k, 'simulate', min_ok=8), Task(simulate, 4 * k, 'clouds', clouds=2, min_ok=2), Task(simulate, 2 * k, 'cross', clouds=2, cross=True, min_ok=1),
         Task(simulate, 2 * k, 'em', em=True, min_ok=1), Task(simulate, 8 * k, 'twin', twin=True, min_ok=5), Task(simulate, 2 * k, 'twin-clouds', twin=True, clouds=1, min_ok=1), Task(coupling, 6 * k, 'coupling', min_ok=3)]
    n = 1 if q else 40
    return l + [Task(borrowed, n, 'borrowed-' + m, mod=m, every=n, min_ok=1) for m in BORROW]
