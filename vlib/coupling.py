"""Electron-cloud elements for PyHEADTAIL beams (module PyEC4PyHT), built from random input folders."""
import random
import numpy as np
from . import configs, simgen
from .simgen import QE, ME, CLIGHT, DROP

MP_ = 1.67262192369e-27
MODES = ('FFT_OpenBoundary', 'FiniteDifferences_ShortleyWeller', 'FiniteDifferences_Staircase', 'ShortleyWeller_WithTelescopicGrids')  # with solvers that can be shared


def config(rng, mode=None, chamber=None, tracker=None, sey='perfect_absorber', sources=('edens',), nmp=None, **kw):
    """Random input files of a cloud element."""
    mode = mode or str(rng.choice(MODES))
    if mode.startswith('FFT'):
        chamber = 'rect'
    Dt = kw.pop('Dt', None)
    tracker = tracker or ('BorisMultipole' if Dt is None else str(rng.choice(['Boris', 'Boris_none', 'BorisMultipole'])))
    cfg = configs.random(rng, chamber=chamber, tracker=tracker, sey=sey, sources=list(sources), regen=kw.pop('regen', 'none'), **kw)
    cfg.beam.pop('x_beam_pos', None)
    cfg.beam.pop('y_beam_pos', None)
    if mode == 'ShortleyWeller_WithTelescopicGrids' and cfg.ref.dist([0.], [0.])[0] < 7e-3:
        mode = MODES[1]  # no room for the outermost of the nested grids
    s = cfg.sim
    s.update(Dt=Dt, t_end=None, lam_th=None, Dt_sc=None, PyPICmode=mode, Dh_sc=float(rng.choice([1e-3, 1.5e-3, 2e-3])), Dt_En_hist=25e-9)
    if mode == 'ShortleyWeller_WithTelescopicGrids':
        w = float(rng.uniform(1.5e-3, 3e-3))
        s.update(f_telescope=.5, target_grid=dict(x_min_target=-w, x_max_target=w, y_min_target=-w, y_max_target=w, Dh_target=.3e-3), N_nodes_discard=3., N_min_Dh_main=5, Dh_sc=1.5e-3, sparse_solver='scipy_slu')
    if 'edens' in sources:
        cfg.mach['init_unif_edens'] = float(10**rng.uniform(11.3, 12.7))
        n = nmp or int(rng.integers(800, 2500))
        A = cfg.ref.area if hasattr(cfg.ref, 'area') and not callable(cfg.ref.area) else 1.5e-3
        s['nel_mp_ref_0'] = cfg.mach['init_unif_edens'] * A / n
        s['N_mp_max'] = 40 * n
    cfg.mode = mode
    cfg.label.append(mode)
    return cfg


def bunch(rng, n=None, gamma=None, charge=None, mass=None, offset=None, sx=None, sz=None, intensity=None):
    from PyHEADTAIL.particles.particles import Particles
    n = n or int(rng.integers(300, 1500))
    mass = mass or float(rng.choice([MP_, MP_, ME, 208 * 1.66e-27]))
    charge = charge or float(QE * rng.choice([1, 1, -1, 54 if mass > 1e-25 else 1]))
    gamma = gamma or float(10**rng.uniform(.4, 3.8))
    sx = sx or float(10**rng.uniform(-3.4, -2.7))
    sy = float(sx * rng.uniform(.5, 2))
    sz = sz or float(rng.uniform(.05, .25))
    ox, oy = offset if offset is not None else rng.normal(0, 1e-3, 2)
    N = intensity or float(10**rng.uniform(10.3, 11.3))
    c = dict(x=rng.normal(ox, sx, n), xp=rng.normal(0, 1e-5, n), y=rng.normal(oy, sy, n), yp=rng.normal(0, 1e-5, n), z=rng.normal(rng.normal(0, .02), sz, n), dp=rng.normal(0, 1e-3, n))
    p = Particles(macroparticlenumber=n, particlenumber_per_mp=N / n, charge=charge, mass=mass, circumference=float(rng.choice([6911., 26659.])), gamma=gamma, coords_n_momenta_dict=c)
    p.sz = sz
    return p


def seed(k):
    """The slicers of PyHEADTAIL use the generator of the standard library."""
    np.random.seed(k)
    random.seed(k)


COORDS = ('x', 'xp', 'y', 'yp', 'z', 'dp', 'id')


def coords(b):
    return {k: np.array(getattr(b, k)) for k in COORDS}


def copy_bunch(b):
    from PyHEADTAIL.particles.particles import Particles
    p = Particles(macroparticlenumber=b.macroparticlenumber, particlenumber_per_mp=b.particlenumber_per_mp, charge=b.charge, mass=b.mass, circumference=b.circumference, gamma=b.gamma,
                  coords_n_momenta_dict={k: np.array(getattr(b, k)) for k in COORDS if k != 'id'})
    p.id[:] = b.id
    p.sz = getattr(b, 'sz', None)
    return p


def slicer(rng, b, n=None, kind=None):
    from PyHEADTAIL.particles.slicing import UniformBinSlicer, UniformChargeSlicer
    n = n or int(rng.integers(3, 9))
    kind = kind or str(rng.choice(['sigma', 'cuts', 'cuts', 'charge']))
    w = float(rng.uniform(1., 2.5))
    if kind == 'sigma':
        return UniformBinSlicer(n_slices=n, n_sigma_z=w)
    m = float(np.mean(b.z))
    cuts = (m - w * b.sz, m + float(rng.uniform(1., 2.5)) * b.sz)
    return (UniformBinSlicer if kind == 'cuts' else UniformChargeSlicer)(n_slices=n, z_cuts=cuts)


def folder(case, cfg, name):
    """Writes the input files of the element."""
    f = case.path(name)
    cfg.write(f)
    return f


def element(case, cfg, name, L, slc, Dt_ref, **kw):
    from PyECLOUD import PyEC4PyHT
    f = kw.pop('folder', None) or folder(case, cfg, name)
    case.reseed()
    return PyEC4PyHT.Ecloud(L, slc, Dt_ref, pyecl_input_folder=f, **kw)


class Pic:
    """Independent solver of the same kind as the one of the element."""

    def __init__(self, ec, cfg):
        sc = ec.cloudsim.spacech_ele
        chamb = ec.cloudsim.chamb if hasattr(ec.cloudsim, 'chamb') else ec.cloudsim.cloud_list[0].impact_man.chamb
        m, s = cfg.mode, cfg.sim
        if m == 'FFT_OpenBoundary':
            from PyPIC.FFT_OpenBoundary import FFT_OpenBoundary as S
            self.pic = S(x_aper=chamb.x_aper, y_aper=chamb.y_aper, Dh=s['Dh_sc'])
        elif m == 'FiniteDifferences_Staircase':
            from PyPIC.FiniteDifferences_Staircase_SquareGrid import FiniteDifferences_Staircase_SquareGrid as S
            self.pic = S(chamb=chamb, Dh=s['Dh_sc'])
        else:
            from PyPIC.FiniteDifferences_ShortleyWeller_SquareGrid import FiniteDifferences_ShortleyWeller_SquareGrid as S
            self.pic = S(chamb=chamb, Dh=s['Dh_sc'], sparse_solver='scipy_slu')
            if m == 'ShortleyWeller_WithTelescopicGrids':
                from PyPIC.MultiGrid import AddTelescopicGrids
                self.pic = AddTelescopicGrids(pic_main=self.pic, f_telescope=s['f_telescope'], target_grid=s['target_grid'], N_nodes_discard=s['N_nodes_discard'], N_min_Dh_main=s['N_min_Dh_main'], sparse_solver='scipy_slu')
        self.done = False

    def put(self, x, y, w, charge):
        self.pic.scatter(np.array(x, float), np.array(y, float), np.array(w, float), charge=charge)
        self.pic.solve()
        self.done = True

    def at(self, x, y):
        if not self.done or len(x) == 0:
            return np.zeros(len(x)), np.zeros(len(x))
        return self.pic.gather(np.array(x, float), np.array(y, float))


def roomy(fn):
    """Cases in which a passage multiplies the electrons beyond the memory that was asked for end there (P31 checks that such runs are refused)."""
    def g(case, **kw):
        try:
            fn(case, **kw)
        except ValueError as e:
            if 'no room for' not in str(e):
                raise
            case.count('memory full')
    g.__name__ = fn.__name__
    return g
