"""Random macroparticle systems and an observer of their content (rows of attributes)."""
import numpy as np
from . import chambers
from .simgen import QE, ME

ROW = ('x_mp', 'y_mp', 'z_mp', 'vx_mp', 'vy_mp', 'vz_mp', 't_last_impact')


def make(rng, chamb, nmax=4000, lifetime=None, moved=False, **over):
    """moved: the reference size may differ from the initial one, as after regenerations."""
    from PyECLOUD.MP_system import MP_system
    q, m = [(-QE, ME), (-QE, ME), (QE, 18 * 1836 * ME), (2 * QE, 28 * 1836 * ME)][int(rng.integers(4))]
    kw = dict(N_mp_max=nmax, nel_mp_ref_0=float(10**rng.uniform(2, 6)), fact_split=1.5, fact_clean=float(rng.choice([0., 1e-6, 1e-3, .3])),
              N_mp_regen_low=0, N_mp_regen=nmax - 100, N_mp_after_regen=nmax // 5, Dx_hist_reg=float(chamb.x_aper / rng.uniform(5, 60)),
              Nx_reg=int(rng.integers(5, 30)), Ny_reg=int(rng.integers(5, 30)), Nvx_reg=int(rng.integers(5, 30)), Nvy_reg=int(rng.integers(5, 30)), Nvz_reg=int(rng.integers(5, 30)),
              regen_hist_cut=float(rng.choice([0., 1e-4, 1e-2])), chamb=chamb, charge=q, mass=m,
              flag_lifetime_hist=bool(rng.random() < .7) if lifetime is None else lifetime, name='c')
    kw.update(over)
    MP = MP_system(**kw)
    if moved and rng.random() < .7:
        MP.set_nel_mp_ref(kw['nel_mp_ref_0'] * float(10**rng.uniform(-.5, 1.5)))
    return MP, kw


class Rows:
    """Immutable copy of everything a cloud holds; rows identify particles by all their attributes but the charge."""

    def __init__(self, MP):
        self.N = int(MP.N_mp)
        self.cap = len(MP.x_mp)
        n = self.N
        self.life = bool(MP.flag_lifetime_hist)
        self.r = np.ascontiguousarray(np.array([np.array(getattr(MP, k)[:n]) for k in ROW if k != 't_last_impact' or self.life]).T)
        self.q = np.array(MP.nel_mp[:n])
        self.tot = float(self.q.sum())
        self.ref, self.split, self.cl = float(MP.nel_mp_ref), float(MP.nel_mp_split), float(MP.nel_mp_cl_th)

    def keys(self):
        return [r.tobytes() for r in self.r]

    def full(self):
        return sorted((a, float(b)) for a, b in zip(self.keys(), self.q))


def append(rng, MP, ref, n, x=None, y=None):
    """Adds n distinguishable particles inside the chamber through the public method."""
    if n <= 0:
        return
    if x is None:
        x, y = chambers.inside_points(rng, ref, n)
    v = np.sqrt(2 * 10**rng.uniform(-1, 3.5) * QE / MP.mass)
    vv = rng.normal(0, v, (3, n))
    q = MP.nel_mp_ref * 10**rng.uniform(-8 if rng.random() < .5 else -1, .3, n)
    MP.add_new_MPs(n, q, x.copy(), y.copy(), rng.normal(0, .1, n), vv[0], vv[1], vv[2], rng.uniform(0, 1e-6, n))


def capture(MP):
    return Rows(MP)
