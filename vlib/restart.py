"""Helpers to interrupt simulations and compare what happens afterwards."""
import hashlib
import os
import numpy as np
from . import configs, simgen


class Interrupted(Exception):
    pass


def dig(*arrays):
    h = hashlib.sha1()
    for a in arrays:
        a = np.ascontiguousarray(a)
        h.update(str(a.shape).encode() + a.dtype.str.encode() + a.tobytes())
    return h.hexdigest()[:12]


def grids(pic):
    if hasattr(pic, 'pic_list'):
        return [pic.pic_main] + [p.pic_internal for p in pic.pic_list]
    return [pic]


def state(sim, fields=True):
    """Everything that has to be the same at a step of an uninterrupted and of a resumed run, as digests per component."""
    bt = sim.beamtim
    d = {'time': '%r %r %r %r' % (float(bt.tt_curr), int(bt.ii_curr), int(bt.pass_numb), float(bt.lam_t_curr))}
    for i, sb in enumerate(sim.sec_beams_list):
        d['time-beam%d' % (i + 2)] = '%r %r' % (float(sb.tt_curr), float(sb.lam_t_curr))
    for i, cl in enumerate(sim.cloud_list):
        s = configs.snap(cl.MP_e)
        for k in s:
            d['cloud%d.%s' % (i, k)] = s[k] if k in ('N', 'nel_mp_ref') else dig(s[k])
        q = getattr(cl.impact_man.sey_mod, 'Q_segments', None)
        if q is not None:
            d['cloud%d.surface-charge' % i] = dig(np.asarray(q, float))
    if fields and sim.spacech_ele is not None:
        sc = sim.spacech_ele
        gr = grids(sc.PyPICobj)
        for k in ('rho', 'phi', 'efx', 'efy'):
            d['field.' + k] = dig(*[np.asarray(getattr(g, k), float) for g in gr])
        d['field.time'] = repr(float(sc.t_last_recom))
        if sc.flag_em_tracking:
            for nm in ('state_Ax', 'state_Ay'):
                for g in grids(getattr(sc, nm)):
                    d['em.' + nm] = dig(np.asarray(g.phi, float), np.asarray(g.efx, float))
    if sim.cross_ion is not None:
        for pr, lst in sorted(sim.cross_ion.projectiles_dict.items()):
            d['gas.' + pr] = repr([float(p.target_dens) for p in lst])
    return d


def trace(sim, on=None):
    """Records the state after every step; on(sim) is called first."""
    log = []

    def after(s):
        if on is not None:
            on(s)
        log.append(state(s))
    configs.on_step(sim, after)
    return log


def differences(a, b):
    return [k for k in sorted(set(a) | set(b)) if a.get(k, 'absent') != b.get(k, 'absent')]


class Loader:
    """Builds simulations whose load of a saved state happens with the random numbers of the moment of saving."""

    def __init__(self):
        from PyECLOUD.buildup_simulation import BuildupSimulation

        class Sim(BuildupSimulation):
            rng_at_load = None
            loaded = None

            def load_state(self, filename_simulation_state, *a, **k):
                self.loaded = filename_simulation_state
                if self.rng_at_load is not None:
                    r = self.rng_at_load
                    np.random.set_state(r[filename_simulation_state] if isinstance(r, dict) else r)
                return super().load_state(filename_simulation_state, *a, **k)
        self.Sim = Sim

    def build(self, folder, rng, **kw):
        self.Sim.rng_at_load = rng
        try:
            return self.Sim(pyecl_input_folder=folder, **kw)
        finally:
            self.Sim.rng_at_load = None


class FileWatch:
    """Random generator state at the moment files appear in a folder (checked whenever a recorder has been called)."""

    def __init__(self, sim, folder, match):
        self.folder, self.match = folder, match
        self.rng = {}
        self.when = {}
        self.bytes = {}
        for cl in sim.cloud_list:
            self.hook(sim, cl)

    def scan(self, sim):
        if not os.path.isdir(self.folder):
            return
        for f in os.listdir(self.folder):
            if self.match(f):
                fn = os.path.join(self.folder, f)
                st = os.stat(fn)
                key = (st.st_mtime_ns, st.st_ino, st.st_size)
                if self.when.get(f, (None,))[0] != key:
                    self.when[f] = (key, float(sim.beamtim.tt_curr))
                    self.rng[f] = np.random.get_state()

    def hook(self, sim, cl):
        sv = cl.pyeclsaver
        orig = sv.witness

        def witness(*a, **k):
            # the recorder itself goes into no pickle, but the clouds do: keep them free of our functions
            r = orig(*a, **k)
            self.scan(sim)
            return r
        sv.witness = witness


def pic_mode(rng, cfg, kind=None):
    """Random field solver; returns its name."""
    ok = ['FiniteDifferences_ShortleyWeller'] * 2 + ['FiniteDifferences_Staircase', 'ShortleyWeller_WithTelescopicGrids']
    if cfg.mach.get('chamb_type') == 'rect':
        ok += ['FFT_PEC_Boundary', 'FFT_OpenBoundary']
    m = kind or str(rng.choice(ok))
    cfg.sim['PyPICmode'] = m
    cfg.sim['sparse_solver'] = str(rng.choice(['PyKLU', 'scipy_slu']))
    if m == 'ShortleyWeller_WithTelescopicGrids':
        # the target has to be well inside the chamber
        r = float(cfg.ref.dist([0.], [0.])[0])
        h = .1 * r
        cfg.sim.update(f_telescope=.5, target_grid=dict(x_min_target=-h, x_max_target=h, y_min_target=-h, y_max_target=h, Dh_target=h / 6), N_nodes_discard=3., N_min_Dh_main=6., Dh_sc=max(r / 12., 5e-4))
    cfg.label.append(m)
    return m
