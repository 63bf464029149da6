"""Independent observer of a running simulation: what happened in every step, per cloud, seen at the public boundaries of the
impact stage (backtrack_and_second_emiss) and of the recorder (witness)."""
import os
import numpy as np
from . import configs, impacts


class Step:
    pass


class Observer:
    """log[i_cloud] is a list of Step: t, lam, new_pass, pass_numb, imp (impacts.Record or None), state (snapshot when the recorder is
    called, i.e. after sources and before cleaning), obs (values of user functions), written (the output file was replaced)."""

    def __init__(self, sim, functions=None, keep_state=True, on_witness=None):
        self.sim = sim
        self.functions = functions or {}
        self.log = [[] for _ in sim.cloud_list]
        self.keep_state = keep_state
        self.on_witness = on_witness
        self.mp_impact = [0] * len(sim.cloud_list)
        for ic in range(len(sim.cloud_list)):
            self.hook(ic)

    def hook(self, ic):
        sim = self.sim
        cloud = sim.cloud_list[ic]
        im, sv = cloud.impact_man, cloud.pyeclsaver
        stage, witness = im.backtrack_and_second_emiss, sv.witness
        pending = {}

        def impact_stage(old_pos, MP_e, tt_curr=None):
            ch = im.chamb
            saved = {k: getattr(ch, k) for k in ('N_mp_impact', 'N_mp_corrected') if hasattr(ch, k)}

            def call():
                for k, v in saved.items():
                    setattr(ch, k, v)
                r = stage(old_pos, MP_e, tt_curr)
                for k in saved:
                    saved[k] = getattr(ch, k)
                return r
            pending['imp'] = impacts.observe(im, ch, old_pos, MP_e, tt_curr, call)
            for k, v in saved.items():  # the observer asks the chamber as well
                setattr(ch, k, v)
            return pending['imp'].result

        def record(*a, **k):
            s = Step()
            bt = sim.beamtim
            s.t, s.lam = float(bt.tt_curr), float(bt.lam_t_curr)
            s.new_pass, s.pass_numb = bool(bt.flag_new_bunch_pass), int(bt.pass_numb)
            s.imp = pending.pop('imp', None)
            s.state = configs.snap(cloud.MP_e) if self.keep_state else None
            s.obs = {n: f(sim) for n, f in self.functions.items()}
            fn = sv.filen_main_outp
            before = stamp(fn)
            r = witness(*a, **k)
            s.written = stamp(fn) != before
            self.log[ic].append(s)
            if self.on_witness is not None:
                self.on_witness(ic, s)
            return r
        im.backtrack_and_second_emiss = impact_stage
        sv.witness = record


def stamp(fn):
    try:
        st = os.stat(fn)
        return (st.st_mtime_ns, st.st_ino, st.st_size)
    except OSError:
        return None


def tot(imp):
    """Impacting and emitted charge and energy of one step."""
    if imp is None or len(imp.h) == 0:
        return 0., 0., 0., 0.
    ein = float(np.sum(imp.E * imp.nel))
    sel = np.concatenate((imp.h, imp.new))
    q = imp.a['nel_mp'][sel]
    return float(imp.nel.sum()), float(q.sum()), ein, float(np.sum(q * imp.Eout[sel]))


def cic(x, w, grid):
    """Charge sharing between neighbouring bins of a uniform grid; beyond the last bin everything goes to the last bin."""
    h = np.zeros(len(grid))
    x, w = np.asarray(x, float), np.asarray(w, float)
    if len(x) == 0:
        return h
    f = (x - grid[0]) / (grid[1] - grid[0])
    i = np.floor(f).astype(int)
    d = f - i
    last = i >= len(grid) - 1
    np.add.at(h, np.where(last, len(grid) - 1, i), np.where(last, w, w * (1 - d)))
    np.add.at(h, np.where(last, len(grid) - 1, i + 1), np.where(last, 0., w * d))
    return h


def ekin(st, mass, qe=1.602176634e-19):
    return .5 * mass / qe * (st['vx_mp']**2 + st['vy_mp']**2 + st['vz_mp']**2)


def groups(steps, t_rec):
    """Index of the steps recorded at times t_rec, or None if a recorded time is not a step."""
    idx = {s.t: i for i, s in enumerate(steps)}
    out = []
    for t in t_rec:
        if float(t) not in idx:
            return None
        out.append(idx[float(t)])
    return out
