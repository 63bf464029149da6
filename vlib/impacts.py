"""Observer of one call of the wall-impact stage, from its boundary only: arrays before, arrays after."""
import numpy as np
from . import configs
from .simgen import QE, merge, SEY
from .seyref import YieldRef


class Record:
    pass


def seyref(cfg):
    p = merge(SEY, cfg.sey)
    return YieldRef(p, cfg.chamber, cfg.files.get('sey.mat'))


def observe(im, chamb, old_pos, MP, tt, call):
    """Runs call() (the impact stage of this cloud) and returns what was observed."""
    r = Record()
    r.b = configs.snap(MP)
    b = r.b
    n = b['N']
    r.capacity = len(MP.x_mp)
    ox, oy, oz = [np.array(v[:n]) for v in (old_pos.x_mp, old_pos.y_mp, old_pos.z_mp)] if n else [np.zeros(0)] * 3
    r.hit = np.asarray(chamb.is_outside(b['x_mp'], b['y_mp']), bool) if n else np.zeros(0, bool)
    h = np.flatnonzero(r.hit)
    r.h = h
    r.split = float(MP.nel_mp_split)
    r.hist0 = hist(im)
    Q = getattr(im.sey_mod, 'Q_segments', None)
    r.Q0 = None if Q is None else np.array(Q)
    if len(h):
        r.X, r.Y, r.Z, r.nx, r.ny, r.iseg = [None if v is None else np.array(v) for v in chamb.impact_point_and_normal(
            ox[h], oy[h], oz[h], b['x_mp'][h], b['y_mp'][h], b['z_mp'][h])]
        r.path = np.hypot(b['x_mp'][h] - ox[h], b['y_mp'][h] - oy[h])
        r.vx, r.vy, r.vz = b['vx_mp'][h], b['vy_mp'][h], b['vz_mp'][h]
        v2 = r.vx**2 + r.vy**2 + r.vz**2
        r.E = .5 * MP.mass / QE * v2
        r.vn = r.vx * r.nx + r.vy * r.ny
        r.cos = np.abs(r.vn) / np.sqrt(v2)
        r.nel = b['nel_mp'][h]
    r.mass = MP.mass
    r.result = call()
    r.a = configs.snap(MP)
    r.tt = tt
    r.hist1 = hist(im)
    Q = getattr(im.sey_mod, 'Q_segments', None)
    r.Q1 = None if Q is None else np.array(Q)
    r.new = np.arange(n, r.a['N'])
    # attribute every new macroparticle to the impact that emitted it, by its position
    r.owner = np.full(len(r.new), -1)
    r.ambiguous = False
    if len(h):
        keys = {}
        for i, k in enumerate(zip(r.X.tolist(), r.Y.tolist(), r.Z.tolist())):
            if k in keys:
                r.ambiguous = True
            keys[k] = i
        a = r.a
        for j, s in enumerate(r.new):
            r.owner[j] = keys.get((a['x_mp'][s], a['y_mp'][s], a['z_mp'][s]), -1)
        r.own_q = np.zeros(len(h))
        r.own_n = np.ones(len(h), int)
        ok = r.owner >= 0
        np.add.at(r.own_q, r.owner[ok], a['nel_mp'][r.new[ok]])
        np.add.at(r.own_n, r.owner[ok], 1)
        r.emit = a['nel_mp'][h] + r.own_q
        ev = .5 * MP.mass / QE * (a['vx_mp']**2 + a['vy_mp']**2 + a['vz_mp']**2)
        r.Eout = ev
    return r


NAMES = ('nel_impact_hist_tot', 'nel_impact_hist_scrub', 'energ_eV_impact_hist', 'En_hist_line', 'cos_angle_hist', 'nel_hist_impact_seg',
         'nel_hist_emit_seg', 'energ_eV_impact_seg', 'lifetime_hist_line')


def hist(im):
    d = {}
    for k in NAMES:
        v = getattr(im, k, None)
        if v is not None:
            d[k] = np.array(v)
    if getattr(im, 'seg_En_hist_lines', None) is not None:
        d['seg_En_hist_lines'] = np.array(im.seg_En_hist_lines)
    return d


class Vel:
    pass


def synthetic(rng, ref, chamb, MP, kind, n):
    """Puts n macroparticles in the cloud, with previous positions inside and current positions partly outside the chamber.
    Returns the previous positions (same interface as the trackers')."""
    from . import chambers
    x0, y0 = chambers.inside_points(rng, ref, n) if not hasattr(chamb, '_vpts') else chamb._vpts
    sc = ref.scale
    th = rng.uniform(0, 2 * np.pi, n)
    L = {'all': 4., 'some': 1., 'few': .05, 'none': 0.}[kind] * sc * rng.random(n)
    x1, y1 = x0 + L * np.cos(th), y0 + L * np.sin(th)
    z0 = rng.normal(0, 1e-2, n)
    z1 = z0 + rng.normal(0, 1e-3, n)
    E = 10**rng.uniform(-3, 5, n) if rng.random() < .5 else 10**rng.uniform(0, 3.3, n)
    v = np.sqrt(2 * E * QE / MP.mass)
    # velocity roughly along the path, any out-of-plane component
    el = rng.uniform(-1, 1, n)
    vt = v * np.sqrt(1 - el**2)
    dth = rng.normal(0, .15, n) if rng.random() < .8 else 0 * th
    MP.N_mp = n
    nel = {0: lambda: np.full(n, float(MP.nel_mp_ref)), 1: lambda: MP.nel_mp_ref * 10**rng.uniform(-6, 1.5, n),
           2: lambda: MP.nel_mp_ref * rng.uniform(0, 3, n)}[int(rng.integers(0, 3))]()
    for k, val in dict(x_mp=x1, y_mp=y1, z_mp=z1, vx_mp=vt * np.cos(th + dth), vy_mp=vt * np.sin(th + dth), vz_mp=v * el, nel_mp=nel).items():
        a = getattr(MP, k)
        a[:] = 0
        a[:n] = val
    if getattr(MP, 't_last_impact', None) is not None:
        MP.t_last_impact[:] = 0
        MP.t_last_impact[:n] = np.where(rng.random(n) < .3, 0., rng.uniform(0, 1e-9, n))
    old = Vel()
    old.x_mp, old.y_mp, old.z_mp = x0, y0, z0
    return old
