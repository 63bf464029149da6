"""Frozen maps of random fields (any grid, steps different in the two planes) with random slicings, offsets, centroid reference and kick
switches act on random beams over several turns, on the whole bunch and slice by slice (several bunches, slices that do not interact,
particles outside the slicing, resets by hand and at the first slice of the first bunch).  A monitor predicts the kick of each particle with
its own bilinear interpolation of the field of the slice the particle is in; all else has to stay equal bit by bit.  For real clouds (all
solvers and modes of use) a copy of the beam that was recorded is tracked through the map made of the recording, once or repeatedly, and has
to receive the kicks that the original received."""
import numpy as np
from vlib.harness import Task
from vlib import coupling as C
from checks.p23 import bins, beam_for, setup, describe

PROP = 'P25'
LEVEL = 'runtime monitoring'
TECHNIQUE = 'kick monitor with an independent interpolation oracle, and a record-and-replay comparison'
NOTE = 'interpolation recomputed; the recorded passage is the reference of the replay'
RULE = 'an evaluation is one slice whose kicks were compared; distinct = mode x options x solver'
ASSUMPTIONS = ['for nested (telescopic) grids the recording covers the innermost grid: kicks are compared for particles well within it', 'cells cut by the wall, where one of the solvers extrapolates from the nodes inside, are not compared for that solver']


def interp(xg, yg, F, x, y):
    """Bilinear interpolation, zero outside the grid."""
    i = np.searchsorted(xg, x, side='right') - 1
    j = np.searchsorted(yg, y, side='right') - 1
    ok = (i >= 0) & (j >= 0) & (i < len(xg) - 1) & (j < len(yg) - 1)
    i, j = np.where(ok, i, 0), np.where(ok, j, 0)
    u, v = (x - xg[i]) / (xg[i + 1] - xg[i]), (y - yg[j]) / (yg[j + 1] - yg[j])
    return np.where(ok, F[i, j] * (1 - u) * (1 - v) + F[i + 1, j] * u * (1 - v) + F[i, j + 1] * (1 - u) * v + F[i + 1, j + 1] * u * v, 0.)


class Map:
    """Random frozen map with its prediction."""

    def __init__(self, case, n, slc, slices):
        from PyECLOUD.Transverse_Efield_map_for_frozen_cloud import Transverse_Efield_map
        rng = case.rng
        nx, ny = rng.integers(4, 30, 2)
        hx, hy = 10**rng.uniform(-3.8, -2.8, 2)
        self.xg = (np.arange(nx) - nx / 2 + rng.normal()) * hx
        self.yg = (np.arange(ny) - ny / 2 + rng.normal()) * hy
        k = float(10**rng.uniform(-1, 5))
        kind = int(rng.integers(0, 3))
        if kind == 0:
            F = rng.normal(0, k, (2, n, nx, ny))
        else:
            X, Y = np.meshgrid(self.xg / hx / nx, self.yg / hy / ny, indexing='ij')
            F = np.array([[k * ((s + 1) * X + .3 * c * Y + .1 * np.sin(7 * X * Y)) for s in range(n)] for c in (1, -1)])
        self.n = n
        self.F = F
        self.L = float(10**rng.uniform(-1, 3))
        self.kw = kw = {}
        if rng.random() < .5:
            kw['x_beam_offset'] = float(rng.normal(0, 1e-3))
        if rng.random() < .5:
            kw['y_beam_offset'] = float(rng.normal(0, 1e-3))
        if rng.random() < .5:
            kw['wrt_slice_centroid'] = True
        if rng.random() < .25:
            kw['enable_kick_' + str(rng.choice(['x', 'y']))] = False
        if slices:
            kw['slice_by_slice_mode'] = True
        elif rng.random() < .5:
            kw['flag_clean_slices'] = True
        self.lab = 'map %dx%d of %d slices, %s' % (nx, ny, n, {a: (b if not isinstance(b, float) else round(b, 5)) for a, b in kw.items()})
        self.tag = '%s|%s' % ('slices' if slices else 'bunch', ','.join(sorted(kw)))
        self.map = Transverse_Efield_map(xg=self.xg.copy(), yg=self.yg.copy(), Ex=F[0].copy(), Ey=F[1].copy(), L_interaction=self.L, slicer=slc, **kw)

    def kicks(self, b, x, y, i):
        """Kick by the field number i (tail first)."""
        kw = self.kw
        cx, cy = (x.mean(), y.mean()) if kw.get('wrt_slice_centroid') and len(x) else (0., 0.)
        x, y = x - cx + kw.get('x_beam_offset', 0.), y - cy + kw.get('y_beam_offset', 0.)
        f = b.charge * self.L / (b.mass * b.gamma * b.beta**2 * C.CLIGHT**2)
        kx, ky = f * interp(self.xg, self.yg, self.F[0, i], x, y), f * interp(self.xg, self.yg, self.F[1, i], x, y)
        self.scale = abs(f) * np.abs(self.F[:, i]).max()
        # rounding decides on which side of the edge of the grid a particle is
        edge = np.zeros(len(x), bool)
        for g, q in ((self.xg, x), (self.yg, y)):
            for e in (g[0], g[-1]):
                edge |= np.abs(q - e) < 1e-9 * (g[-1] - g[0])
        self.sure = ~edge
        return kx * kw.get('enable_kick_x', True), ky * kw.get('enable_kick_y', True)

    def compare(self, case, c0, b, ix, k, scale, sure, what):
        for nm, kk, on in (('xp', k[0], self.kw.get('enable_kick_x', True)), ('yp', k[1], self.kw.get('enable_kick_y', True))):
            got = getattr(b, nm)[ix]
            if not on:
                case.check(np.array_equal(got, c0[nm][ix]), 'disabled', '%s: %s: kicks of %s were disabled' % (self.lab, what, nm))
                continue
            e = np.abs(got - c0[nm][ix] - kk)[sure]
            tol = 1e-9 * scale + 4e-16 * np.abs(c0[nm]).max(initial=0.)
            if not case.check(len(e) == 0 or bool(e.max() <= tol), 'kick', lambda: '%s: %s: change of %s is wrong for %d of %d particles, by up to %g (largest kick %g)' % (self.lab, what, nm, (e > tol).sum(), len(e), e.max(), np.abs(kk).max(initial=0.))):
                return False
        case.ok(self.tag)
        return True


def rest(case, c0, c1, lab, mask=None):
    for k in ('x', 'y', 'z', 'dp', 'id'):
        case.check(np.array_equal(c0[k], c1[k]), 'other-coordinates', '%s: %s of the beam changed' % (lab, k))
    if mask is not None:
        for k in ('xp', 'yp'):
            case.check(np.array_equal(c0[k][mask], c1[k][mask]), 'outside', '%s: %s of particles outside the slices changed' % (lab, k))


def direct(case):
    """Whole bunch."""
    rng = case.rng
    b = beam_for(rng)
    slc = C.slicer(rng, b, n=int(rng.integers(1, 9)))
    m = Map(case, slc.n_slices, slc, False)
    for turn in range(int(rng.integers(1, 5))):
        if turn and rng.random() < .4:
            b = C.bunch(rng, sz=b.sz, n=b.macroparticlenumber)
        if turn and not m.kw.get('flag_clean_slices'):
            b.clean_slices()
        sd = int(rng.integers(1, 10**6))
        sl, z = bins(b, slc, sd)
        if rng.random() < .3 and m.kw.get('flag_clean_slices'):
            # a stale slicing has to be forgotten
            b.get_slices(slc)
            b.z[:] = rng.permutation(b.z)
            sl, z = bins(b, slc, sd)
        c0 = C.coords(b)
        want = []
        for i, (ix, dz) in enumerate(sl):
            k = m.kicks(b, c0['x'][ix], c0['y'][ix], i)
            want.append((ix, k, m.scale, m.sure))
        C.seed(sd)
        m.map.track(b)
        c1 = C.coords(b)
        out = np.ones(len(c0['x']), bool)
        for i, (ix, k, scale, sure) in enumerate(want):
            out[ix] = False
            if not m.compare(case, c0, b, ix, k, scale, sure, 'turn %d, slice %d' % (turn, i)):
                return
        rest(case, c0, c1, m.lab, out)
        case.count('kicked particles', int((~out).sum()))
        case.count('particles outside the slices', int(out.sum()))
    case.sample(map=m.lab)


def cut(rng, b, slc, bunch=None, order=True):
    """Slices of a bunch from head to tail, with the particles outside somewhere in between."""
    ss = b.extract_slices(slc, include_non_sliced='always')
    body, un = ss[:-1][::-1], ss[-1]
    n = len(body)
    for i, s in enumerate(body):
        if bunch is not None:
            s.slice_info['info_parent_bunch'] = {'i_bunch': bunch, 'N_bunches_tot_beam': 3}
            s.slice_info['i_slice'] = i
        if rng.random() < .3:
            s.slice_info['interact_with_EC'] = True
    out = []
    for s in body:
        while rng.random() < .15:
            g = C.copy_bunch(s)
            g.slice_info = dict(z_bin_right=s.slice_info['z_bin_right'], z_bin_left=s.slice_info['z_bin_left'], interact_with_EC=False)
            if bunch is not None:
                g.slice_info.update(info_parent_bunch={'i_bunch': bunch, 'N_bunches_tot_beam': 3}, i_slice=max(1, s.slice_info['i_slice']))
            out.append(g)
        out.append(s)
    if rng.random() < .5:
        out.insert(int(rng.integers(0, len(out) + 1)), un)
    return out, n


def sliced(case):
    rng = case.rng
    b = beam_for(rng)
    n = int(rng.integers(1, 7))
    slc = C.slicer(rng, b, n=n)
    train = rng.random() < .5
    nb = int(rng.integers(2, 4)) if train else 1
    m = Map(case, n * nb, None, True)
    for turn in range(int(rng.integers(1, 5))):
        i = 0
        for j in range(nb):
            b = C.bunch(rng, sz=b.sz, n=b.macroparticlenumber)
            body, _ = cut(rng, b, slc, j if train else None)
            for s in body:
                c0 = C.coords(s)
                ix = np.arange(s.macroparticlenumber)
                quiet = s.slice_info == 'unsliced' or not s.slice_info.get('interact_with_EC', True)
                if not quiet:
                    k = m.kicks(s, c0['x'], c0['y'], n * nb - 1 - i)
                    scale, sure = m.scale, m.sure
                    i += 1
                m.map.track(s)
                if quiet:
                    rest(case, c0, C.coords(s), m.lab, np.ones(len(ix), bool))
                    case.count('slices that do not interact')
                else:
                    rest(case, c0, C.coords(s), m.lab)
                    if not m.compare(case, c0, s, ix, k, scale, sure, 'turn %d, slice %d from the head' % (turn, i)):
                        return
        if not train or rng.random() < .5:
            m.map.finalize_and_reinitialize()
    case.sample(map=m.lab, bunches=nb)


# --- recordings ------------------------------------------------------------------------------------------------------

class Replay:
    def __init__(self, case, cfg, ec, lab):
        self.case, self.cfg, self.lab = case, cfg, lab
        sc = ec.cloudsim.spacech_ele
        self.box = (sc.xg[0], sc.xg[-1], sc.yg[0], sc.yg[-1])
        if cfg.mode == 'ShortleyWeller_WithTelescopicGrids':
            g = cfg.sim['target_grid']
            d = cfg.sim['N_nodes_discard'] * g['Dh_target']
            self.box = g['x_min_target'] + d, g['x_max_target'] - d, g['y_min_target'] + d, g['y_max_target'] - d
        self.flag = None
        if cfg.mode == 'FiniteDifferences_ShortleyWeller':
            self.flag, self.xg, self.yg = np.array(sc.PyPICobj.flag_inside_n_mat) != 0, np.array(sc.xg), np.array(sc.yg)
        self.ox, self.oy = ec.x_beam_offset, ec.y_beam_offset

    def inside(self, c):
        a, b, d, e = self.box
        x, y = c['x'] + self.ox, c['y'] + self.oy
        ok = (x > a) & (x < b) & (y > d) & (y < e)
        if self.flag is not None:
            # this solver extrapolates from the nodes inside in cells cut by the wall
            i = np.clip(np.searchsorted(self.xg, x) - 1, 0, len(self.xg) - 2)
            j = np.clip(np.searchsorted(self.yg, y) - 1, 0, len(self.yg) - 2)
            f = self.flag
            ok &= f[i, j] & f[i + 1, j] & f[i, j + 1] & f[i + 1, j + 1]
        return ok

    def compare(self, c0, c1, c2, what):
        """Coordinates before, after the recorded passage and after the replay."""
        case = self.case
        ins = self.inside(c0)
        for k in ('x', 'y', 'z', 'dp', 'id'):
            case.check(np.array_equal(c0[k], c2[k]), 'replay-coordinates', '%s: %s: %s changed' % (self.lab, what, k))
        for k in ('xp', 'yp'):
            if not ins.any():
                continue
            w = c1[k][ins] - c0[k][ins]
            e = np.abs(c2[k][ins] - c1[k][ins])
            tol = 1e-9 * np.abs(w).max() + 4e-16 * np.abs(c0[k]).max(initial=0.)
            if not case.check(bool(e.max() <= tol), 'replay', lambda: '%s: %s: %s of %d of %d particles differs from the recorded passage, by up to %g of a kick of %g' % (self.lab, what, k, (e > tol).sum(), len(e), e.max(), np.abs(w).max())):
                return False
        case.count('replayed particles', int(ins.sum()))
        case.count('particles beyond the recorded grid', int((~ins).sum()))
        return True


def config(case, slices):
    cfg, kw = setup(case, slices=slices)
    kw.pop('probes_position', None)
    return cfg, kw


@C.roomy
def replay(case):
    """Whole bunch."""
    rng = case.rng
    cfg, kw = config(case, False)
    L = float(10**rng.uniform(-1, 4))
    b = beam_for(rng)
    slc = C.slicer(rng, b)
    lab = describe(cfg, kw, b)
    ec = C.element(case, cfg, 'a', L, slc, float(rng.choice([1e-10, 1e-9])), **kw)
    copies = [C.copy_bunch(b) for _ in range(3)]
    c0 = C.coords(b)
    sd = int(rng.integers(1, 10**6))
    r = Replay(case, cfg, ec, lab)
    delete = bool(rng.random() < .5)
    if rng.random() < .5:
        C.seed(sd)
        ec.track_once_and_replace_with_recorded_field_map(b, delete_ecloud_data=delete)
        how = 'track once and replace'
    else:
        for _ in range(int(rng.integers(0, 2))):
            ec.track(C.copy_bunch(b))
        C.seed(sd)
        setattr(ec, str(rng.choice(['save_ele_field', 'save_ele_potential_and_field'])), True)
        ec.track(b)
        ec.replace_with_recorded_field_map(delete_ecloud_data=delete)
        how = 'record, then replace'
    c1 = C.coords(b)
    for i, x in enumerate(copies):
        C.seed(sd)
        ec.track(x)
        if not r.compare(c0, c1, C.coords(x), '%s, replay %d' % (how, i)):
            return
        case.ok('replay|%s|%s' % (cfg.mode, ','.join(sorted(kw))), n=slc.n_slices)
    case.sample(config=lab, how=how)


@C.roomy
def replay_slices(case):
    """Slice by slice, one or several bunches."""
    rng = case.rng
    cfg, kw = config(case, True)
    L = float(10**rng.uniform(-1, 4))
    Dt = cfg.Dt
    b = C.bunch(rng, sz=float(rng.uniform(.03, .09)))
    lab = describe(cfg, kw, b) + ' slices'
    ec = C.element(case, cfg, 'a', L, None, float(rng.choice([1e-10, 1e-9])), slice_by_slice_mode=True, **kw)
    train = rng.random() < .4
    nb = int(rng.integers(2, 4)) if train else 1
    r = Replay(case, cfg, ec, lab)
    seq = []
    for j in range(nb):
        b = C.bunch(rng, sz=b.sz, n=b.macroparticlenumber, mass=b.mass, charge=b.charge, gamma=b.gamma)
        body, _ = cut(rng, b, C.slicer(rng, b, n=int(rng.integers(2, 6))), j if train else None)
        if rng.random() < .6:
            g = C.copy_bunch(body[-1])
            e = -(b.sz * 4)
            info = dict(z_bin_right=e, z_bin_left=e - float(rng.uniform(.3e-9, 7e-9)) * b.beta * C.CLIGHT, interact_with_EC=False)
            if train:
                info.update(info_parent_bunch={'i_bunch': j, 'N_bunches_tot_beam': nb}, i_slice=7)
            g.slice_info = info
            body.insert(int(rng.integers(1, len(body) + 1)), g)
        seq += body
    if train and (seq[0].slice_info == 'unsliced' or not seq[0].slice_info.get('interact_with_EC', True)):
        seq = seq[1:] if seq[0].slice_info == 'unsliced' else seq
    if Dt is not None and any(x.slice_info != 'unsliced' and x.slice_info.get('interact_with_EC', True) and (x.slice_info['z_bin_right'] - x.slice_info['z_bin_left']) / (x.beta * C.CLIGHT) > Dt for x in seq):
        case.count('too long slices')
        return
    c0 = [C.coords(s) for s in seq]
    copies = []
    for _ in range(3):
        l = []
        for s in seq:
            x = C.copy_bunch(s)
            x.slice_info = dict(s.slice_info) if isinstance(s.slice_info, dict) else s.slice_info
            l.append(x)
        copies.append(l)
    delete = bool(rng.random() < .5)
    if train or rng.random() < .6:
        ec.track_once_and_replace_with_recorded_field_map(seq, delete_ecloud_data=delete)
        how = 'track once and replace'
    else:
        ec.save_ele_field = True
        ec._reinitialize()
        for s in seq:
            ec.track(s)
        ec._finalize()
        ec.replace_with_recorded_field_map(delete_ecloud_data=delete)
        how = 'record, then replace'
    c1 = [C.coords(s) for s in seq]
    for i, l in enumerate(copies):
        n = 0
        for j, s in enumerate(l):
            ec.track(s)
            n += s.slice_info != 'unsliced' and s.slice_info.get('interact_with_EC', True)
            if not r.compare(c0[j], c1[j], C.coords(s), '%s, replay %d, piece %d of %d' % (how, i, j, len(l))):
                return
        case.ok('replay slices|%s|%s|%d' % (cfg.mode, ','.join(sorted(kw)), train), n=n)
        ec.finalize_and_reinitialize()
    case.sample(config=lab, how=how, pieces=len(seq))


def tasks(tier):
    k = 1 if tier == 'quick' else 60
    return [Task(direct, 120 * k, 'direct', min_ok=700), Task(sliced, 120 * k, 'sliced', min_ok=700), Task(replay, 28 * k, 'replay', min_ok=200), Task(replay_slices, 28 * k, 'replay_slices', min_ok=150)]
