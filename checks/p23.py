"""Random beams (protons, electrons, ions, any energy, off-centre, larger than the chamber), slicings (with empty slices and particles
outside the sliced region), clouds (solvers on one and several grids, fields of the magnets, emission models, gas ionisation) and options
of the coupling are tracked in whole-bunch and in slice-by-slice mode, with non-interacting slices and clones that share the solver.  A
monitor follows each passage with a separate field solver: before each motion of the cloud it takes the particles of the slice that is due
(head first) and the cloud left by the step before, and predicts the motion of every electron in both fields with the configured sub-steps
(kick or re-interpolation modes included); after the step it predicts, from the cloud there is now, the kick of each beam particle of the
slice.  After the passage every coordinate of every beam particle has to be as predicted, unchanged ones bit by bit; recorded fields,
densities and potentials have to be those of the monitor, one per step in the order of the slicing.  Primary electrons have to follow the
charge, position and size of the slice.  Whole-bunch and slice-by-slice use have to agree bit by bit."""
import copy
import numpy as np
from vlib.harness import Task
from vlib import configs, coupling as C, stats
from vlib.simgen import DROP
from checks.p10 import boris_ref

PROP = 'P23'
LEVEL = 'runtime monitoring'
TECHNIQUE = 'trace monitor of passages with an independent prediction of electron motion and beam kicks, and differential runs of the two modes of use'
NOTE = 'fields from a separate instance of the solver library, motion and kicks recomputed'
RULE = 'an evaluation is one slice whose effect on the cloud and whose kicks were predicted; distinct = solver x mode x options x species'
ASSUMPTIONS = ['the external solver library computes fields of given charges correctly (compared with other methods in P11 and P15)']


class Magnet:
    def __init__(self, cfg):
        m = {k: v for k, v in cfg.mach.items() if v is not DROP}
        self.B0 = np.array([float(m.get(k) or 0.) for k in ('B0x', 'B0y', 'B0z')])
        self.kn, self.ks = list(m.get('B_multip') or []), list(m.get('B_skew') or [])
        self.grad = m.get('fact_Bmap', 1.) if m.get('B_map_file') == 'analytic_qaudrupole_unit_grad' else 0.

    def __call__(self, x, y):
        import math
        B = [np.full(x.shape, b) for b in self.B0]
        z = x + 1j * y
        t = np.zeros(x.shape, complex)
        for i, k in enumerate(self.kn):
            t += k * z**i / math.factorial(i)
        for i, k in enumerate(self.ks):
            t += 1j * k * z**i / math.factorial(i)
        B[0], B[1] = B[0] + t.imag + self.grad * y, B[1] + t.real + self.grad * x
        return np.array(B)


class Slice:
    """A slice that is about to act."""

    def __init__(self, b, ix, dz, interact=True, new_pass=False):
        self.ix, self.dz, self.interact = ix, dz, interact and len(ix) > 0
        self.kicks = interact
        self.x, self.y = np.array(b.x[ix]), np.array(b.y[ix])
        self.b = b


class Monitor:
    def __init__(self, case, ec, cfg, kw, L, Dt_ref, lab):
        self.case, self.ec, self.cfg, self.L, self.Dt_ref, self.lab = case, ec, cfg, L, Dt_ref, lab
        self.ox, self.oy = kw.get('x_beam_offset', 0.), kw.get('y_beam_offset', 0.)
        self.kick_mode, self.reinterp = kw.get('kick_mode_for_beam_field', False), kw.get('force_interp_at_substeps_interacting_slices', False)
        self.B = Magnet(cfg)
        self.beam, self.cloud = C.Pic(ec, cfg), C.Pic(ec, cfg)
        self.cloud.done = False
        self.queue, self.now, self.log = [], None, []
        self.bad = False
        self.tag = '%s|%s|%s%s' % (cfg.mode, '%s', 'k' if self.kick_mode else '', 'r' if self.reinterp else '')
        self.gen = []
        cl = ec.cloudsim.cloud_list[0]
        self.cl = cl
        f = cl.impact_man.backtrack_and_second_emiss

        def impacts(old, MP, *a, **k):
            self.moved(MP)
            r = f(old, MP, *a, **k)
            self.after_impacts = int(r.N_mp)
            return r
        cl.impact_man.backtrack_and_second_emiss = impacts
        configs.on_step(ec.cloudsim, self.after, self.before)

    def fresh(self):
        self.cloud.done = False
        self.log = []

    def plan(self, s):
        """Steps of the cloud for a slice."""
        dt = s.dz / (s.b.beta * C.CLIGHT)
        Dt = self.cfg.sim['Dt']
        n = 1 if Dt is None or dt <= Dt else int(np.ceil(dt / Dt * (1 - 1e-12)))
        for i in range(n):
            self.queue.append((s, dt / n))

    def fields(self, s, x, y):
        E = np.zeros((3, len(x)))
        Eb = np.zeros((3, len(x)))
        E[0], E[1] = self.cloud.at(x, y)
        if s.interact:
            Eb[0], Eb[1] = self.beam.at(x, y)
        return E, Eb

    def before(self, sim):
        if self.bad:
            return
        if not self.case.check(bool(self.queue), 'steps', '%s: more steps of the cloud than slices' % self.lab):
            self.bad = True
            return
        s, dt = self.now = self.queue.pop(0)
        MP = self.cl.MP_e
        k = int(MP.N_mp)
        r, v = np.array([MP.x_mp[:k], MP.y_mp[:k], MP.z_mp[:k]]), np.array([MP.vx_mp[:k], MP.vy_mp[:k], MP.vz_mp[:k]])
        ns = int(np.round(dt / self.Dt_ref)) if dt > self.Dt_ref else 1
        if s.interact:
            self.beam.put(s.x + self.ox, s.y + self.oy, np.full(len(s.x), s.b.particlenumber_per_mp / s.dz), s.b.charge)
        q, m = MP.charge, MP.mass
        R, V = self.motion(s, r, v, dt, ns, q, m)
        # the same from a start that differs by rounding: where the motion is unstable, so is the comparison
        g = np.random.Generator(np.random.PCG64(k))
        R2, V2 = self.motion(s, r, v, dt, ns, q, m, 1 + 1e-13 * g.normal(0, 1, (2, 3, k))) if k else (R, V)
        self.aR, self.aV = np.abs(R2 - R).max(0), np.abs(V2 - V).max(0)
        self.r, self.R, self.V = r, R, V
        self.ns = ns

    def motion(self, s, r, v, dt, ns, q, m, noise=None):
        E, Eb = self.fields(s, r[0], r[1])
        R, V = r, v
        if noise is not None:
            R, V = r * noise[0], v * noise[1]
        if self.kick_mode:
            V = V + Eb * q / m * dt
        ext = ns if self.reinterp and s.kicks else 1
        for i in range(ext):
            if i:
                E, Eb = self.fields(s, R[0], R[1])
            R, V = boris_ref(R, V, E if self.kick_mode else E + Eb, self.B, q, m, dt / ns, ns // ext)
        return R, V

    def moved(self, MP):
        if self.bad or self.now is None:
            return
        k = int(MP.N_mp)
        case = self.case
        if not case.check(k == self.R.shape[1], 'motion-number', self.lab):
            self.bad = True
            return
        if k == 0:
            return
        gR, gV = np.array([MP.x_mp[:k], MP.y_mp[:k], MP.z_mp[:k]]), np.array([MP.vx_mp[:k], MP.vy_mp[:k], MP.vz_mp[:k]])
        dv, dr = np.abs(gV - self.V).max(0), np.abs(gR - self.R).max(0)
        # where fields are taken again after each sub-step, rounding can put a particle in another cell
        sv, sr = np.abs(self.V).max(), np.abs(self.R - self.r).max() + 1e-15
        dv, dr = np.maximum(dv - 1e3 * self.aV, 0), np.maximum(dr - 1e3 * self.aR, 0)
        wv, wr = dv / sv, dr / sr
        self.case.count('electrons in unstable motion', int((1e3 * self.aR > 1e-6 * sr).sum()))
        self.case.count('electrons moved', k)
        good = (wv <= 1e-6) & (wr <= 1e-6)
        if not good.all():
            i = int(np.argmax(np.maximum(wv, wr)))
            case.fail('motion', '%s: slice %d: %d of %d electrons move differently, the worst by %g of the largest velocity (%g sub-steps, charge in slice %d)' % (self.lab, len(self.log), (~good).sum(), k, max(wv[i], wr[i]), self.ns, len(self.now[0].x)))
            self.bad = True

    def after(self, sim):
        if self.bad or self.now is None:
            return
        s, dt = self.now
        self.now = None
        MP = self.cl.MP_e
        k = int(MP.N_mp)
        self.gen.append((s, dt, self.after_impacts, np.array(MP.x_mp[self.after_impacts:k]), np.array(MP.y_mp[self.after_impacts:k]), np.array(MP.nel_mp[self.after_impacts:k])))
        self.cloud.put(MP.x_mp[:k], MP.y_mp[:k], MP.nel_mp[:k], MP.charge)
        if s.kicks:
            ex, ey = self.cloud.at(s.x + self.ox, s.y + self.oy)
            f = s.b.charge * self.L / (s.b.mass * s.b.gamma * s.b.beta**2 * C.CLIGHT**2)
            s.kx, s.ky = f * np.array(ex), f * np.array(ey)
        p = self.cloud.pic
        d = dict(rho=np.array(p.rho), phi=np.array(p.phi), Ex=np.array(p.efx), Ey=np.array(p.efy), N=k)
        for n in ('x', 'y', 'vx', 'vy', 'nel'):
            d[n] = np.array(getattr(MP, n + '_mp')[:k])
        if s.interact:
            p = self.beam.pic
            d.update(brho=np.array(p.rho), bphi=np.array(p.phi), bEx=np.array(p.efx), bEy=np.array(p.efy))
        if getattr(self, 'probes', None) is not None:
            d['pEx'], d['pEy'] = self.cloud.at(*self.probes)
        self.log.append(d)

    def kicked(self, s, xp0, yp0, b, ix, ex=True, ey=True):
        """Compares the coordinates of a slice after its passage."""
        case = self.case
        if self.bad or not s.kicks or len(ix) == 0:
            return
        for nm, p0, p1, k, on in (('horizontal', xp0, b.xp[ix], s.kx, ex), ('vertical', yp0, b.yp[ix], s.ky, ey)):
            if not on:
                case.check(np.array_equal(p0, p1), 'disabled', '%s: %s kicks were disabled' % (self.lab, nm))
                continue
            tol = 1e-9 * np.abs(k).max() + 4e-16 * np.abs(p0).max()
            e = np.abs(p1 - p0 - k)
            if not case.check(bool(e.max() <= tol), 'kick', lambda: '%s: %s kick of %d of %d particles of a slice is wrong, by up to %g of %g' % (self.lab, nm, (e > tol).sum(), len(e), e.max(), np.abs(k).max())):
                self.bad = True
                return
        case.ok(self.tag % ('kick'))

    def records(self, flags):
        """The recorded quantities, which come in the order of the slicing (tail first)."""
        case, ec = self.case, self.ec
        if self.bad:
            return
        want = self.log[::-1]
        pairs = []
        if 'save_ele_distributions_last_track' in flags:
            pairs.append(('rho_ele_last_track', 'rho'))
        if 'save_ele_potential_and_field' in flags:
            pairs += [('phi_ele_last_track', 'phi'), ('Ex_ele_last_track', 'Ex'), ('Ey_ele_last_track', 'Ey')]
        if 'save_beam_distributions_last_track' in flags:
            pairs.append(('rho_beam_last_track', 'brho'))
        if 'save_beam_potential_and_field' in flags:
            pairs += [('phi_beam_last_track', 'bphi'), ('Ex_beam_last_track', 'bEx'), ('Ey_beam_last_track', 'bEy')]
        if 'save_ele_MP_position' in flags:
            pairs += [('x_MP_last_track', 'x'), ('y_MP_last_track', 'y'), ('N_MP_last_track', 'N')]
        if 'save_ele_MP_velocity' in flags:
            pairs += [('vx_MP_last_track', 'vx'), ('vy_MP_last_track', 'vy')]
        if 'save_ele_MP_size' in flags:
            pairs += [('nel_MP_last_track', 'nel')]
        if getattr(self, 'probes', None) is not None:
            pairs += [('Ex_ele_last_track_at_probes', 'pEx'), ('Ey_ele_last_track_at_probes', 'pEy')]
        for name, k in pairs:
            got = getattr(ec, name)
            if not case.check(len(got) == len(want), 'record-length', lambda: '%s: %s has %d entries for %d steps' % (self.lab, name, len(got), len(want))):
                continue
            for i, (g, w) in enumerate(zip(got, want)):
                g = np.asarray(g)
                if k not in w:   # no beam in this slice
                    if not case.check(g.shape == np.shape(w['rho']) and not g.any(), 'record-no-beam', lambda: '%s: %s: entry %d (of %d, tail first) belongs to a slice without beam and is not zero' % (self.lab, name, i, len(want))):
                        return
                    continue
                w = w[k]
                if k in ('x', 'y', 'vx', 'vy', 'nel'):
                    g = g[:len(w)]
                scale = np.abs(np.asarray(w, float)).max() if np.size(w) else 0.
                if k in ('pEx', 'pEy', 'Ex', 'Ey', 'phi', 'rho'):
                    scale = max(np.abs(v[k]).max() for v in want)
                ok = g.shape == np.shape(w) and (np.size(w) == 0 or np.abs(g - w).max() <= 1e-9 * scale)
                if not case.check(bool(ok), 'record', lambda: '%s: %s: entry %d (of %d, tail first) is not that of the slice' % (self.lab, name, i, len(want))):
                    return
            case.ok(self.tag % name.split('_last')[0], n=0)
            case.count('recorded ' + name, len(want))


FLAGS = ('save_ele_distributions_last_track', 'save_ele_potential_and_field', 'save_ele_MP_position', 'save_ele_MP_velocity', 'save_ele_MP_size', 'save_beam_distributions_last_track', 'save_beam_potential_and_field')


def setup(case, slices=False, light=False, gas=False, tracker=None):
    rng = case.rng
    src = ['edens'] if not gas else []
    if gas:
        src = ['gas', 'unif']
    elif rng.random() < .25:
        src.append('gas')
    Dt = 1e-8 if rng.random() < .5 else None
    if slices and rng.random() < .6:
        Dt = float(rng.uniform(1.5e-9, 2.5e-9))
    sey = str(rng.choice(['perfect_absorber', 'ECLOUD', 'ACC_LOW']))
    cfg = C.config(rng, sey=sey, sources=src, Dt=Dt, nmp=int(rng.integers(400, 1200)), tracker=tracker)
    cfg.sim.update(N_mp_regen=10**6, fact_clean=0.)
    cfg.Dt = Dt
    kw = {}
    if rng.random() < .6:
        kw.update(x_beam_offset=float(rng.normal(0, 8e-4)), y_beam_offset=float(rng.normal(0, 8e-4)))
    if rng.random() < .3:
        kw['kick_mode_for_beam_field'] = True
    if rng.random() < .3:
        kw['force_interp_at_substeps_interacting_slices'] = True
    if rng.random() < .25:
        kw['enable_kick_' + str(rng.choice(['x', 'y']))] = False
    if rng.random() < .4:
        kw['probes_position'] = [dict(x=float(x), y=float(y)) for x, y in rng.normal(0, 2e-3, (3, 2))]
    return cfg, kw


def watch(case, ec, cfg, kw, L, Dt_ref, lab):
    m = Monitor(case, ec, cfg, kw, L, Dt_ref, lab)
    if 'probes_position' in kw:
        m.probes = np.array([d['x'] for d in kw['probes_position']]), np.array([d['y'] for d in kw['probes_position']])
    return m


def describe(cfg, kw, b):
    return '%s %s charge %d gamma %.3g' % (cfg.lab, {k: (v if not isinstance(v, (list, float)) else '') for k, v in kw.items()}, round(b.charge / C.QE), b.gamma)


def bins(b, slc, seed):
    """The slicing, from the bin edges alone where they are uniform."""
    c = C.copy_bunch(b)
    C.seed(seed)
    s = c.get_slices(slc)
    z = np.array(s.z_bins)
    out = []
    for i in range(s.n_slices):
        ix = np.array(s.particle_indices_of_slice(i))
        out.append((ix, z[i + 1] - z[i]))
    return out, z


def beam_for(rng):
    n = int(rng.choice([200, 600, 1200]))
    b = C.bunch(rng, n=n)
    if rng.random() < .25:
        b.x[:] *= 6   # some particles beyond the wall
        b.y[:] *= 6
    if rng.random() < .2:
        b.z[:] = np.where(rng.random(n) < .5, -abs(b.z) - .03, abs(b.z) + .05)   # an empty region in the middle
    return b


@C.roomy
def whole(case, clones=False):
    rng = case.rng
    cfg, kw = setup(case)
    L, Dt_ref = float(10**rng.uniform(-1, 4)), float(rng.choice([25e-12, 1e-10, 3e-10, 1e-9]))
    b = beam_for(rng)
    slc = C.slicer(rng, b, n=int(rng.integers(2, 8)))
    lab = describe(cfg, kw, b)
    more = dict(flag_clean_slices=True) if rng.random() < .5 else {}
    ecs = [C.element(case, cfg, 'a', L, slc, Dt_ref, **kw, **more)]
    if clones:
        ecs.append(ecs[0].generate_twin_ecloud_with_shared_space_charge())
    flags = [f for f in FLAGS if rng.random() < .5]
    ms = []
    for e in ecs:
        for f in flags:
            setattr(e, f, True)
        ms.append(watch(case, e, cfg, kw, L, Dt_ref, lab))
    for t in range(3):
        j = int(rng.integers(0, len(ecs)))
        ec, m = ecs[j], ms[j]
        b = C.bunch(rng, mass=b.mass, charge=b.charge, gamma=b.gamma, sz=b.sz, n=b.macroparticlenumber) if t and rng.random() < .6 else b
        if more or t == 0:
            pass
        else:
            b.clean_slices()
        sd = int(rng.integers(1, 10**6))
        sl, z = bins(b, slc, sd)
        c0 = C.coords(b)
        m.fresh()
        todo = []
        for ix, dz in sl[::-1]:
            s = Slice(b, ix, dz)
            todo.append(s)
            m.plan(s)
        C.seed(sd)
        ec.track(b)
        if m.bad:
            return
        if not case.check(not m.queue, 'steps', '%s: %d slices did not act' % (lab, len(m.queue))):
            return
        c1 = C.coords(b)
        for k in ('x', 'y', 'z', 'dp', 'id'):
            case.check(np.array_equal(c0[k], c1[k]), 'other-coordinates', '%s: %s of the beam changed' % (lab, k))
        outside = np.ones(b.macroparticlenumber, bool)
        for s in todo:
            outside[s.ix] = False
            m.kicked(s, c0['xp'][s.ix], c0['yp'][s.ix], b, s.ix, kw.get('enable_kick_x', True), kw.get('enable_kick_y', True))
        for k in ('xp', 'yp'):
            case.check(np.array_equal(c0[k][outside], c1[k][outside]), 'outside', '%s: particles outside the sliced region were kicked' % lab)
        far = (c0['z'] < z[0]) | (c0['z'] > z[-1])
        case.check(bool(outside[far].all()), 'outside-slicing', lab)
        case.count('particles outside the slices', int(outside.sum()))
        case.count('empty slices', sum(len(s.ix) == 0 for s in todo))
        m.records(flags)
        if m.bad:
            return
    case.count('electrons followed', sum(d['N'] for m in ms for d in m.log))
    case.sample(config=lab, slices=len(sl), records=flags)


@C.roomy
def sliced(case):
    """Slice-by-slice mode, with slices that do not interact."""
    rng = case.rng
    cfg, kw = setup(case, slices=True)
    L, Dt_ref = float(10**rng.uniform(-1, 4)), float(rng.choice([25e-12, 1e-10, 3e-10, 1e-9]))
    b = C.bunch(rng, sz=float(rng.uniform(.03, .09)))
    lab = describe(cfg, kw, b) + ' slices'
    ec = C.element(case, cfg, 'a', L, None, Dt_ref, slice_by_slice_mode=True, **kw)
    flags = [f for f in FLAGS if rng.random() < .5]
    for f in flags:
        setattr(ec, f, True)
    ec._reinitialize()
    m = watch(case, ec, cfg, kw, L, Dt_ref, lab)
    for t in range(2):
        m.fresh()
        ss = b.extract_slices(C.slicer(rng, b, n=int(rng.integers(2, 6))), include_non_sliced='always')
        un, body = ss[-1], ss[:-1][::-1]
        for s in body:
            if rng.random() < .5:
                s.slice_info['interact_with_EC'] = True
        if rng.random() < .6:
            g = C.copy_bunch(body[-1])
            left = body[-1].slice_info['z_bin_left']
            T = float(rng.uniform(.3e-9, 7e-9))
            g.slice_info = dict(z_bin_right=left, z_bin_left=left - T * b.beta * C.CLIGHT, interact_with_EC=False)
            body.insert(int(rng.integers(1, len(body) + 1)), g)
        body.insert(int(rng.integers(0, len(body) + 1)), un)
        if cfg.Dt is not None and any(x.slice_info != 'unsliced' and x.slice_info.get('interact_with_EC', True) and (x.slice_info['z_bin_right'] - x.slice_info['z_bin_left']) / (x.beta * C.CLIGHT) > cfg.Dt for x in body):
            case.count('too long slices')
            continue
        for x in body:
            c0 = C.coords(x)
            quiet = x.slice_info == 'unsliced' or not x.slice_info.get('interact_with_EC', True)
            if x.slice_info != 'unsliced':
                s = Slice(x, np.arange(x.macroparticlenumber), x.slice_info['z_bin_right'] - x.slice_info['z_bin_left'], interact=not quiet)
                m.plan(s)
            n = len(m.log)
            ec.track(x)
            if m.bad:
                return
            if not case.check(not m.queue, 'steps', '%s: a slice did not act' % lab):
                return
            c1 = C.coords(x)
            for k in ('x', 'y', 'z', 'dp', 'id') + (('xp', 'yp') if quiet else ()):
                case.check(np.array_equal(c0[k], c1[k]), 'other-coordinates' if not quiet else 'outside', '%s: %s of a slice changed' % (lab, k))
            if x.slice_info == 'unsliced':
                case.check(len(m.log) == n, 'steps', '%s: particles outside the slices move the cloud' % lab)
            elif not quiet:
                m.kicked(s, c0['xp'], c0['yp'], x, s.ix, kw.get('enable_kick_x', True), kw.get('enable_kick_y', True))
            else:
                case.ok(m.tag % 'no interaction')
            if m.bad:
                return
        ec._finalize()
        m.records(flags)
        ec._reinitialize()
    case.sample(config=lab, slices=len(body))


@C.roomy
def modes(case):
    """The whole bunch at once and slice by slice."""
    rng = case.rng
    cfg, kw = setup(case, tracker='BorisMultipole')
    L, Dt_ref = float(10**rng.uniform(-1, 4)), float(rng.choice([25e-12, 1e-10, 1e-9]))
    b = beam_for(rng)
    lab = describe(cfg, kw, b)
    slc = C.slicer(rng, b, kind='cuts')
    f = C.folder(case, cfg, 'in')
    a = C.element(case, cfg, 'a', L, slc, Dt_ref, folder=f, **kw)
    e = C.element(case, cfg, 'b', L, None, Dt_ref, folder=f, slice_by_slice_mode=True, **kw)
    c = C.copy_bunch(b)
    sd = int(rng.integers(1, 10**6))
    C.seed(sd)
    a.track(b)
    e._reinitialize()
    ss = c.extract_slices(slc)
    C.seed(sd)
    body = ss
    for s in body[::-1]:
        e.track(s)
    for k in C.COORDS:
        g = np.concatenate([getattr(s, k) for s in body])
        i = np.concatenate([s.id for s in body])
        w = np.array(getattr(b, k))
        o = np.argsort(i)
        if not case.check(np.array_equal(g[o], w[np.argsort(b.id)]), 'modes', lambda: '%s: %s differs between whole-bunch and slice-by-slice tracking by %g' % (lab, k, np.abs(g[o] - w[np.argsort(b.id)]).max())):
            return
    case.ok('modes|%s' % cfg.mode, n=slc.n_slices)
    case.sample(config=lab)


def ionisation(case):
    """Primary electrons appear with the charge, place and size of the slice."""
    rng = case.rng
    cfg, kw = setup(case, gas=True)
    kw.pop('force_interp_at_substeps_interacting_slices', None)
    cfg.mach.update(unif_frac=0., P_nTorr=1e4, sigma_ion_MBarn=1.5, Temp_K=300., t_ion=DROP, Nel_init_unif=1e5)
    cfg.mach.pop('t_ion')
    b = C.bunch(rng, n=int(rng.integers(400, 900)), sx=float(rng.uniform(2e-4, 6e-4)), intensity=float(10**rng.uniform(10.8, 11.3)), offset=rng.normal(0, 1.5e-3, 2))
    # tilted and of changing size
    b.x[:] += b.z * float(rng.normal(0, 5e-3))
    b.y[:] *= 1 + np.abs(b.z) / b.sz * .3
    slc = C.slicer(rng, b, n=int(rng.integers(2, 6)), kind='cuts')
    lab = describe(cfg, kw, b)
    k = 133.32e-9 * 1e4 / (1.380649e-23 * 300.) * 1.5e-22 * C.CLIGHT
    sl, z = bins(b, slc, 1)
    tot = sum(len(ix) for ix, _ in sl) * b.particlenumber_per_mp / b.beta * k / C.CLIGHT
    cfg.sim.update(nel_mp_ref_0=tot / float(rng.uniform(1500, 4000)), N_mp_max=60000)
    ec = C.element(case, cfg, 'a', 1., slc, 1e-9, **kw)
    m = watch(case, ec, cfg, kw, 1., 1e-9, lab)
    U, V = [], []
    for t in range(2):
        m.fresh()
        m.gen = []
        for ix, dz in sl[::-1]:
            m.plan(Slice(b, ix, dz))
        ec.track(b)
        if m.bad:
            return
        for s, dt, n0, x, y, w in m.gen:
            lam = len(s.x) * b.particlenumber_per_mp / s.dz
            e = k * lam * dt
            ref = cfg.sim['nel_mp_ref_0']
            if not case.check(abs(w.sum() - e) <= 1.001 * ref, 'ionised-charge', lambda: '%s: a slice with %g charges per metre ionises %g electrons per metre, expected %g' % (lab, lam, w.sum(), e)):
                return
            case.ok('ionised', n=1)
            if len(x) and len(s.x) > 2:
                U.append((x - (s.x.mean() + m.ox)) / s.x.std())
                V.append((y - (s.y.mean() + m.oy)) / s.y.std())
    from scipy.stats import norm
    for nm, u in (('x', U), ('y', V)):
        u = np.concatenate(u) if u else np.zeros(0)
        stats.ks(case, 'ionised-place-' + nm, u, norm.cdf, '%s: %s of the ionised electrons does not follow the slices' % (lab, nm))
    case.count('ionised macroparticles', sum(map(len, U)))
    case.sample(config=lab)


def tasks(tier):
    k = 1 if tier == 'quick' else 60
    return [Task(whole, 28 * k, 'whole', min_ok=150), Task(whole, 10 * k, 'clones', clones=True, min_ok=60), Task(sliced, 18 * k, 'sliced', min_ok=60), Task(modes, 8 * k, 'modes', min_ok=15), Task(ionisation, 8 * k, 'ionisation', min_ok=20)]
