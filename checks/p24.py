"""Random electron-cloud elements for PyHEADTAIL beams (solvers on one and on several grids, trackers, emission models, gas ionisation,
whole-bunch and slice-by-slice use, long slices that do not interact, several bunches) are used in random histories: passages of different
beams, repeated passages, interleaved with those of clones that share the solver, down to alternating slices.  Every operation of a history
is repeated with an element that was built by itself from the same input and the same random numbers and that does nothing else (for the
sequences of passages: one that makes this passage only).  Beam, cloud, recorded fields and output files have to agree bit by bit.  While
one element is used, the particles and records of the others must not change."""
import copy
import os
import numpy as np
from vlib.harness import Task, Output, loadmat
from vlib import configs, coupling as C

PROP = 'P24'
LEVEL = 'runtime monitoring'
TECHNIQUE = 'differential history monitor: operations of interleaved elements and repeated passages against elements used once and alone'
NOTE = 'elements of the same tree built separately are the reference'
RULE = 'an evaluation is one operation (passage, or slice of one) compared; distinct = solver x history kind x emission model'
ASSUMPTIONS = ['the generator of numpy is the only source of randomness', 'the charge stored on insulating walls belongs to the wall, not to the cloud']

FLAGS = ('save_ele_distributions_last_track', 'save_ele_potential_and_field', 'save_ele_MP_position', 'save_ele_MP_velocity', 'save_ele_MP_size', 'save_beam_distributions_last_track', 'save_beam_potential_and_field')
RECORDS = ('rho_ele', 'phi_ele', 'Ex_ele', 'Ey_ele', 'rho_beam', 'phi_beam', 'Ex_beam', 'Ey_beam', 'x_MP', 'y_MP', 'vx_MP', 'vy_MP', 'nel_MP', 'N_MP')


TIMES = {'t', 't_hist', 't_En_hist', 't_sc_video', 't_lifetime_hist'}
COUNTERS = {'N_mp_impact_pass', 'N_mp_corrected_pass'}  # of the chamber, since it was built


def mps(ec):
    return [configs.snap(cl.MP_e) for cl in ec.cloudsim.cloud_list]


def records(ec):
    d = {}
    for r in RECORDS:
        v = getattr(ec, r + '_last_track', None)
        if v is not None:
            d[r] = [np.array(x) for x in v]
    for r in ('Ex_ele_last_track_at_probes', 'Ey_ele_last_track_at_probes'):
        v = getattr(ec, r)
        if not np.isscalar(v):
            d[r] = [np.array(x) for x in v]
    return d


def clip(d):
    """The recorded particle arrays include the unused part of the allocation."""
    if 'N_MP' in d:
        for k in ('x_MP', 'y_MP', 'vx_MP', 'vy_MP', 'nel_MP'):
            if k in d:
                d[k] = [v[:int(n)] for v, n in zip(d[k], d['N_MP'])]
    return d


def differ(a, b):
    """Names of what differs."""
    bad = []
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b:
            bad.append(k + '(missing)')
        elif isinstance(a[k], list):
            if len(a[k]) != len(b[k]):
                bad.append('%s(%d/%d)' % (k, len(a[k]), len(b[k])))
            else:
                w = [i for i, (x, y) in enumerate(zip(a[k], b[k])) if not np.array_equal(x, y, equal_nan=True)]
                if w:
                    bad.append('%s[%d of %d]' % (k, w[0], len(a[k])))
        elif not np.array_equal(np.asarray(a[k]), np.asarray(b[k]), equal_nan=np.asarray(a[k]).dtype.kind == 'f'):
            bad.append(k)
    return bad


def setup(case, files=False, slices=False, sey=None, **over):
    """Configuration and arguments of an element."""
    rng = case.rng
    src = ['edens']
    if rng.random() < .3:
        src.append('gas')
    if rng.random() < .25:
        src.append('unif')
    Dt = over.pop('Dt', None)
    if Dt is None and rng.random() < .4 and not slices:
        Dt = 1e-8   # longer than any slice
    if slices and rng.random() < .5:
        Dt = float(rng.uniform(1.5e-9, 2.5e-9))
    sey = sey or str(rng.choice(['perfect_absorber', 'ECLOUD', 'ECLOUD', 'ACC_LOW', 'furman_pivi', 'from_file', 'nunif']))
    mode = None
    if sey in ('nunif', 'charging'):
        mode = str(rng.choice(C.MODES[1:3]))
    cfg = C.config(rng, mode=mode, sey=sey, sources=src, Dt=Dt, regen=str(rng.choice(['none', 'hard', 'hard', 'soft', 'async'])) if slices else 'none', nmp=int(rng.integers(500, 1200)), **over)
    if Dt is not None and slices and rng.random() < .3:
        cfg.sim['Dt_sc'] = Dt * float(rng.uniform(.3, 1.7))
    kw = dict(x_beam_offset=float(rng.normal(0, 5e-4)) if rng.random() < .5 else 0., y_beam_offset=float(rng.normal(0, 5e-4)))
    if rng.random() < .3:
        kw['kick_mode_for_beam_field'] = True
    if rng.random() < .3:
        kw['force_interp_at_substeps_interacting_slices'] = True
    if rng.random() < .4:
        kw['probes_position'] = [dict(x=float(x), y=float(y)) for x, y in rng.normal(0, 2e-3, (3, 2))]
    cfg.Dt = Dt
    cfg.short = cfg.sey['switch_model'] if isinstance(cfg.sey['switch_model'], str) else 'ECLOUD'
    return cfg, kw


def arm(ec, flags, init=True):
    for f in flags:
        setattr(ec, f, True)
    if init:
        ec._reinitialize()


def observe(ec, beams):
    d = clip(records(ec))
    for i, s in enumerate(mps(ec)):
        d.update({'cloud%d.%s' % (i, k): v for k, v in s.items()})
    for i, b in enumerate(beams):
        d.update({'beam%d.%s' % (i, k): v for k, v in C.coords(b).items()})
    return d


def outfile(fn):
    d = loadmat(fn)
    return Output({k: v for k, v in d.items() if not k.startswith('__') and v.dtype.kind not in 'OUS'})


def size(got, ref):
    w = [np.abs(np.asarray(got[k], float) - np.asarray(ref[k], float)).max() / max(np.abs(np.asarray(ref[k], float)).max(), 1e-300) for k in ref if k.startswith('beam') and np.shape(got[k]) == np.shape(ref[k]) and np.size(ref[k])]
    return max(w) if w else 0.


def compare(case, key, got, ref, what, lab):
    bad = differ(got, ref)
    if bad:
        case.fail(key, '%s: %s: differs in %s (beam coordinates by %.1e)' % (lab, what, bad[:6], size(got, ref)))
        return False
    return True


# --- sequences of passages -----------------------------------------------------------------------------------------

@C.roomy
def passages(case, out=False):
    rng = case.rng
    cfg, kw = setup(case)
    L, Dt_ref = float(10**rng.uniform(0, 4)), float(rng.choice([25e-12, 1e-10, 1e-9]))
    b0 = C.bunch(rng)
    slc = C.slicer(rng, b0)
    flags = [f for f in FLAGS if rng.random() < .4]
    if out:
        cfg.sim['Dt'] = kw_dt = 1e-8
    f = C.folder(case, cfg, 'in')
    lab = '%s %s' % (cfg.lab, sorted(kw))

    def make(name, i=0):
        k = dict(kw)
        if out:
            k['save_pyecl_outp_as'] = case.path(name)
        e = C.element(case, cfg, name, L, slc, Dt_ref, folder=f, **k)
        arm(e, flags, init=False)
        return e
    ec = make('a')
    first = mps(ec)
    n = int(rng.integers(3, 6))
    for k in range(n):
        b = C.bunch(rng, mass=b0.mass, charge=b0.charge, gamma=b0.gamma, sz=b0.sz) if rng.random() < .7 else C.copy_bunch(b0)
        c = C.copy_bunch(b)
        seed = int(rng.integers(1, 10**6))
        C.seed(seed)
        ec.track(b)
        one = make('one%d' % k)
        same0 = all(configs.same(x, y) for x, y in zip(mps(one), first))
        if not case.check(same0, 'build', '%s: two elements built from the same input and seed start with different clouds' % lab):
            return
        C.seed(seed)
        one.track(c)
        got, ref = observe(ec, [b]), observe(one, [c])
        if not compare(case, 'passage', got, ref, 'passage %d of the element and the first passage of a new one' % k, lab):
            return
        if out:
            a, r = [outfile(x.cloudsim.cloud_list[0].pyeclsaver.filen_main_outp) for x in (ec, one)]
            if k > 0:
                case.check(ec.cloudsim.cloud_list[0].pyeclsaver.filen_main_outp.endswith('__iter%d.mat' % k), 'file-name', lab)
            # the clock goes on
            ta, tr = a['t'].ravel()[0], r['t'].ravel()[0]
            bad = []
            for q in TIMES & set(a) & set(r):
                x, y = a.pop(q).ravel() - ta, r.pop(q).ravel() - tr
                if x.shape != y.shape or (x.size and np.abs(x - y).max() > 1e-8 * abs(ta) + 1e-20):
                    bad.append(q)
            bad += [x for x in differ(a, r) if x.split('(')[0] not in COUNTERS]
            if not case.check(not bad, 'output', lambda: '%s: output file of passage %d and of a first passage differ: %s' % (lab, k, bad[:8])):
                return
            case.count('files')
        case.ok('%s|passages|%s' % (cfg.mode, cfg.short))
        case.count('slices', slc.n_slices)
        if k and not np.array_equal(C.coords(b)['xp'], C.coords(b0)['xp']):
            case.count('kicked')
    ec._reinitialize()
    case.check(all(configs.same(x, y) for x, y in zip(mps(ec), first)), 'initial', '%s: after %d passages a re-initialised element is not in its initial state' % (lab, n))
    case.sample(config=lab, n=n, particles=first[0]['N'])


# --- clones ---------------------------------------------------------------------------------------------------------

@C.roomy
def twins(case):
    """Whole bunches, random sequence over an element and its clones."""
    rng = case.rng
    sey = 'charging' if rng.random() < .2 else None
    cfg, kw = setup(case, sey=sey)
    L, Dt_ref = float(10**rng.uniform(0, 4)), float(rng.choice([25e-12, 1e-10, 1e-9]))
    b0 = C.bunch(rng)
    slc = C.slicer(rng, b0)
    f = C.folder(case, cfg, 'in')
    lab = '%s %s' % (cfg.lab, sorted(kw))
    n = int(rng.integers(2, 4))
    sh, al = clones(case, cfg, kw, L, slc, Dt_ref, f, n)
    flags = [[x for x in FLAGS if rng.random() < .3] for _ in range(n)]
    for i in range(n):
        arm(sh[i], flags[i], init=False)
        arm(al[i], flags[i], init=False)
    case.check(all(s.cloudsim.spacech_ele is sh[0].cloudsim.spacech_ele for s in sh), 'shared', '%s: clones do not share the solver' % lab)
    for k in range(int(rng.integers(5, 9))):
        i = int(rng.integers(0, n))
        b = C.bunch(rng, mass=b0.mass, charge=b0.charge, gamma=b0.gamma, sz=b0.sz)
        c = C.copy_bunch(b)
        others = {j: clip_obs(sh[j]) for j in range(n) if j != i}
        seed = int(rng.integers(1, 10**6))
        C.seed(seed)
        sh[i].track(b)
        C.seed(seed)
        al[i].track(c)
        if not compare(case, 'twin', observe(sh[i], [b]), observe(al[i], [c]), 'operation %d, on clone %d of %d, and an independent element' % (k, i, n), lab):
            return
        for j in others:
            bad = differ(clip_obs(sh[j]), others[j])
            if not case.check(not bad, 'others', lambda: '%s: passage through clone %d changes %s of clone %d' % (lab, i, bad, j)):
                return
        case.ok('%s|twins|%s' % (cfg.mode, cfg.short))
        case.count('slices', slc.n_slices)
    case.sample(config=lab, clones=n)


def clip_obs(ec):
    d = clip(records(ec))
    for i, s in enumerate(mps(ec)):
        d.update({'cloud%d.%s' % (i, k): v for k, v in s.items()})
    return d


def clones(case, cfg, kw, L, slc, Dt_ref, f, n, **more):
    """n elements sharing a solver, and the same n built by themselves."""
    sh = [C.element(case, cfg, 'a', L, slc, Dt_ref, folder=f, **kw, **more)]
    al = [C.element(case, cfg, 'b', L, slc, Dt_ref, folder=f, **kw, **more)]
    for i in range(1, n):
        s = int(case.rng.integers(1, 10**6))
        src = sh[int(case.rng.integers(0, i))]
        C.seed(s)
        sh.append(src.generate_twin_ecloud_with_shared_space_charge())
        from PyECLOUD import PyEC4PyHT
        C.seed(s)
        al.append(PyEC4PyHT.Ecloud(L, slc, Dt_ref, pyecl_input_folder=f, **kw, **more))
        case.check(all(configs.same(x, y) for x, y in zip(mps(sh[-1]), mps(al[-1]))), 'twin-initial', 'a clone starts with another cloud than an element built in the same way')
    return sh, al


def slices_of(rng, cfg, b, nb, auto, ahead=.4):
    """Slices of nb bunches from head to tail as they are handed over in slice-by-slice mode."""
    out = []
    n = int(rng.integers(3, 7))
    for ib in range(nb):
        c = C.copy_bunch(b) if rng.random() < .5 else C.bunch(rng, mass=b.mass, charge=b.charge, gamma=b.gamma, sz=b.sz)
        s = C.slicer(rng, c, n=n)
        ss = c.extract_slices(s)
        body = [x for x in ss if x.slice_info != 'unsliced'][::-1]
        for k, x in enumerate(body):
            x.slice_info['i_slice'] = k
            x.slice_info['interact_with_EC'] = True
        if rng.random() < .7:
            # a gap without interaction behind the bunch
            import PyHEADTAIL.particles.particles as P
            g = C.copy_bunch(body[-1])
            left = body[-1].slice_info['z_bin_left']
            T = float(rng.uniform(.5e-9, 8e-9))
            g.slice_info = dict(z_bin_right=left, z_bin_left=left - T * b.beta * C.CLIGHT, z_bin_center=left, i_slice=len(body), interact_with_EC=False)
            body.append(g)
        if rng.random() < ahead:
            # or ahead of it: cleaning and regeneration take place there
            g = C.copy_bunch(body[0])
            right = body[0].slice_info['z_bin_right']
            T = float(rng.uniform(.5e-9, 8e-9))
            g.slice_info = dict(z_bin_left=right, z_bin_right=right + T * b.beta * C.CLIGHT, z_bin_center=right, i_slice=0, interact_with_EC=False)
            body.insert(0, g)
            for k, x in enumerate(body):
                x.slice_info['i_slice'] = k
        if auto:
            for x in body:
                x.slice_info['info_parent_bunch'] = dict(i_bunch=ib)
        out += body
        if ss[-1].slice_info == 'unsliced' and rng.random() < .5:
            out.append(ss[-1])
    return out


@C.roomy
def interleaved(case, auto=False):
    """Slice-by-slice mode: the slices go through the clones as on a ring of processes, in random order between the elements."""
    rng = case.rng
    sey = 'charging' if rng.random() < .2 else None
    cfg, kw = setup(case, slices=True, sey=sey)
    L, Dt_ref = float(10**rng.uniform(0, 4)), float(rng.choice([25e-12, 1e-10, 1e-9]))
    b0 = C.bunch(rng, sz=float(rng.uniform(.04, .1)))
    f = C.folder(case, cfg, 'in')
    lab = '%s %s%s Dt=%s Dt_sc=%s' % (cfg.lab, sorted(kw), ' auto' if auto else '', cfg.Dt, cfg.sim['Dt_sc'])
    n = int(rng.integers(2, 4))
    sh, al = clones(case, cfg, kw, L, None, Dt_ref, f, n, slice_by_slice_mode=True)
    flags = [[x for x in FLAGS if rng.random() < .3] for _ in range(n)]
    for i in range(n):
        arm(sh[i], flags[i])
        arm(al[i], flags[i])
    train = [slices_of(rng, cfg, b0, int(rng.integers(1, 3)), auto) for _ in range(n)]
    short = cfg.Dt is not None and any(x.slice_info != 'unsliced' and x.slice_info['interact_with_EC'] and (x.slice_info['z_bin_right'] - x.slice_info['z_bin_left']) / (x.beta * C.CLIGHT) > cfg.Dt for t in train for x in t)
    if short:
        case.count('too long slices')
        return
    pos = [0] * n
    turns = [int(rng.integers(1, 3)) for _ in range(n)]
    k = 0
    while any(t > 0 for t in turns):
        i = int(rng.choice([j for j in range(n) if turns[j] > 0]))
        x = train[i][pos[i]]
        c = C.copy_bunch(x)
        c.slice_info = copy.deepcopy(x.slice_info)
        x = C.copy_bunch(x)
        x.slice_info = copy.deepcopy(c.slice_info)
        seed = int(rng.integers(1, 10**6))
        C.seed(seed)
        sh[i].track(x)
        C.seed(seed)
        al[i].track(c)
        if not compare(case, 'twin-slices', observe(sh[i], [x]), observe(al[i], [c]), 'step %d, slice %d%s on clone %d of %d, and an independent element' % (
                k, pos[i], ' (no interaction)' if x.slice_info != 'unsliced' and not x.slice_info['interact_with_EC'] else '', i, n), lab):
            return
        case.ok('%s|slices|%s' % (cfg.mode, cfg.short))
        k += 1
        pos[i] += 1
        if pos[i] == len(train[i]):
            pos[i] = 0
            turns[i] -= 1
            for e in (sh[i], al[i]):
                if not auto:
                    e.finalize_and_reinitialize()
    case.sample(config=lab, clones=n, steps=k)


@C.roomy
def turns(case, auto=False):
    """Slice-by-slice mode: every turn (of one or several bunches) is as the first one of a new element."""
    rng = case.rng
    cfg, kw = setup(case, slices=True)
    L, Dt_ref = float(10**rng.uniform(0, 4)), float(rng.choice([25e-12, 1e-10, 1e-9]))
    b0 = C.bunch(rng, sz=float(rng.uniform(.04, .1)))
    f = C.folder(case, cfg, 'in')
    lab = '%s %s%s Dt=%s Dt_sc=%s' % (cfg.lab, sorted(kw), ' auto' if auto else '', cfg.Dt, cfg.sim['Dt_sc'])
    flags = [x for x in FLAGS if rng.random() < .3]
    ec = C.element(case, cfg, 'a', L, None, Dt_ref, folder=f, slice_by_slice_mode=True, **kw)
    arm(ec, flags)
    ref0 = ec.cloudsim.cloud_list[0].MP_e.nel_mp_ref
    # a beam that leaves the sources of primary electrons out of play in time
    for t in range(int(rng.integers(2, 4))):
        tr = slices_of(rng, cfg, b0, int(rng.integers(1, 3)), auto)
        if cfg.Dt is not None and any(x.slice_info != 'unsliced' and x.slice_info['interact_with_EC'] and (x.slice_info['z_bin_right'] - x.slice_info['z_bin_left']) / (x.beta * C.CLIGHT) > cfg.Dt for x in tr):
            case.count('too long slices')
            continue
        one = C.element(case, cfg, 'one', L, None, Dt_ref, folder=f, slice_by_slice_mode=True, **kw)
        arm(one, flags)
        for k, x in enumerate(tr):
            c = C.copy_bunch(x)
            c.slice_info = copy.deepcopy(x.slice_info)
            seed = int(rng.integers(1, 10**6))
            C.seed(seed)
            ec.track(x)
            C.seed(seed)
            one.track(c)
            if ec.cloudsim.cloud_list[0].MP_e.nel_mp_ref != ref0:
                case.count('regenerated')
            if not compare(case, 'turn', observe(ec, [x]), observe(one, [c]), 'turn %d, slice %d of %d, and the same as first turn of a new element' % (t, k, len(tr)), lab):
                return
            case.ok('%s|turns|%s' % (cfg.mode, cfg.short))
        if not auto:
            ec.finalize_and_reinitialize()
    case.sample(config=lab)


@C.roomy
def memory(case):
    """Bunches of a train see the cloud left by those before: no reset between bunches, reset at the first slice of the first bunch only."""
    rng = case.rng
    cfg, kw = setup(case, slices=True, Dt=None, sey='perfect_absorber')
    L, Dt_ref = 1e3, 1e-10
    b0 = C.bunch(rng, sz=float(rng.uniform(.04, .1)))
    if cfg.Dt is not None:
        cfg.sim['Dt'] = cfg.Dt = 6e-9
    f = C.folder(case, cfg, 'in')
    lab = '%s %s Dt=%s' % (cfg.lab, sorted(kw), cfg.Dt)
    a = C.element(case, cfg, 'a', L, None, Dt_ref, folder=f, slice_by_slice_mode=True, **kw)
    m = C.element(case, cfg, 'm', L, None, Dt_ref, folder=f, slice_by_slice_mode=True, **kw)
    first = mps(a)
    tr = slices_of(rng, cfg, b0, 3, True, 0.)
    for t in range(2):
        for k, x in enumerate(tr):
            x = C.copy_bunch(x)
            x.slice_info = copy.deepcopy(tr[k].slice_info)
            c = C.copy_bunch(x)
            c.slice_info = copy.deepcopy(x.slice_info)
            c1 = c.slice_info != 'unsliced' and c.slice_info.pop('info_parent_bunch')
            if k == 0:
                # by hand
                m.finalize_and_reinitialize()
                case.check(all(configs.same(p, q) for p, q in zip(mps(m), first)), 'memory-reset', '%s: turn %d does not start from the initial cloud' % (lab, t))
            seed = int(rng.integers(1, 10**6))
            C.seed(seed)
            a.track(x)
            C.seed(seed)
            m.track(c)
            ga, gm = observe(a, [x]), observe(m, [c])
            # new passages are only known to one of them
            if not x.slice_info == 'unsliced' and not x.slice_info['interact_with_EC']:
                if any(not configs.same(p, q) for p, q in zip(mps(a), mps(m))):
                    case.count('cleaned')
                    return
            if not compare(case, 'memory', ga, gm, 'turn %d slice %d with bunch information, and re-initialised by hand' % (t, k), lab):
                return
            case.ok('%s|memory|%s' % (cfg.mode, cfg.short))
    case.sample(config=lab)


@C.roomy
def once(case):
    """track_only_first_time: later passages do nothing at all."""
    rng = case.rng
    cfg, kw = setup(case)
    b = C.bunch(rng)
    ec = C.element(case, cfg, 'a', 100., C.slicer(rng, b), 1e-10, **kw)
    ec.track_only_first_time = True
    ec.save_ele_field = True
    c0 = C.coords(b)
    ec.track(b)
    case.check(not np.array_equal(c0['xp'], b.xp), 'once-first', 'the first passage does nothing')
    for _ in range(2):
        q, o = C.coords(b), clip_obs(ec)
        s = np.random.get_state()[1].copy()
        ec.track(b)
        case.check(not differ(q, C.coords(b)) and not differ(o, clip_obs(ec)), 'once', '%s: passage changes something although only the first was asked for' % cfg.lab)
        case.ok('once')


def tasks(tier):
    k = 1 if tier == 'quick' else 50
    return [Task(passages, 16 * k, 'passages', min_ok=30), Task(passages, 6 * k, 'output', out=True, min_ok=12), Task(twins, 16 * k, 'twins', min_ok=50), Task(interleaved, 14 * k, 'interleaved', min_ok=100),
            Task(interleaved, 8 * k, 'interleaved-trains', auto=True, min_ok=60), Task(turns, 24 * k, 'turns', min_ok=80), Task(turns, 24 * k, 'turns-trains', auto=True, min_ok=30), Task(memory, 6 * k, 'memory', min_ok=30), Task(once, 4 * k, 'once', min_ok=4)]
