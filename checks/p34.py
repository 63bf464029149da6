"""Random mini-simulations (all field solvers, one to three clouds, secondary beams, electromagnetic tracking, random recomputation
interval, space charge switched on late, output file given in all usual ways, movies switched on per cloud) are run with an observer
that, whenever a recorder is called, deposits the particles of each cloud on the grid itself (area weighting in numpy) and reads the field
that acts on particles at the grid nodes.  Afterwards all movie files are read back: every folder that has to exist is there and no
other, the frames of all files of a folder together are exactly the recomputation steps up to the last completed passage, each once and in
order, in the file of its passage, and every density and field frame is that of its time stamp; the frames of the clouds add up to the
total."""
import os
import numpy as np
import scipy.io as sio
from vlib.harness import Task, loadmat
from vlib import configs, observe, restart
from vlib.simgen import QE
from checks import p18

PROP = 'P34'
LEVEL = 'runtime monitoring'
TECHNIQUE = 'runtime observer of particles and fields at each recording, compared offline with the movie files'
NOTE = 'density recomputed from the particles with numpy; field read through the interpolation used for the particles'
RULE = 'an evaluation is one movie frame compared with the observer; distinct = kind of movie x solver x configuration class'
ASSUMPTIONS = ['scipy.io.loadmat reads back what savemat wrote', 'interpolation at a grid node inside the chamber gives the value of the node (property P11)']


def deposit(x, y, w, xg, yg):
    rho = np.zeros((len(xg), len(yg)))
    if len(x) == 0:
        return rho
    hx, hy = xg[1] - xg[0], yg[1] - yg[0]
    fx, fy = (x - xg[0]) / hx, (y - yg[0]) / hy
    i, j = np.floor(fx).astype(int), np.floor(fy).astype(int)
    ok = (i >= 0) & (j >= 0) & (i < len(xg) - 1) & (j < len(yg) - 1)
    i, j, a, b, w = i[ok], j[ok], (fx - i)[ok], (fy - j)[ok], np.asarray(w)[ok]
    for di in (0, 1):
        for dj in (0, 1):
            np.add.at(rho, (i + di, j + dj), w * (a if di else 1 - a) * (b if dj else 1 - b))
    return rho / (hx * hy)


def read(folder, stem, names):
    """{number: dict} of the files of one movie."""
    out = {}
    for f in os.listdir(folder):
        if f.startswith(stem) and f.endswith('.mat'):
            d = loadmat(os.path.join(folder, f))
            out[int(f[len(stem):-4])] = {k: np.asarray(d[k]) for k in names if k in d}
    return out


def one(case, clouds=0, mode=None, **kw):
    rng = case.rng
    cfg = p18.config(rng, clouds=clouds, mode=mode, **kw)
    n = int(rng.integers(3, 6))
    cfg.beam['filling_pattern_file'] = [float(v) for v in (rng.random(n) < .7)]
    for c in cfg.clouds.values():
        c['flag_movie'] = c['flag_sc_movie'] = 0
        if rng.random() < .4:
            # empty at first, often for long
            c['init_unif_flag'] = c['init_unif_edens_flag'] = 0
            if rng.random() < .6:
                c.update(gas_ion_flag=1, P_nTorr=float(10**rng.uniform(1., 3.5)), sigma_ion_MBarn=1.5, Temp_K=300., unif_frac=.5, E_init_ion=.05, t_ion=100.)
    rho, ef = (bool(rng.random() < .8) for _ in range(2))
    if not (rho or ef):
        rho = True
    cfg.sim.update(flag_movie=int(rho), flag_sc_movie=int(ef))
    on = [rho]
    names = list(cfg.clouds)
    for c in cfg.clouds.values():
        v = bool(rng.random() < .8) if rho else False
        c['flag_movie'] = int(v)
        c['flag_sc_movie'] = int(ef and rng.random() < .5)
        on.append(v)
    how = str(rng.choice(['abs', 'abs', 'rel', 'plain', 'abs-mat']))
    top = case.path('out')
    os.makedirs(top)
    old = os.getcwd()
    fn, sub = dict(abs=(os.path.join(top, 'Pyecltest'), top), rel=('sub/Pyecltest.mat', os.path.join(top, 'sub')), plain=('Pyecltest', top))[how if how != 'abs-mat' else 'abs']
    if how == 'abs-mat':
        fn += '.mat'
    os.makedirs(sub, exist_ok=True)
    cfg.label.append('file-' + how)
    lab = cfg.lab
    os.chdir(top)
    try:
        sim = cfg.build(case, 'sim', filen_main_outp=fn)
        Dt_sc = cfg.sim.get('Dt_sc', 2e-10)
        log = [[] for _ in sim.cloud_list]
        sc = sim.spacech_ele
        xx, yy = np.meshgrid(sc.xg, sc.yg, indexing='ij')
        deep = np.zeros(xx.shape, bool)
        h = float(np.max(np.atleast_1d(sc.Dh)))
        ins = cfg.ref.inside(xx.ravel(), yy.ravel())
        far = np.zeros(xx.size)
        far[ins] = cfg.ref.dist(xx.ravel()[ins], yy.ravel()[ins])
        deep = (ins & (far > 2.5 * h)).reshape(xx.shape)
        if cfg.sim.get('PyPICmode') == 'ShortleyWeller_WithTelescopicGrids':
            # nodes of the innermost grid, where this one is in charge
            deep &= (np.abs(xx) < .45 * cfg.sim['target_grid']['x_max_target']) & (np.abs(yy) < .45 * cfg.sim['target_grid']['x_max_target'])
        last = [0.]

        def watch(ic, s):
            st = s.state
            s.rho = sim.cloud_list[ic].MP_e.charge * deposit(st['x_mp'], st['y_mp'], st['nel_mp'], sc.xg, sc.yg)
            if ic == 0:
                s.frame = True if Dt_sc is None else (s.t - last[0]) >= Dt_sc
                if s.frame:
                    last[0] = s.t
                ex, ey = (np.zeros(0), np.zeros(0)) if not deep.any() else sc.PyPICobj.gather(xx[deep], yy[deep])
                s.ef = np.array(ex, float), np.array(ey, float)
        ob = observe.Observer(sim, on_witness=watch)
        sim.run()
    finally:
        os.chdir(old)
    L = ob.log
    t_on = cfg.sim.get('t_sc_ON', 0.)
    ends = [i for i, s in enumerate(L[0]) if s.new_pass]
    steps = L[0][:ends[-1] + 1]
    want = [i for i, s in enumerate(steps) if s.frame]
    emit = [c for c in sim.cloud_list]
    expected = set()
    if on[-1]:
        expected.add('rho_video')
    if len(emit) > 1:
        expected |= {'rho_video_%s' % nm for nm, o in zip(['main'] + names, on) if o}
    if ef or any(c['flag_sc_movie'] for c in cfg.clouds.values()):
        expected.add('efield_video')
    got = {d for d in os.listdir(sub) if os.path.isdir(os.path.join(sub, d))} - {'sub'}
    if not case.check(got == expected, 'folders', lambda: '%s: movie folders %r, expected %r (output file %r)' % (lab, sorted(got), sorted(expected), fn)):
        return
    stray = {d for d, _, ff in os.walk(top) if any(f.endswith('.mat') and 'pass' in f for f in ff)} - {os.path.join(sub, d) for d in expected}
    case.check(not stray, 'stray-files', lambda: '%s: movie files in %r' % (lab, stray))
    key = '%s|%d|%s' % (cfg.sim.get('PyPICmode', 'default'), len(emit), 'em' if kw.get('em') else 'es')

    def frames(folder, stem, tn, vals):
        """Common part: time stamps, numbering; returns step index, arrays."""
        fl = read(os.path.join(sub, folder), stem, ('xg_sc', 'yg_sc', tn) + vals)
        per = [s.pass_numb for s in steps if s.new_pass]
        case.check(sorted(fl) == [p - 1 for p in per], 'passages-' + folder.split('_')[0], lambda: '%s: %s holds passages %r, expected %r' % (lab, folder, sorted(fl), [p - 1 for p in per]))
        T, A = [], [[] for _ in vals]
        for nn in sorted(fl):
            d = fl[nn]
            t = np.asarray(d[tn], float).ravel()
            if len(t) == 0:
                case.check(all(d[v].size == 0 for v in vals), 'frames-without-time', '%s: %s' % (lab, folder))
                continue
            lo, hi = nn * 2.5e-9, (nn + 1) * 2.5e-9
            case.check(bool(np.all((t > lo - 1e-10) & (t < hi + 1e-10))), 'wrong-passage', lambda: '%s: file %d of %s has frames of times %g..%g' % (lab, nn, folder, t[0], t[-1]))
            ok = True
            for v in vals:
                ok &= case.check(d[v].shape == (len(t), len(sc.xg), len(sc.yg)), 'frame-shape', lambda: '%s: %s of %s file %d has shape %r for %d times and a grid of %d x %d' % (
                    lab, v, folder, nn, d[v].shape, len(t), len(sc.xg), len(sc.yg)))
            if not ok:
                return None
            case.check(np.array_equal(np.ravel(d['xg_sc']), sc.xg) and np.array_equal(np.ravel(d['yg_sc']), sc.yg), 'grid', '%s: grid of %s' % (lab, folder))
            T.extend(t)
            for a, v in zip(A, vals):
                a.extend(d[v])
        return np.array(T), A

    def times(T, w, folder):
        return case.check(list(T) == [steps[i].t for i in w], 'frame-times', lambda: '%s: %s has %d frames (%g..%g), expected %d (%r...)' % (
            lab, folder, len(T), T[0] if len(T) else -1, T[-1] if len(T) else -1, len(w), [steps[i].t for i in w[:3]]))
    totals = [sum(L[ic][i].rho for ic in range(len(emit))) for i in range(len(steps))]
    sums = {}
    for folder in sorted(expected):
        if folder == 'efield_video':
            r = frames(folder, 'efield_pass', 't_efield_video', ('efx_video', 'efy_video'))
            if r is None or not times(r[0], want, folder):
                continue
            scale = max([np.abs(np.array(r[1])).max() if len(r[0]) else 0., 1e-300] + [max(np.abs(e).max() if e.size else 0. for e in steps[i].ef) for i in want])
            for k, i in enumerate(want):
                case.ok()
                for c in (0, 1):
                    e = np.abs(r[1][c][k][deep] - steps[i].ef[c])
                    case.check(e.size == 0 or e.max() <= 1e-9 * scale, 'field-frame', lambda: '%s: frame %d (t=%g) of component %d: %d nodes differ from the field of that step by up to %g (field up to %g)' % (
                        lab, k, steps[i].t, c, int((e > 1e-9 * scale).sum()), e.max(), np.abs(steps[i].ef[c]).max()))
            case.ok('efield|' + key)
            case.count('field-frames', len(want))
            continue
        r = frames(folder, 'rho_pass', 't_video', ('rho_video',))
        if r is None:
            continue
        if folder == 'rho_video':
            ref = totals
            w = want
        else:
            ic = (['main'] + names).index(folder[len('rho_video_'):])
            ref = [s.rho for s in L[ic][:len(steps)]]
            # the density of a single cloud is known once the space charge is on
            w = want if len(r[0]) == len(want) else [i for i in want if steps[i].t > t_on]
        if not times(r[0], w, folder):
            continue
        scale = max(np.abs(x).max() for x in totals) + 1e-300
        for k, i in enumerate(w):
            truth = ref[i] if steps[i].t > t_on else 0 * ref[i]
            e = np.abs(r[1][0][k] - truth).max()
            case.check(e <= 1e-9 * scale, 'density-frame', lambda: '%s: frame %d (t=%g) of %s differs from the density of the particles by %g (density up to %g)' % (lab, k, steps[i].t, folder, e, np.abs(truth).max()))
            if folder != 'rho_video':
                sums[i] = sums.get(i, 0) + r[1][0][k]
            case.ok()
            case.count('density-frames')
            case.count('nonzero-frames', int(np.abs(truth).max() > 0))
        case.ok('%s|%s' % ('total' if folder == 'rho_video' else 'cloud', key))
    case.sample(config=lab, folders=sorted(expected), frames=len(want), steps=len(steps))


def tasks(tier):
    q = tier == 'quick'
    out = [Task(one, 4 if q else 60, name='single', min_ok=100), Task(one, 6 if q else 80, name='clouds2', clouds=1, min_ok=100), Task(one, 2 if q else 30, name='clouds3', clouds=2, min_ok=50),
           Task(one, 2 if q else 20, name='em', em=True, min_ok=30), Task(one, 1 if q else 10, name='em2', em=True, clouds=1, min_ok=20)]
    for m in ('FiniteDifferences_ShortleyWeller', 'FiniteDifferences_Staircase', 'ShortleyWeller_WithTelescopicGrids', 'FFT_PEC_Boundary', 'FFT_OpenBoundary'):
        out.append(Task(one, 2 if q else 20, name='solver-' + m, mode=m, min_ok=30))
    return out
