"""Random simulations of two to four clouds whose clouds have parameters of their own of every kind (species, emission model and its
parameters, sources, sub-steps, particle management, histograms).  The random numbers that each cloud uses are taken from a stream of its
own, so that runs of different sets of clouds can be compared bit by bit: (1) without space charge every cloud of the simulation, and its
output file, has to be what a simulation of this cloud alone (as the only one, with its parameters as main parameters) gives; (2) with
space charge, a cloud that is empty or whose particles carry no (or a negligible) number of charges, inserted anywhere in the list, changes
nothing for the others; (3) any order of the clouds, also of the first one, gives the same up to rounding; (4) two clouds of one species
are together the same as one cloud with all their particles.  (5) In running simulations with space charge every cloud is seen to move,
step by step, with its configured charge and mass in the field that an independent deposition of all clouds and a separate field solver
give, plus those of all beams; the density of each cloud is that of its own particles."""
import copy
import os
import numpy as np
import scipy.io as sio
from vlib.harness import Task
from vlib import configs, simgen, chambers
from vlib.simgen import QE, ME, DROP, SIM, MACH, SEY, merge
from checks import p18
from checks.p10 import rotate
from checks.p11 import FakeMP
from checks.p34 import deposit

PROP = 'P29'
LEVEL = 'runtime monitoring'
TECHNIQUE = 'differential trace monitor of runs with different sets of clouds (per-cloud random streams) and a monitor of density, field and motion of each cloud'
NOTE = 'runs of the same tree are each other\'s reference; fields from numpy deposits and a separate PyPIC solver'
RULE = 'an evaluation is one step of one cloud compared; distinct = comparison x emission models x number of clouds'
ASSUMPTIONS = ['the generator of numpy is the only source of randomness', 'a single cloud is simulated correctly (other properties)']

M_H2O = 18 * 1.66053907e-27


class Streams:
    """Gives each cloud random numbers of its own."""

    def __init__(self, sim, seeds):
        self.state = {}
        for cl in sim.cloud_list:
            keep = np.random.get_state()
            np.random.seed(seeds[cl.name])
            self.state[cl.name] = np.random.get_state()
            np.random.set_state(keep)
            self.hook(cl, cl.impact_man, 'backtrack_and_second_emiss')
            for o in (cl.resgasion, cl.phemiss):
                if o is not None:
                    self.hook(cl, o, 'generate')
            for f in ('check_for_regeneration', 'check_for_soft_regeneration', 'check_for_async_regeneration', 'clean_small_MPs'):
                if hasattr(cl.MP_e, f):
                    self.hook(cl, cl.MP_e, f)
        self.outside = self.key()

    @staticmethod
    def key():
        s = np.random.get_state()
        return s[1].tobytes(), s[2]

    def hook(self, cl, obj, name):
        f = getattr(obj, name)
        me = cl.name

        def g(*a, **k):
            keep = np.random.get_state()
            np.random.set_state(self.state[me])
            try:
                return f(*a, **k)
            finally:
                self.state[me] = np.random.get_state()
                np.random.set_state(keep)
        setattr(obj, name, g)


def cloud_params(rng, cfg, light=None, absorber=False):
    """Own parameters for an additional cloud."""
    d = dict(simgen.CLOUD_ION)
    electron = bool(rng.random() < .6) if light is None else light
    if electron:
        d.update(cloud_mass=ME, cloud_charge=-QE)
    else:
        d.update(cloud_mass=float(rng.choice([2., 18., 28.]) * 1.66e-27), cloud_charge=float(QE * rng.choice([1, 1, -1, 2])))
    d.update(Nel_init_unif=float(10**rng.uniform(7.3, 8.3)), E_init_unif=float(rng.uniform(1, 200)))
    own = configs.Config()
    own.ref, own.chamber = cfg.ref, copy.deepcopy(cfg.chamber)
    if not absorber:
        kinds = ['ECLOUD', 'ACC_LOW', 'cos_low_ene', 'flat_low_ene', 'from_file', 'furman_pivi', 'perfect_absorber']
        if cfg.chamber is not None and 'del_max_segments' in cfg.chamber:
            kinds += ['nunif']
        k = str(rng.choice(kinds))
        if k == 'nunif':
            own.sey.update(switch_model='ECLOUD_nunif', del_max=float(rng.uniform(1.2, 2.4)), R0=float(rng.uniform(.4, 1.)), Emax=float(rng.uniform(200, 400)), s_param=None)
        else:
            configs.set_sey(own, rng, k)
        if k == 'from_file':
            n = 'sey%d.mat' % rng.integers(10**6)
            cfg.files[n] = own.files['sey.mat']
            own.sey['sey_file'] = n
        own.sey.setdefault('s_param', None)
        own.sey.setdefault('E0', None)
        own.sey['scrub_en_th'] = float(rng.uniform(5, 50))
        own.label = [k]
    src = []
    if not absorber:
        if rng.random() < .5:
            src.append('gas')
        if rng.random() < .3 and cfg.mach.get('chamb_type') != 'polyg':
            src.append('phem')
    src.append('unif')
    lab = list(own.label)
    configs.set_sources(own, rng, src)
    d.update(own.sey)
    d.update({k: v for k, v in own.mach.items() if k not in ('chamb_type', 'x_aper', 'y_aper')})
    if absorber:
        d['switch_model'] = 'perfect_absorber'
    if rng.random() < .5:
        d['N_sub_steps'] = int(rng.integers(1, 5))
    if rng.random() < .5:
        d['t_ion'] = float(rng.choice([100., 2e-9, 4e-9]))
    if rng.random() < .6:
        d['nel_mp_ref_0'] = float(10**rng.uniform(4.3, 5.3))
    if rng.random() < .5 and not absorber:
        d.update(copy.deepcopy(p18.LOW_REGEN[int(rng.integers(0, len(p18.LOW_REGEN)))]))
    if rng.random() < .4:
        d.update(fact_clean=float(rng.choice([0., 1e-6, 1e-3])), fact_split=float(rng.uniform(1.2, 3)))
    if rng.random() < .4:
        d.update(Dx_hist=float(rng.uniform(.5e-3, 2e-3)), r_center=float(rng.uniform(.5e-3, 3e-3)), Nbin_En_hist=int(rng.integers(5, 60)), En_hist_max=float(rng.uniform(100, 3000)), Dt_En_hist=float(rng.choice([2.5e-9, 1e-9])))
    if rng.random() < .3:
        d.update(flag_cos_angle_hist=True, cos_angle_width=.1)
    if rng.random() < .3:
        d.update(flag_lifetime_hist=True, Nbin_lifetime_hist=10, lifetime_hist_max=1e-8, Dt_lifetime_hist=1e-9)
    if rng.random() < .3:
        d['flag_hist_impact_seg'] = 1
    return d, (lab[0] if lab else 'absorber')


def config(rng, n, absorber=False, sc=True):
    sey = None
    if absorber:
        sey = 'perfect_absorber'
    elif rng.random() < .2:
        sey = str(rng.choice(['nunif', 'charging']))
    cfg = configs.random(rng, clouds=0, sey=sey, regen='none', tracker=str(rng.choice(['Boris', 'Boris', 'BorisMultipole', 'Boris_quad', 'Boris_none'])), sources=['unif'] if absorber else None)
    if not absorber:
        cfg.sim.update(copy.deepcopy(p18.LOW_REGEN[int(rng.integers(0, len(p18.LOW_REGEN)))]))
    labs = [cfg.sey['switch_model']]
    for i in range(n - 1):
        d, l = cloud_params(rng, cfg, absorber=absorber)
        cfg.clouds['cl%d' % i] = d
        labs.append(l)
    cfg.sim['cloud_name'] = 'main'
    cfg.sim['N_sub_steps'] = DROP
    cfg.sim['Dt_sc'] = float(rng.choice([2e-10, 1e-10, 5e-10]))
    if rng.random() < .2:
        cfg.sim['Dt_sc'] = None
    if not sc:
        cfg.sim['t_sc_ON'] = 1.
    if rng.random() < .3:
        cfg.sec_beams = [dict(fact_beam=float(10**rng.uniform(10, 11)), t_offs=float(rng.uniform(.5e-9, 2e-9)))]
    cfg.sim.pop('N_sub_steps')
    cfg.label.append('%dclouds' % n)
    cfg.short = '/'.join(sorted(str(v) for v in labs))
    return cfg


def merged(cfg, name):
    """All parameters that apply to a cloud, by file."""
    c = copy.deepcopy(cfg)
    if name != 'main':
        d = c.clouds[name]
        for k, v in d.items():
            for g, base in ((c.mach, MACH), (c.sey, SEY), (c.sim, SIM)):
                if k in g or k in base:
                    g[k] = v
                    break
            else:
                c.sim[k] = v
    c.sim['cloud_name'] = name
    return c


def alone(cfg, name):
    c = merged(cfg, name)
    c.clouds = {}
    return c


KEYS = set()


def spec():
    if not KEYS:
        from PyECLOUD.default_input_parameters import parameters_dict as P
        p = P['additional_cloud_parameters']
        KEYS.update(p['mandatory'], p['optional'])
        DEF.update({k: v for f in ('simulation_parameters', 'machine_parameters', 'secondary_emission_parameters') for k, v in P[f]['optional'].items()})
    return KEYS


DEF = {}


def reorder(cfg, names):
    """The same clouds in the given order (the first becomes the main one)."""
    spec()
    c = merged(cfg, names[0])
    c.clouds = {}
    for n in names[1:]:
        m = merged(cfg, n)
        d = dict(DEF)
        for part in (merge(SIM, m.sim), merge(MACH, m.mach), merge(SEY, m.sey)):
            d.update({k: v for k, v in part.items() if v is not DROP})
        d.setdefault('cloud_mass', ME)
        d.setdefault('cloud_charge', -QE)
        c.clouds[n] = {k: v for k, v in d.items() if k in KEYS and k not in ('logfile_path', 'progress_path')}
    return c


def start(case, cfg, name, initial, seeds, prepare=None):
    """Builds the simulation, imposes the initial particles given (or stores them) and separates the random numbers."""
    os.makedirs(case.path(name + '-out'))
    sim = cfg.build(case, name, filen_main_outp=case.path(name + '-out', 'Pyecltest.mat'))
    for cl in sim.cloud_list:
        if prepare is not None:
            prepare(cl)
        if cl.name in initial:
            s, MP = initial[cl.name], cl.MP_e
            n = s['N']
            MP.N_mp = n
            for k in configs.ATTRS + ('t_last_impact',):
                if k in s:
                    getattr(MP, k)[:n] = s[k]
        else:
            initial[cl.name] = configs.snap(cl.MP_e)
        seeds.setdefault(cl.name, 1000 + len(seeds))
    st = Streams(sim, seeds)
    log = {cl.name: [] for cl in sim.cloud_list}

    def after(s):
        for cl in s.cloud_list:
            d = configs.snap(cl.MP_e)
            q = getattr(cl.impact_man.sey_mod, 'Q_segments', None)
            if q is not None:
                d['Q'] = np.array(q, float)
            d['t'] = float(s.beamtim.tt_curr)
            log[cl.name].append(d)
    configs.on_step(sim, after)
    sim.run()
    st.isolated = st.key() == st.outside
    return sim, st, log


def equal(a, b):
    return set(a) == set(b) and all(np.array_equal(a[k], b[k], equal_nan=True) for k in a)


def near(a, b, tol):
    """Largest difference relative to the size of the quantity, None if not comparable."""
    if set(a) != set(b) or a['N'] != b['N']:
        return None
    w = 0.
    for k in a:
        x, y = np.asarray(a[k], float), np.asarray(b[k], float)
        if x.size:
            w = max(w, float(np.abs(x - y).max() / max(np.abs(y).max(), 1e-300)))
    return w


def logs(case, A, B, name, lab, key, what, tol=0.):
    """B against A."""
    if not case.check(len(A) == len(B) and len(A) > 0, key + '-steps', '%s: %s: %d and %d steps' % (lab, what, len(A), len(B))):
        return False
    for k, (a, b) in enumerate(zip(A, B)):
        if tol:
            w = near(a, b, tol)
            good = w is not None and w <= tol
        else:
            good = equal(a, b)
        if not good:
            bad = [x for x in a if x not in b or not np.array_equal(a[x], b[x], equal_nan=True)]
            case.fail(key, '%s: cloud %s at step %d (t=%g): %s: N %d and %d, differs in %s%s' % (lab, name, k, a['t'], what, a['N'], b['N'], bad, (', by %s' % w) if tol else ''))
            return False
        case.ok()
    return True


# the two counters belong to the chamber, not to a cloud (the reference comparison of the repository treats them so)
SKIP = {'__header__', '__version__', '__globals__', 'N_mp_impact_pass', 'N_mp_corrected_pass'}


def files(case, f1, f2, lab, name):
    a, b = sio.loadmat(f1), sio.loadmat(f2)
    bad = []
    for k in sorted((set(a) | set(b)) - SKIP):
        if k not in a or k not in b:
            bad.append(k + ' only in the file of the run ' + ('with others' if k in a else 'alone'))
        elif a[k].dtype.kind in 'OUS':
            if str(a[k]) != str(b[k]):
                bad.append(k)
        elif not np.array_equal(a[k], b[k], equal_nan=a[k].dtype.kind in 'fc'):
            bad.append(k)
    return bad


def out(cl):
    return cl.pyeclsaver.filen_main_outp


def separate(case, nc=2):
    rng = case.rng
    n = nc
    cfg = config(rng, n, sc=False)
    lab = cfg.lab + ' ' + cfg.short
    init, seeds = {}, {}
    sim, st, log = start(case, cfg, 'all', init, seeds)
    outs = {cl.name: out(cl) for cl in sim.cloud_list}
    case.check(len(outs) == n and list(outs) == ['main'] + list(cfg.clouds), 'clouds-present', '%s: clouds %r' % (lab, list(outs)))
    for name in list(outs):
        i2, s2 = {name: init[name]}, {name: seeds[name]}
        c = alone(cfg, name)
        MP = sim.cloud_list[list(outs).index(name)].MP_e
        m = {**merge(SIM, c.sim), **merge(MACH, c.mach), **merge(SEY, c.sey)}
        q0, m0 = m.get('cloud_charge', -QE), m.get('cloud_mass', ME)
        case.check(abs(MP.charge - q0) <= 1e-7 * QE and abs(MP.mass - m0) <= 1e-6 * m0, 'species', '%s: cloud %s has charge %r and mass %r, configured %r and %r' % (lab, name, MP.charge, MP.mass, q0, m0))
        first = {}

        def prep(cl):
            first['N'], first['ref'], first['Q'] = int(cl.MP_e.N_mp), float(cl.MP_e.nel_mp_ref), float(cl.MP_e.nel_mp[:cl.MP_e.N_mp].sum())
        sim1, st1, log1 = start(case, c, 'alone-' + name, i2, s2, prep)
        case.check(abs(first['N'] - init[name]['N']) <= 4 and abs(first['Q'] - init[name]['nel_mp'].sum()) <= 4.001 * init[name]['nel_mp_ref'] and first['ref'] == init[name]['nel_mp_ref'], 'initial', '%s: cloud %s starts with %d macroparticles of %g charges, alone with %d of %g' % (
            lab, name, init[name]['N'], init[name]['nel_mp'].sum(), first['N'], first['Q']))
        if not (st.isolated and st1.isolated):
            case.count('not separable')
            continue
        if logs(case, log1[name], log[name], name, lab, 'separate', 'alone and together (no space charge) differ'):
            case.ok('separate|%s|%d' % (cfg.short, n))
            bad = files(case, outs[name], out(sim1.cloud_list[0]), lab, name)
            case.check(not bad, 'output', lambda: '%s: output of cloud %s in the run of all clouds and alone differ: %s' % (lab, name, bad[:8]))
            case.count('files compared')
        case.count('steps', len(log1[name]))
    case.sample(config=lab, particles=[d[-1]['N'] for d in log.values()])


def ghost(case, nc=2, kind='empty'):
    rng = case.rng
    n = nc
    cfg = config(rng, n)
    lab = '%s %s %s' % (cfg.lab, cfg.short, kind)
    init, seeds = {}, {}
    sim, st, log = start(case, cfg, 'without', init, seeds)
    d, l = cloud_params(rng, cfg, absorber=kind == 'zero')
    d.update(gas_ion_flag=0, photoem_flag=0, init_unif_edens_flag=0)
    if kind == 'empty':
        d['init_unif_flag'] = 0
    if kind != 'empty':
        # nothing is regenerated from particles of which all have no charge
        d.update(N_mp_regen=10**6, N_mp_soft_regen=None, N_mp_after_soft_regen=None, N_mp_async_regen=None, N_mp_after_async_regen=None, nel_mp_ref_0=1e5, N_mp_regen_low=0)
    if kind == 'tiny':
        d['fact_clean'] = 0.
    c = copy.deepcopy(cfg)
    names = list(c.clouds)
    k = int(rng.integers(0, len(names) + 1))
    c.clouds = {x: (d if x == 'ghost' else cfg.clouds[x]) for x in names[:k] + ['ghost'] + names[k:]}
    if rng.random() < .5 and kind != 'tiny':
        c = reorder(c, ['ghost', 'main'] + names)
        lab += ' first'

    def prep(cl):
        if cl.name == 'ghost' and kind != 'empty':
            cl.MP_e.nel_mp[:cl.MP_e.N_mp] *= 0. if kind == 'zero' else 1e-120
    sim2, st2, log2 = start(case, c, 'with', init, seeds, prep)
    case.count('ghost particles', log2['ghost'][0]['N'])
    if not (st.isolated and st2.isolated):
        case.count('not separable')
        return
    ok = all([logs(case, log[x], log2[x], x, lab, 'ghost', 'differs in the presence of a cloud without charge') for x in log])
    if ok:
        case.ok('ghost-%s|%s' % (kind, cfg.short))
    case.sample(config=lab)


def order(case, nc=3):
    rng = case.rng
    n = nc
    cfg = config(rng, n)
    lab = '%s %s' % (cfg.lab, cfg.short)
    init, seeds = {}, {}
    sim, st, log = start(case, cfg, 'a', init, seeds)
    names = list(log)
    while True:
        p = [str(v) for v in rng.permutation(names)]
        if p != names:
            break
    sim2, st2, log2 = start(case, reorder(cfg, p), 'b', init, seeds)
    if not (st.isolated and st2.isolated):
        case.count('not separable')
        return
    # rounding grows: compare the first steps tightly, and stop there
    m = min(len(log['main']), 25)
    ok = all([logs(case, log[x][:m], log2[x][:m], x, lab + ' ' + '<'.join(p), 'order', 'differs with another order of the clouds', tol=1e-6) for x in names])
    if ok:
        case.ok('order|%s' % cfg.short)
    case.sample(config=lab, order=p)


def split(case, nc=2):
    rng = case.rng
    n = nc
    cfg = config(rng, n, absorber=True)
    lab = cfg.lab
    cfg.sim['N_mp_regen'] = 10**6
    for c in cfg.clouds.values():
        c['N_mp_regen'] = 10**6
    init, seeds = {}, {}
    sim, st, log = start(case, cfg, 'one', init, seeds)
    # split a cloud
    names = list(log)
    x = str(rng.choice(names))
    s = init[x]
    c2 = copy.deepcopy(cfg)
    d = reorder(cfg, ['main'] + [y for y in names if y != 'main']).clouds.get(x) if x != 'main' else reorder(cfg, [names[1], 'main']).clouds['main']
    c2.clouds = dict(cfg.clouds)
    c2.clouds['half'] = d
    sel = rng.random(s['N']) < rng.uniform(.1, .9)
    arr = [k for k in s if isinstance(s[k], np.ndarray)]
    i2 = dict(init)
    i2[x] = {k: (s[k][sel] if k in arr else s[k]) for k in s}
    i2[x]['N'] = int(sel.sum())
    i2['half'] = {k: (s[k][~sel] if k in arr else s[k]) for k in s}
    i2['half']['N'] = int((~sel).sum())
    sim2, st2, log2 = start(case, c2, 'two', i2, seeds)
    m = min(len(log[x]), 25)
    for k in range(m):
        a = log[x][k]
        b1, b2 = log2[x][k], log2['half'][k]
        A = np.array([a[q] for q in configs.ATTRS])
        B = np.concatenate((np.array([b1[q] for q in configs.ATTRS]), np.array([b2[q] for q in configs.ATTRS])), axis=1)
        if not case.check(A.shape == B.shape, 'split-number', lambda: '%s: cloud %s: %d particles, %d as two clouds at step %d' % (lab, x, A.shape[1], B.shape[1], k)):
            return
        if A.shape[1] == 0:
            continue
        # as sets of values of each quantity
        sc = np.abs(A).max(1) + 1e-300
        w = np.abs(np.sort(A, 1) - np.sort(B, 1)).max(1) / sc
        if not case.check(bool(w.max() <= 1e-6), 'split', lambda: '%s: cloud %s and the same particles as two clouds differ by %r at step %d' % (lab, x, w.tolist(), k)):
            return
        case.ok()
    for y in names:
        if y != x and not logs(case, log[y][:m], log2[y][:m], y, lab, 'split-others', 'differs when another cloud is given as two', tol=1e-6):
            return
    case.ok('split|%d' % n)
    case.sample(config=lab, cloud=x, particles=[i2[x]['N'], i2['half']['N']])


# the field and motion of every cloud

def moved(case, nc=2, mode=None):
    rng = case.rng
    n = nc
    cfg = config(rng, n)
    mode = 'FiniteDifferences_ShortleyWeller' if rng.random() < .7 else 'FiniteDifferences_Staircase'
    cfg.sim['PyPICmode'] = mode
    cfg.mach.pop('fact_Bmap', None)
    configs.set_tracker(cfg, rng, 'Boris')
    lab = '%s %s' % (cfg.lab, cfg.short)
    sim = cfg.build(case, 'sim')
    from checks.p33 import solver
    sc = sim.spacech_ele
    pic = solver(sc, sim.cloud_list[0].impact_man.chamb, mode)
    names = ['main'] + list(cfg.clouds)
    par = []
    for nm in names:
        c = merged(cfg, nm)
        m = {**merge(SIM, c.sim), **merge(MACH, c.mach), **merge(SEY, c.sey)}
        par.append((m.get('cloud_charge', -QE), m.get('cloud_mass', ME), int(m.get('N_sub_steps') or 1)))
    Dt = float(cfg.sim['Dt'])
    B0 = np.array([float(cfg.mach[k]) for k in ('B0x', 'B0y', 'B0z')])
    st = dict(last=0., n=0)
    expect = {}
    Dt_sc = cfg.sim['Dt_sc']
    pic.solve(rho=np.zeros((len(sc.xg), len(sc.yg))), flag_verbose=False)

    def before(s):
        expect.clear()
        for i, cl in enumerate(s.cloud_list):
            MP = cl.MP_e
            k = int(MP.N_mp)
            if not k:
                continue
            q, m, ns = par[i]
            r, v = np.array([MP.x_mp[:k], MP.y_mp[:k], MP.z_mp[:k]]), np.array([MP.vx_mp[:k], MP.vy_mp[:k], MP.vz_mp[:k]])
            E = np.zeros((3, k))
            E[0], E[1] = pic.gather(r[0], r[1])
            for b in [s.beamtim] + list(s.sec_beams_list):
                ex, ey = b.get_beam_eletric_field(FakeMP(r[0], r[1], np.ones(k)))
                E[0] += ex
                E[1] += ey
            d = Dt / ns
            a = np.sqrt((B0**2).sum())
            u = (B0 / a if a else B0)[:, None] + np.zeros((3, k))
            R, V = r, v
            for _ in range(ns):
                V = V + .5 * q / m * d * E
                V = rotate(V, u, -2 * np.arctan(.5 * q / m * d * a))
                V = V + .5 * q / m * d * E
                R = R + V * d
            expect[i] = (r, R, V)

    def hook(i, cl):
        f = cl.impact_man.backtrack_and_second_emiss

        def g(old, MP, *a, **kk):
            if i in expect and MP.N_mp:
                r, R, V = expect[i]
                k = int(MP.N_mp)
                if case.check(k == R.shape[1], 'motion-number', '%s: cloud %d' % (lab, i)):
                    gR, gV = np.array([MP.x_mp[:k], MP.y_mp[:k], MP.z_mp[:k]]), np.array([MP.vx_mp[:k], MP.vy_mp[:k], MP.vz_mp[:k]])
                    w = max(np.abs(gR - R).max() / (np.abs(R - r).max() + 1e-15), np.abs(gV - V).max() / (np.abs(V).max() + 1e-9))
                    if case.check(w <= 1e-6, 'motion', lambda: '%s: cloud %s (charge %r, mass %r, %d sub-steps) moves differently by %g of the motion at t=%g' % (lab, names[i], *par[i], w, sim.beamtim.tt_curr)):
                        case.ok('motion|%s|%d' % ('e' if par[i][1] < 2e-30 else 'ion', n))
                    else:
                        raise StopIteration
            return f(old, MP, *a, **kk)
        cl.impact_man.backtrack_and_second_emiss = g
    for i, cl in enumerate(sim.cloud_list):
        hook(i, cl)

    w0 = sim.cloud_list[0].pyeclsaver.witness

    def witness(*a, **k):
        t = float(sim.beamtim.tt_curr)
        each = []
        for i, cl in enumerate(sim.cloud_list):
            MP = cl.MP_e
            each.append(par[i][0] * deposit(MP.x_mp[:MP.N_mp], MP.y_mp[:MP.N_mp], MP.nel_mp[:MP.N_mp], sc.xg, sc.yg))
        tot = sum(each)
        d = t - st['last']
        now = np.array(sc.rho)
        due = Dt_sc is None or d > Dt_sc * (1 + 1e-9) or (abs(d - Dt_sc) <= 1e-9 * Dt_sc and np.abs(now - tot).max() <= 1e-9 * np.abs(tot).max())
        if due:
            st['last'] = t
            if t > 0:
                big = max(np.abs(e).max() for e in each) + 1e-300
                case.check(np.abs(now - tot).max() <= 1e-9 * big, 'density-total', lambda: '%s: total density at t=%g is off by %g of %g' % (lab, t, np.abs(now - tot).max(), big))
                for i, cl in enumerate(sim.cloud_list):
                    e = np.abs(cl.rho - each[i]).max()
                    if case.check(e <= 1e-9 * big, 'density', lambda: '%s: density of cloud %s at t=%g is off by %g of %g' % (lab, names[i], t, e, big)):
                        case.ok('density|%d' % n)
                s = sum(np.asarray(cl.rho) for cl in sim.cloud_list)
                case.check(np.abs(s - now).max() <= 1e-9 * big, 'density-sum', lambda: '%s: the densities of the clouds do not add up to the total at t=%g' % (lab, t))
                pic.solve(rho=np.array(tot), flag_verbose=False)
        return w0(*a, **k)
    sim.cloud_list[0].pyeclsaver.witness = witness
    configs.on_step(sim, lambda s: None, before)
    try:
        sim.run()
    except StopIteration:
        pass
    case.sample(config=lab, clouds=[dict(charge=p[0], mass=p[1], substeps=p[2]) for p in par])


def tasks(tier):
    k = 1 if tier == 'quick' else 15
    return [Task(separate, 8 * k, 'separate2', nc=2, min_ok=200), Task(separate, 6 * k, 'separate3', nc=3, min_ok=200), Task(separate, 2 * k, 'separate4', nc=4, min_ok=50),
            Task(ghost, 4 * k, 'empty', nc=2, kind='empty', min_ok=60), Task(ghost, 5 * k, 'zero', nc=2, kind='zero', min_ok=60), Task(ghost, 4 * k, 'tiny', nc=2, kind='tiny', min_ok=60), Task(ghost, 4 * k, 'zero1', nc=1, kind='zero', min_ok=40),
            Task(order, 6 * k, 'order', nc=3, min_ok=60), Task(order, 4 * k, 'order2', nc=2, min_ok=60), Task(split, 6 * k, 'split', nc=2, min_ok=60), Task(split, 4 * k, 'split3', nc=3, min_ok=40),
            Task(moved, 8 * k, 'moved', nc=2, min_ok=200), Task(moved, 6 * k, 'moved3', nc=3, min_ok=200)]
