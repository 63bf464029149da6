"""Random but valid simulation configurations (every one a plain set of input files)."""
import numpy as np
from . import simgen, chambers
from .simgen import DROP, QE, ME
from .geomref import PolyRef, EllipRef

M_H2O = 18 * 1.66053907e-27


def fp_surface(rng=None, **over):
    d = dict(use_modified_sigmaE=False, use_ECLOUD_theta0_dependence=False, use_ECLOUD_energy=False, conserve_energy=False,
             exclude_rediffused=False, choice='poisson', M_cut=10,
             p_n=[2.5, 3.3, 2.5, 2.5, 2.8, 1.3, 1.5, 1.5, 1.5, 1.5], eps_n=[1.5, 1.75, 1., 3.75, 8.5, 11.5, 2.5, 3., 2.5, 3.],
             p1EInf=0.02, p1Ehat=0.496, eEHat=0., w=60.86, p=1., e1=0.26, e2=2., sigmaE=2., theta_e_max=89.99 * np.pi / 180,
             p1RInf=0.2, eR=0.041, r=0.104, q=0.5, r1=0.26, r2=2., theta_r_max=89.99 * np.pi / 180,
             deltaTSHat=1.8848, eHat0=276.8, s=1.54, t1=0.66, t2=0.8, t3=0.7, t4=1.)
    d.update(over)
    return d


def sey_table(rng):
    e = np.arange(0., 2001., 1.)
    x = e / rng.uniform(200, 400)
    s = 1.35
    true = rng.uniform(.8, 2.) * s * x / (s - 1 + x**s)
    el = rng.uniform(.2, .8) * np.exp(-e / rng.uniform(20, 80))
    return dict(energy_eV=e, sey_true=true, sey_elast=el, extrapolate_grad_true=-1e-5, extrapolate_const_true=float(true[-1] + 1e-5 * e[-1]),
                extrapolate_grad_elast=0., extrapolate_const_elast=float(el[-1]))


TRACKERS = ('Boris', 'BorisMultipole', 'StrongBdip', 'StrongBgen', 'Boris_quad', 'Boris_none')
CHAMBERS = ('rect', 'ellip', 'convex', 'nonconvex')
SEYS = ('ECLOUD', 'ACC_LOW', 'cos_low_ene', 'flat_low_ene', 'from_file', 'furman_pivi', 'perfect_absorber', 'nunif', 'charging')


class Config:
    """over: arguments for simgen.write_inputs; ref: reference chamber; files: callables(folder) that add files."""

    def __init__(self):
        self.sim, self.mach, self.sey, self.beam = {}, {}, {}, {}
        self.sec_beams, self.clouds, self.chamber = [], {}, None
        self.files = {}
        self.label = []
        self.ref = None

    def write(self, folder):
        import scipy.io as sio
        simgen.write_inputs(folder, sim=self.sim, mach=self.mach, sey=self.sey, beam=self.beam, sec_beams=self.sec_beams,
                            clouds=self.clouds, chamber=self.chamber)
        import os
        for name, d in self.files.items():
            sio.savemat(os.path.join(folder, name), d, oned_as='row')
        return folder

    def build(self, case, name='sim', reseed=True, **kw):
        import os
        folder = case.path(name)
        if not os.path.isdir(folder):
            self.write(folder)
        kw.setdefault('filen_main_outp', os.path.join(folder, 'Pyecltest.mat'))
        if reseed:
            case.reseed()
        return simgen.build(folder, **kw)

    @property
    def lab(self):
        return '+'.join(self.label)


def set_chamber(cfg, rng, kind):
    from .geomref import PolyRef, EllipRef
    cfg.label.append(kind)
    if kind == 'rect':
        a, b = (2.2e-2, 1.8e-2) if rng.random() < .3 else rng.uniform(1.2e-2, 2.5e-2, 2)
        cfg.mach.update(chamb_type='rect', x_aper=float(a), y_aper=float(b))
        cfg.ref = PolyRef([a, -a, -a, a], [b, b, -b, -b])
    elif kind == 'ellip':
        a, b = rng.uniform(1.2e-2, 2.5e-2, 2)
        cfg.mach.update(chamb_type='ellip', x_aper=float(a), y_aper=float(b))
        cfg.ref = EllipRef(a, b)
    else:
        while True:
            Vx, Vy, lab = chambers.polygon(rng, kind == 'convex')
            ref = PolyRef(Vx, Vy)
            s = 2.2e-2 / ref.scale
            Vx, Vy = Vx * s, Vy * s
            ref = PolyRef(Vx, Vy)
            # beam near the axis: the origin must be well inside
            if ref.area > 0 and ref.inside([0.], [0.])[0] and ref.dist([0.], [0.])[0] > 5e-3 and (kind == 'convex' or not ref.convex()):
                break
        cfg.chamber = simgen.poly_dict(Vx, Vy)
        cfg.mach.update(chamb_type='polyg', x_aper=DROP, y_aper=DROP)
        if kind == 'nonconvex':
            cfg.mach['flag_assume_convex'] = False
        cfg.ref = ref
        cfg.label[-1] += '-' + lab
    return cfg


def set_tracker(cfg, rng, kind):
    cfg.label.append(kind)
    m = cfg.mach
    for k in ('N_sub_steps', 'B0x', 'B0y', 'B0z', 'B_map_file'):
        m[k] = DROP
    if kind in ('Boris', 'Boris_quad', 'Boris_none'):
        m.update(track_method='Boris', N_sub_steps=int(rng.integers(1, 6)), B0x=0., B0y=0., B0z=0., B_map_file=None, fact_Bmap=1.)
        if kind == 'Boris':
            m.update(B0x=float(rng.normal(0, .02)), B0y=float(rng.normal(0, .05)), B0z=float(rng.normal(0, .01)))
        elif kind == 'Boris_quad':
            m.update(B_map_file='analytic_qaudrupole_unit_grad', fact_Bmap=float(rng.uniform(.5, 12)))
    elif kind == 'BorisMultipole':
        n = int(rng.integers(1, 5))
        scale = [.05, 5., 100., 1e4]
        m.update(track_method='BorisMultipole', N_sub_steps=int(rng.integers(1, 6)), B_multip=[float(rng.normal(0, s)) for s in scale[:n]])
        if rng.random() < .5:
            m['B_skew'] = [float(rng.normal(0, s)) for s in scale[:n]]
    elif kind == 'StrongBdip':
        m.update(track_method='StrongBdip', B=float(rng.uniform(.01, 2.)))
    elif kind == 'StrongBgen':
        m.update(track_method='StrongBgen', B0x=float(rng.normal(0, .02)), B0y=float(rng.uniform(.05, 1.)), B_map_file=None, fact_Bmap=1., B_zero_thrhld=1e-6)
    return cfg


def set_sey(cfg, rng, kind):
    cfg.label.append(kind)
    s = cfg.sey
    s['secondary_angle_distribution'] = str(rng.choice(['cosine_2D', 'cosine_3D', 'cosine_3D', 'normal_emission']))
    s['E_th'] = float(rng.choice([35., rng.uniform(15., 60.)]))
    s['sigmafit'] = float(rng.choice([1.0828, rng.uniform(.8, 1.3)]))
    s['mufit'] = float(rng.choice([1.6636, rng.uniform(1.2, 2.)]))
    s['del_max'] = float(rng.uniform(1.2, 2.4))
    s['R0'] = float(rng.uniform(.4, 1.))
    s['Emax'] = float(rng.uniform(200, 400))
    s['switch_no_increase_energy'] = int(rng.choice([0, 0, 2]))  # 1 is refused by the code as unsupported
    s['thresh_low_energy'] = float(rng.choice([-1., 5., 20.]))
    if s['switch_no_increase_energy'] == 2 and s['thresh_low_energy'] < 0:
        s['thresh_low_energy'] = 5.
    if kind == 'ECLOUD':
        s['switch_model'] = 0 if rng.random() < .5 else 'ECLOUD'
        s['flag_costheta_delta_scale'] = bool(rng.random() < .7)
        s['flag_costheta_Emax_shift'] = bool(rng.random() < .7)
        if rng.random() < .3:
            s['E0'] = float(rng.uniform(100, 300))
        if rng.random() < .3:
            s['s_param'] = float(rng.uniform(1.2, 1.8))
    elif kind in ('nunif', 'charging'):
        s['switch_model'] = 'ECLOUD_nunif' if kind == 'nunif' else 'ECLOUD_nunif_charging'
        n = len(cfg.ref.X)
        if cfg.chamber is None:
            raise ValueError('needs polygon')
        dm, R, Em = rng.uniform(1., 2.2, n), rng.uniform(.3, 1., n), rng.uniform(150, 400, n)
        for v in (dm, R, Em):
            v[rng.random(n) < .3] = -1.
        # zero is a value, not the request for the default
        R[rng.random(n) < .15] = 0.
        dm[rng.random(n) < .08] = 0.
        cfg.chamber.update(del_max_segments=dm, R0_segments=R, Emax_segments=Em)
        if kind == 'charging':
            cfg.chamber.update(flag_charging=(rng.random(n) < .6).astype(int), Q_max_segments=10**rng.uniform(-11.5, -9.5, n), EQ_segments=rng.uniform(5, 60, n),
                               tau_segments=np.where(rng.random(n) < .7, 10**rng.uniform(-8.5, -7, n), -1.))
    elif kind == 'furman_pivi':
        s['switch_model'] = 'furman_pivi'
        s['thresh_low_energy'] = 1.
        s['furman_pivi_surface'] = fp_surface(choice=str(rng.choice(['poisson', 'binomial'])), deltaTSHat=float(rng.uniform(1., 1.9)),
                                              use_ECLOUD_energy=bool(rng.random() < .3), conserve_energy=bool(rng.random() < .3),
                                              exclude_rediffused=bool(rng.random() < .2), use_modified_sigmaE=bool(rng.random() < .3))
        s['flag_costheta_delta_scale'] = True
        s['flag_costheta_Emax_shift'] = True
    elif kind == 'from_file':
        s['switch_model'] = 'from_file'
        s['sey_file'] = 'sey.mat'
        s['flag_costheta_delta_scale'] = bool(rng.random() < .7)
        s['flag_costheta_Emax_shift'] = bool(rng.random() < .7)
        cfg.files['sey.mat'] = sey_table(rng)
    elif kind == 'perfect_absorber':
        s['switch_model'] = 'perfect_absorber'
    else:
        s['switch_model'] = kind
    return cfg


def set_sources(cfg, rng, kinds):
    m = cfg.mach
    if 'gas' in kinds:
        m.update(gas_ion_flag=1, P_nTorr=10**rng.uniform(2.5, 4.), sigma_ion_MBarn=float(rng.uniform(.5, 2.)), Temp_K=300., unif_frac=float(rng.uniform(0, 1)), E_init_ion=.1)
    if 'phem_unif' in kinds or 'phem' in kinds:
        # angles measured from the chamber centre
        m.update(photoem_flag=1, inv_CDF_refl_photoem_file='unif_no_file', k_pe_st=10**rng.uniform(-5, -4), refl_frac=float(rng.uniform(0, 1)),
                 alimit=.05, e_pe_sigma=5., e_pe_max=10., x0_refl=0., y0_refl=0., out_radius=8e-2, phem_resc_fac=.9999,
                 photoelectron_angle_distribution=str(rng.choice(['cosine_2D', 'cosine_3D'])), energy_distribution=str(rng.choice(['gaussian', 'lognormal', 'rect', 'mono'])))
        if m['energy_distribution'] == 'lognormal':
            m.update(e_pe_sigma=1.1, e_pe_max=1.6)
        if m['energy_distribution'] == 'rect':
            m.update(e_pe_sigma=4., e_pe_max=7.)
    if 'edens' in kinds:
        m.update(init_unif_edens_flag=1, init_unif_edens=10**rng.uniform(10.5, 11.7), E_init_unif_edens=float(rng.uniform(1, 100)))
    if 'unif' not in kinds:
        m['init_unif_flag'] = 0
    else:
        m.update(init_unif_flag=1, Nel_init_unif=float(10**rng.uniform(7.3, 8.3)), E_init_unif=float(rng.uniform(1, 200)))
    cfg.label.extend(sorted(kinds))
    return cfg


def random(rng, chamber=None, tracker=None, sey=None, sources=None, clouds=0, regen=None, t_end=1e-10, pattern=None):
    cfg = Config()
    sey = sey or str(rng.choice(SEYS))
    if sey in ('nunif', 'charging'):
        chamber = chamber if chamber in ('convex', 'nonconvex') else str(rng.choice(['convex', 'nonconvex']))
    chamber = chamber or str(rng.choice(CHAMBERS))
    tr = tracker or str(rng.choice(TRACKERS))
    if clouds and tr in ('StrongBdip', 'StrongBgen'):
        tr = 'Boris'
    set_chamber(cfg, rng, chamber)
    set_tracker(cfg, rng, tr)
    set_sey(cfg, rng, sey)
    if sources is None:
        sources = ['unif']
        if rng.random() < .5:
            sources.append('gas')
        if rng.random() < .3 and chamber in ('rect', 'ellip'):
            sources.append('phem')
        if rng.random() < .2:
            sources.append('edens')
    set_sources(cfg, rng, sources)
    cfg.beam['filling_pattern_file'] = pattern or [float(v) for v in (rng.random(int(rng.integers(2, 5))) < .7)]
    cfg.beam['fact_beam'] = float(10**rng.uniform(10.8, 11.6))
    if rng.random() < .25:
        # moderate offset inside
        for _ in range(20):
            x, y = rng.uniform(-4e-3, 4e-3, 2)
            if cfg.ref.inside([x], [y])[0] and cfg.ref.dist([x], [y])[0] > 2e-3:
                cfg.beam.update(x_beam_pos=float(x), y_beam_pos=float(y))
                cfg.label.append('boff')
                break
    cfg.sim.update(t_end=t_end, Dt=float(rng.choice([2.5e-11, 5e-11, 1e-10])))
    regen = regen if regen is not None else str(rng.choice(['none', 'none', 'hard', 'soft', 'async']))
    if regen == 'hard':
        cfg.sim.update(N_mp_regen=600, N_mp_after_regen=200, N_mp_regen_low=50, t_ON_regen_low=1e-9)
    elif regen == 'soft':
        cfg.sim.update(N_mp_soft_regen=600, N_mp_after_soft_regen=200)
    elif regen == 'async':
        cfg.sim.update(N_mp_async_regen=700, N_mp_after_async_regen=300)
    cfg.label.append('regen-' + regen)
    for i in range(clouds):
        d = dict(simgen.CLOUD_ION)
        d['Nel_init_unif'] = float(10**rng.uniform(7, 8))
        if rng.random() < .5:
            d.update(gas_ion_flag=1, P_nTorr=3e3, sigma_ion_MBarn=1.5, Temp_K=300., unif_frac=.5, E_init_ion=.05, t_ion=100.)
        if i > 0:
            d.update(cloud_mass=float(ME * rng.choice([1., 1836.])), cloud_charge=float(QE * rng.choice([-1, 1])))
        cfg.clouds['cl%d' % i] = d
    if clouds:
        cfg.label.append('%dclouds' % (clouds + 1))
        cfg.sim['cloud_name'] = 'main'
    return cfg


def on_step(sim, after, before=None):
    """Calls before(sim) and after(sim) around every simulation step of this object."""
    orig = sim.sim_time_step

    def step(*a, **k):
        if before is not None:
            before(sim)
        r = orig(*a, **k)
        after(sim)
        return r
    sim.sim_time_step = step
    return sim


ATTRS = ('x_mp', 'y_mp', 'z_mp', 'vx_mp', 'vy_mp', 'vz_mp', 'nel_mp')


def snap(MP, extra=True):
    n = int(MP.N_mp)
    d = {k: np.array(getattr(MP, k)[:n]) for k in ATTRS}
    if extra and getattr(MP, 't_last_impact', None) is not None:
        d['t_last_impact'] = np.array(MP.t_last_impact[:n])
    d['N'] = n
    d['nel_mp_ref'] = float(MP.nel_mp_ref)
    return d


def same(a, b):
    if a['N'] != b['N'] or a['nel_mp_ref'] != b['nel_mp_ref']:
        return False
    return all(np.array_equal(a[k], b[k], equal_nan=True) for k in a if k not in ('N', 'nel_mp_ref'))
