"""Simulations are built from generated sets of input files and keyword overrides, and what was built is observed.
`apply` compares the constructed objects (macroparticle systems, emission models, impact managers, trackers, gas ionisation,
photoemission, savers, beams, space charge) of the main and of additional clouds with the values written in the files, every file having
values of its own, and the initial particles with the regions and energies requested.  Five differential monitors flatten everything
reachable from a simulation (path -> value, no attribute is named) and compare: `defaults` (documented defaults written explicitly or left
out), `routes` (the same values spread differently over the three main files or given as keyword overrides of other values, including the
names of the files; the first steps are then compared bit by bit), `inherit` (additional clouds whose parameters are left out or repeat
those of the main files; overrides of one cloud leave the others as they are), `swap` (two clouds exchange their roles of main and
additional cloud), `beams` (several beams with own or inherited optics, sizes against the emittance formula).  `reject` applies one
mutation (unknown, misspelt or misplaced parameter, parameter given twice, missing mandatory parameter, unknown option, incompatible or
incomplete options) to a random valid configuration, which is built as a control: an error has to be raised before the end of the first
steps."""
import os
import copy
import numpy as np
from vlib.harness import Task
from vlib import cfgtree, configs, restart, simgen
from vlib.simgen import QE, ME, DROP

PROP = 'P22'
LEVEL = 'runtime monitoring'
TECHNIQUE = 'monitors of the constructed objects against the input files, and differential monitors of equivalent configurations'
NOTE = 'reference: the values written by the generator, the documented defaults, and equivalent configurations of the same tree'
RULE = 'an evaluation is one parameter of one object compared, one pair of equivalent configurations compared, or one invalid configuration refused'
ASSUMPTIONS = ['parameters of options that are switched off, and verbosity flags of additional clouds (the chamber is common), have no effect to observe',
               'the default of flag_hist_impact_seg (1 in the code, 0 in the reference) is not judged']
MP_ = 1.67262192369e-27
U = 1.66053906660e-27

# --- values -----------------------------------------------------------------------------------------------------

DEFAULTS = dict(
    secondary_beams_file_list=[], additional_clouds_file_list=[], cloud_name=None, cloud_mass=ME, cloud_charge=-QE,
    N_mp_soft_regen=None, N_mp_after_soft_regen=None, N_mp_async_regen=None, N_mp_after_async_regen=None, stopfile='stop',
    save_only=None, flag_movie=0, flag_sc_movie=0, flag_cos_angle_hist=True, cos_angle_width=0.05, save_mp_state_time_file=-1,
    flag_detailed_MP_info=0, flag_En_hist_seg=False, flag_verbose_file=False, flag_verbose_stdout=False, dec_fac_secbeam_prof=1,
    el_density_probes=[], save_simulation_state_time_file=-1, checkpoint_DT=None, checkpoint_folder=None, copy_main_outp_DT=None,
    copy_main_outp_folder=None, x_min_hist_det=None, y_min_hist_det=None, x_max_hist_det=None, y_max_hist_det=None, Dx_hist_det=None,
    flag_lifetime_hist=False, Nbin_lifetime_hist=None, lifetime_hist_max=None, Dt_lifetime_hist=None, Dh_electric_energy=None,
    sparse_solver='scipy_slu', PyPICmode='FiniteDifferences_ShortleyWeller', flag_reinterp_fields_at_substeps=False, f_telescope=None,
    target_grid=None, N_nodes_discard=None, N_min_Dh_main=None, dec_fact_out=1, save_mat_every=1, t_ion=-1, extract_sey=True,
    step_by_step_custom_observables=None, pass_by_pass_custom_observables=None, save_once_custom_observables=None, extract_ene_dist=False,
    ene_dist_test_E_impact_eV=None, Nbin_extract_ene=None, factor_ene_dist_max=None, flag_em_tracking=False, cross_ion_definitions=None)
DEFAULTS_MACH = dict(
    fact_Bmap=1., N_sub_steps=1, Dx=0., Dy=0., gas_ion_flag=0, photoem_flag=0, phem_resc_fac=0.9999, energy_distribution='gaussian',
    flag_continuous_emission=False, init_unif_flag=0, init_unif_edens_flag=0, flag_assume_convex=True, B_map_file=None, E_init_unif=0,
    Nel_init_unif=None, init_unif_edens=None, E_init_unif_edens=0.)
DEFAULTS_SEY = dict(switch_model=0, switch_no_increase_energy=0, thresh_low_energy=-1, flag_costheta_Emax_shift=True,
                    flag_costheta_delta_scale=True, E0=None, s_param=None, sey_file=None, furman_pivi_surface=None)
DEFAULTS_BEAM = dict(q_part=QE, m0_part=MP_, Dp_p=0., x_beam_pos=0., y_beam_pos=0., sigmax=-1, sigmay=-1, save_beam_field_file_as=None,
                     coast_dens=0., Dx=None, Dy=None, betafx=None, betafy=None)
# equal values with other types are accepted
EQUIV = {'secondary_beams_file_list', 'additional_clouds_file_list', 'el_density_probes'}

MANDATORY = {
    'sim': ['machine_param_file', 'secondary_emission_parameters_file', 'beam_parameters_file', 'logfile_path', 'progress_path', 'Dt', 't_end', 'lam_th',
            'N_mp_max', 'N_mp_regen', 'N_mp_regen_low', 't_ON_regen_low', 'N_mp_after_regen', 'fact_split', 'fact_clean', 'nel_mp_ref_0', 'Nx_regen',
            'Ny_regen', 'Nvx_regen', 'Nvy_regen', 'Nvz_regen', 'regen_hist_cut', 'Dt_sc', 'Dh_sc', 't_sc_ON', 'Dx_hist', 'r_center', 'Dt_En_hist',
            'Nbin_En_hist', 'En_hist_max'],
    'sey': ['E_th', 'sigmafit', 'mufit', 'scrub_en_th'],
    'beam': ['energy_eV', 'beam_field_file', 'b_spac', 'fact_beam', 'flag_bunched_beam', 't_offs', 'filling_pattern_file'],
    'cloud': ['cloud_mass', 'cloud_charge', 'gas_ion_flag', 'photoem_flag', 'init_unif_flag', 'init_unif_edens_flag', 'switch_model']}


def pick(rng, *v):
    return v[int(rng.integers(0, len(v)))]


def cloud_params(rng, main, tracker=('Boris', 'BorisMultipole')):
    """A value for every parameter that a cloud can have."""
    u, i = lambda a, b: float(rng.uniform(a, b)), lambda a, b: int(rng.integers(a, b))
    half = lambda d: d if rng.random() < .5 else {k: None for k in d}
    p = dict(cloud_mass=float(ME * pick(rng, 1., u(.5, 50.), u(1e3, 1e5))), cloud_charge=float(QE * pick(rng, -1., 1., 2.)))
    p.update(N_mp_max=i(2000, 6000), N_mp_regen=i(1000, 10**6), N_mp_regen_low=i(0, 500), t_ON_regen_low=u(0, 10.), N_mp_after_regen=i(100, 900),
             fact_split=u(1.1, 3.), fact_clean=10**u(-8, -3), nel_mp_ref_0=10**u(4, 6), regen_hist_cut=10**u(-6, -3), Dx_hist=u(.6e-3, 2e-3))
    for k in ('Nx', 'Ny', 'Nvx', 'Nvy', 'Nvz'):
        p[k + '_regen'] = i(11, 60)
    p.update(half(dict(N_mp_soft_regen=i(100, 900), N_mp_after_soft_regen=i(50, 99))))
    p.update(half(dict(N_mp_async_regen=i(100, 900), N_mp_after_async_regen=i(50, 99))))
    p['N_sub_steps'] = i(1, 9)
    p.update(gas_ion_flag=i(0, 2), P_nTorr=10**u(1, 4), sigma_ion_MBarn=u(.1, 3.), Temp_K=u(2., 400.), unif_frac=u(0, 1), E_init_ion=u(.01, 1.), t_ion=u(-1, 100.))
    e = str(pick(rng, 'gaussian', 'lognormal', 'rect', 'mono', 'lorentz'))
    p.update(photoem_flag=pick(rng, 0, 0, 1, 2, 'from_file'), inv_CDF_refl_photoem_file='unif_no_file', inv_CDF_all_photoem_file='unif_no_file',
             k_pe_st=10**u(-6, -3), refl_frac=u(0, 1), alimit=u(.01, .2), e_pe_sigma=u(.5, 2.), e_pe_max=u(3., 9.), x0_refl=pick(rng, 'left', 'right', 0., u(-.004, .004)),
             y0_refl=0., out_radius=u(.06, .2), phem_resc_fac=u(.99, .9999), energy_distribution=e,
             photoelectron_angle_distribution=str(pick(rng, 'cosine_2D', 'cosine_3D', 'normal_emission')), flag_continuous_emission=bool(rng.random() < .4), filename_chm_photoem=None)
    p.update(init_unif_flag=0, init_unif_edens_flag=0, Nel_init_unif=10**u(6, 8), E_init_unif=u(1, 200), init_unif_edens=10**u(9, 11), E_init_unif_edens=u(1, 200),
             filename_init_MP_state=None)
    for s in ('', '_edens'):
        p.update({'x_max_init_unif' + s: u(1e-3, 8e-3), 'x_min_init_unif' + s: u(-8e-3, 0), 'y_max_init_unif' + s: u(1e-3, 8e-3), 'y_min_init_unif' + s: u(-8e-3, 0)})
    sw = pick(rng, 0, 'ECLOUD', 1, 'ACC_LOW', 'cos_low_ene', 'flat_low_ene', 'furman_pivi', 'from_file', 'perfect_absorber')
    p.update(E_th=u(20, 50), sigmafit=u(.8, 1.3), mufit=u(1.2, 2.), Emax=u(150, 400), del_max=u(.9, 2.5), R0=u(.3, 1.), E0=None if sw in ('flat_low_ene', 'from_file', 'furman_pivi') else pick(rng, None, u(100, 300)),
             switch_no_increase_energy=pick(rng, 0, 2), thresh_low_energy=u(1, 20), scrub_en_th=u(5, 40), secondary_angle_distribution=str(pick(rng, 'cosine_2D', 'cosine_3D', 'normal_emission')),
             switch_model=sw, s_param=pick(rng, None, u(1.2, 1.8)) if sw in (0, 'ECLOUD') else None, sey_file=pick(rng, 'seyA.mat', 'seyB.mat'),
             flag_costheta_Emax_shift=bool(rng.random() < .5), flag_costheta_delta_scale=bool(rng.random() < .5), furman_pivi_surface=configs.fp_surface(deltaTSHat=u(1., 2.)))
    p.update(r_center=u(.5e-3, 3e-3), Dt_En_hist=u(1e-9, 9e-9), Nbin_En_hist=i(10, 60), En_hist_max=u(500, 3000))
    p.update(flag_lifetime_hist=bool(rng.random() < .5), Nbin_lifetime_hist=i(5, 40), lifetime_hist_max=u(1e-9, 1e-7), Dt_lifetime_hist=u(1e-9, 5e-9))
    p.update(flag_movie=i(0, 2), flag_sc_movie=i(0, 2), flag_cos_angle_hist=bool(rng.random() < .6), cos_angle_width=u(.02, .2), flag_detailed_MP_info=i(0, 2),
             save_mp_state_time_file=pick(rng, -1, [u(1., 2.), u(2., 3.)]), save_simulation_state_time_file=pick(rng, -1, [u(1., 2.)]),
             flag_hist_impact_seg=i(0, 2), flag_En_hist_seg=bool(rng.random() < .5), flag_verbose_file=False, flag_verbose_stdout=False, dec_fac_secbeam_prof=i(1, 5),
             el_density_probes=[dict(x=u(-5e-3, 5e-3), y=u(-5e-3, 5e-3), r_obs=u(.5e-3, 2e-3)) for _ in range(i(0, 3))])
    p.update(half(dict(x_min_hist_det=u(-5e-3, -1e-3), y_min_hist_det=u(-5e-3, -1e-3), x_max_hist_det=u(1e-3, 5e-3), y_max_hist_det=u(1e-3, 5e-3), Dx_hist_det=u(1e-4, 5e-4))))
    n = i(0, 10**6)
    p.update(logfile_path=pick(rng, None, 'log%d.txt' % n), progress_path=pick(rng, None, 'progress%d' % n), save_only=pick(rng, None, ['Nel_timep', 't'], ['t']))
    if main:
        p['cloud_name'] = 'main%d' % n
    return p


SIM_C = {'N_mp_max', 'N_mp_regen', 'N_mp_regen_low', 't_ON_regen_low', 'N_mp_after_regen', 'fact_split', 'fact_clean', 'nel_mp_ref_0', 'Nx_regen', 'Ny_regen', 'Nvx_regen',
         'Nvy_regen', 'Nvz_regen', 'regen_hist_cut', 'N_mp_soft_regen', 'N_mp_after_soft_regen', 'N_mp_async_regen', 'N_mp_after_async_regen', 'Dx_hist', 'r_center',
         'Dt_En_hist', 'Nbin_En_hist', 'En_hist_max', 'logfile_path', 'progress_path', 'cloud_name', 'cloud_mass', 'cloud_charge', 't_ion'}
SEY_C = {'E_th', 'sigmafit', 'mufit', 'Emax', 'del_max', 'R0', 'E0', 's_param', 'switch_model', 'switch_no_increase_energy', 'thresh_low_energy', 'scrub_en_th',
         'secondary_angle_distribution', 'sey_file', 'flag_costheta_Emax_shift', 'flag_costheta_delta_scale', 'furman_pivi_surface'}


def main_only(rng, chamber=None):
    """Parameters of the simulation that are not parameters of a cloud."""
    u, i = lambda a, b: float(rng.uniform(a, b)), lambda a, b: int(rng.integers(a, b))
    chamber = chamber or pick(rng, 'rect', 'ellip', 'polyg')
    s = dict(Dt=float(pick(rng, 2.5e-11, 5e-11, 4e-11)), t_end=u(0, 1e-9), lam_th=10**u(1, 3), Dt_sc=pick(rng, None, u(1e-10, 6e-10)), Dh_sc=u(1.5e-3, 3e-3), t_sc_ON=u(0, 2e-9),
             stopfile='stop%d' % i(0, 1000), dec_fact_out=i(1, 6), save_mat_every=1, extract_sey=False, sparse_solver=str(pick(rng, 'scipy_slu', 'PyKLU')),
             PyPICmode=str(pick(rng, 'FiniteDifferences_ShortleyWeller', 'FiniteDifferences_Staircase')), flag_reinterp_fields_at_substeps=bool(rng.random() < .3),
             Dh_electric_energy=pick(rng, None, u(2e-3, 4e-3)), copy_main_outp_DT=None, checkpoint_DT=None, filen_main_outp='out%d.mat' % i(0, 1000))
    m = dict(chamb_type=chamber, betafx=u(50, 150), betafy=u(50, 150), Dx=u(0, 2.), Dy=u(0, 2.))
    ch = None
    if chamber == 'polyg':
        while True:
            Vx, Vy = simgen.rand_convex(rng, int(rng.integers(5, 12)), u(1.8e-2, 2.5e-2), u(1.8e-2, 2.5e-2))
            ch = simgen.poly_dict(Vx, Vy)
            if ch['x_sem_ellip_insc'] > 9e-3:
                break
        m.update(x_aper=DROP, y_aper=DROP)
        if rng.random() < .5:
            m['flag_assume_convex'] = bool(rng.random() < .5)
    else:
        m.update(x_aper=u(1.2e-2, 2.5e-2), y_aper=u(1.2e-2, 2.5e-2))
    if rng.random() < .5:
        m.update(track_method='Boris', B0x=u(-.01, .01), B0y=u(-.05, .05), B0z=u(-.01, .01), B_map_file=pick(rng, None, 'analytic_quadrupole_unit_grad'), fact_Bmap=u(.5, 10.))
    else:
        m.update(track_method='BorisMultipole', B_multip=[u(-.05, .05), u(-5, 5)], B_skew=pick(rng, None, [u(-.01, .01), u(-2., 2.)]), B0x=DROP, B0y=DROP, B0z=DROP, B_map_file=DROP)
    return s, m, ch


def beam_params(rng, own_optics=False):
    u = lambda a, b: float(rng.uniform(a, b))
    b = dict(energy_eV=10**u(10, 13), nemittx=10**u(-6.5, -5), nemitty=10**u(-6.5, -5), Dp_p=10**u(-5, -3.3), beam_field_file='computeFD', Dh_beam_field=u(.8e-3, 2e-3),
             fact_beam=10**u(10, 11.5), coast_dens=pick(rng, 0., 10**u(7, 10)), flag_bunched_beam=1, sigmaz=u(.03, .1), t_offs=u(.8e-9, 1.5e-9),
             x_beam_pos=u(-2e-3, 2e-3), y_beam_pos=u(-2e-3, 2e-3), q_part=QE * pick(rng, 1., -1., 82.), beam_long_prof_file=-1)
    b['m0_part'] = float(pick(rng, MP_, 2 * MP_, ME))
    if rng.random() < .3:
        b.update(sigmax=u(.2e-3, 2e-3))
    if rng.random() < .3:
        b.update(sigmay=u(.2e-3, 2e-3))
    if own_optics:
        for k, lo, hi in (('betafx', 20, 200), ('betafy', 20, 200), ('Dx', 0, 3), ('Dy', 0, 3)):
            if rng.random() < .5:
                b[k] = u(lo, hi)
    return b


class Setup:
    """One set of input files."""

    def __init__(self, rng, nclouds=0, chamber=None, nsec=0):
        self.sim, self.mach, self.chamber = main_only(rng, chamber)
        self.sey = {}
        self.cl = [cloud_params(rng, k == 0) for k in range(nclouds + 1)]
        self.beam = beam_params(rng)
        self.beam.update(b_spac=float(rng.uniform(2e-9, 3e-9)), filling_pattern_file=[1., 1., 0.])
        self.sec = [dict({'sigmax': DROP, 'sigmay': DROP}, **beam_params(rng, True), b_spac=self.beam['b_spac'], filling_pattern_file=[float(v) for v in rng.uniform(0, 1, 2)]) for _ in range(nsec)]
        self.names = ['cloud%d' % k for k in range(1, nclouds + 1)]
        self.files = {'seyA.mat': configs.sey_table(rng), 'seyB.mat': configs.sey_table(rng)}
        self.given = [set(p) - {'cloud_name'} for p in self.cl[1:]]

    def write(self, case, name, kw=None, route=None, filenames=None):
        """route(param) -> 'sim', 'mach' or 'sey'."""
        s, m, e = dict(self.sim), dict(self.mach), dict(self.sey)
        for k, v in self.cl[0].items():
            (s if k in SIM_C else e if k in SEY_C else m)[k] = v
        if route is not None:
            new = {'sim': {}, 'mach': {}, 'sey': {}}
            for f, d in (('sim', s), ('mach', m), ('sey', e)):
                for k, v in d.items():
                    new[f if v is DROP else route(k, f)][k] = v
            s, m, e = new['sim'], new['mach'], new['sey']
        clouds = {n: {k: v for k, v in p.items() if k in g} for n, p, g in zip(self.names, self.cl[1:], self.given)}
        folder = case.path(name)
        os.makedirs(folder)
        import scipy.io as sio
        for fn, d in self.files.items():
            sio.savemat(os.path.join(folder, fn), d, oned_as='row')
        base = [dict(simgen.SIM), dict(simgen.MACH), dict(simgen.SEY)]
        bs, bm, be = simgen.SIM, simgen.MACH, simgen.SEY
        # a parameter moved to another file is dropped from the basic contents of its own
        moved = {k for d in (s, m, e) for k in d}
        try:
            simgen.SIM, simgen.MACH, simgen.SEY = [{k: v for k, v in b.items() if k not in moved} for b in base]
            simgen.write_inputs(folder, sim=s, mach=m, sey=e, beam=self.beam, sec_beams=self.sec, clouds=clouds, chamber=self.chamber)
        finally:
            simgen.SIM, simgen.MACH, simgen.SEY = bs, bm, be
        for old, new in (filenames or {}).items():
            os.rename(os.path.join(folder, old), os.path.join(folder, new))
        return folder


def build(case, folder, **kw):
    """Builds in the folder (relative paths of outputs stay there)."""
    os.chdir(folder)
    case.reseed()
    try:
        return simgen.build('./', **kw)
    finally:
        os.chdir(case.path())


SKIP = ('stopfile_path', '__header__')


def compare(case, a, b, key, what, skip=(), n=1):
    d = cfgtree.differences(cfgtree.tree(a, skip=SKIP + tuple(skip)), cfgtree.tree(b, skip=SKIP + tuple(skip)))
    ta, tb = cfgtree.tree(a), cfgtree.tree(b)
    case.check(not d, key, lambda: '%s: %s' % (what, '; '.join('%s: %s | %s' % (k, ta.get(k, 'absent')[:60], tb.get(k, 'absent')[:60]) for k in d[:6])))
    case.count('compared-values', len(ta))
    case.ok(n=n)


def eq(a, b):
    if isinstance(a, (list, tuple, np.ndarray)) or isinstance(b, (list, tuple, np.ndarray)):
        return np.shape(a) == np.shape(b) and (np.size(a) == 0 or repr(list(a)) == repr(list(b)) or np.array_equal(np.asarray(a), np.asarray(b)))
    if isinstance(a, dict):
        return repr(a) == repr(b)
    return a == b or (a is None and b is None)


def see(case, get, want, key, label, tol=None):
    """One observation; an object that does not keep the value under this name is not judged."""
    try:
        got = get()
    except (AttributeError, KeyError):
        case.count('not-observable')
        return
    good = eq(got, want) if tol is None else np.allclose(got, want, rtol=tol, atol=0)
    case.check(good, key, lambda: '%s: %r instead of %r' % (label, got, want))
    case.ok(key=key)


MODELS = {0: 'SEY_model_ECLOUD', 'ECLOUD': 'SEY_model_ECLOUD', 1: 'SEY_model_acc_low_ene', 'ACC_LOW': 'SEY_model_acc_low_ene', 'cos_low_ene': 'SEY_model_cos_le',
          'flat_low_ene': 'SEY_model_flat_le', 'furman_pivi': 'SEY_model_furman_pivi', 'from_file': 'SEY_model_from_file', 'perfect_absorber': 'SEY_model_perfect_absorber'}


def observe_cloud(case, cl, p, su, lab, folder, saver=True):
    def s(get, par, want=None, **kw):
        see(case, get, p[par] if want is None and par in p else want, par, '%s, %s' % (lab, par), **kw)
    M = cl.MP_e
    see(case, lambda: len(M.x_mp), p['N_mp_max'], 'N_mp_max', lab)
    for par, at in (('nel_mp_ref_0', 'nel_mp_ref_0'), ('fact_split', 'fact_split'), ('fact_clean', 'fact_clean'), ('N_mp_regen_low', 'N_mp_regen_low'), ('N_mp_regen', 'N_mp_regen'),
                    ('N_mp_after_regen', 'N_mp_after_regen'), ('Nx_regen', 'Nx_reg'), ('Ny_regen', 'Ny_reg'), ('Nvx_regen', 'Nvx_reg'), ('Nvy_regen', 'Nvy_reg'), ('Nvz_regen', 'Nvz_reg'),
                    ('regen_hist_cut', 'regen_hist_cut'), ('cloud_mass', 'mass'), ('cloud_charge', 'charge'), ('flag_lifetime_hist', 'flag_lifetime_hist'), ('Dx_hist', 'Dx_hist_reg')):
        s(lambda: getattr(M, at), par)
    see(case, lambda: M.nel_mp_ref, p['nel_mp_ref_0'], 'nel_mp_ref_0', lab + ', reference size')
    see(case, lambda: M.nel_mp_split, p['nel_mp_ref_0'] * p['fact_split'], 'fact_split', lab + ', split threshold', tol=1e-12)
    see(case, lambda: M.nel_mp_cl_th, p['nel_mp_ref_0'] * p['fact_clean'], 'fact_clean', lab + ', clean threshold', tol=1e-12)
    for k in ('soft', 'async'):
        see(case, lambda: getattr(M, 'flag_%s_regen' % k), p['N_mp_%s_regen' % k] is not None, 'N_mp_%s_regen' % k, lab)
        if p['N_mp_%s_regen' % k] is not None:
            s(lambda: getattr(M, 'N_mp_%s_regen' % k), 'N_mp_%s_regen' % k)
            s(lambda: getattr(M, 'N_mp_after_%s_regen' % k), 'N_mp_after_%s_regen' % k)
    I = cl.impact_man
    for par in ('Dx_hist', 'scrub_en_th', 'Nbin_En_hist', 'En_hist_max', 'flag_lifetime_hist', 'flag_En_hist_seg', 'cos_angle_width'):
        s(lambda: getattr(I, par), par)
    if p['flag_lifetime_hist']:
        s(lambda: I.Nbin_lifetime_hist, 'Nbin_lifetime_hist')
        s(lambda: I.lifetime_hist_max, 'lifetime_hist_max')
    see(case, lambda: bool(I.flag_seg), p['flag_hist_impact_seg'] == 1 and su.mach['chamb_type'] != 'ellip', 'flag_hist_impact_seg', lab)
    sm, sw = I.sey_mod, p['switch_model']
    see(case, lambda: type(sm).__name__, MODELS[sw], 'switch_model', lab)
    if sw != 'perfect_absorber':
        for par in ('E_th', 'sigmafit', 'mufit', 'switch_no_increase_energy', 'thresh_low_energy', 'secondary_angle_distribution'):
            s(lambda: getattr(sm, par), par)
    if sw in (0, 'ECLOUD', 1, 'ACC_LOW', 'cos_low_ene', 'flat_low_ene'):
        for par in ('Emax', 'del_max', 'R0'):
            s(lambda: getattr(sm, par), par)
        if sw != 'flat_low_ene':
            see(case, lambda: sm.E0, {None: 150.}.get(p['E0'], p['E0']), 'E0', lab) if sw != 'cos_low_ene' or p['E0'] is not None else None
    if sw in (0, 'ECLOUD'):
        see(case, lambda: sm.s, 1.35 if p['s_param'] is None else p['s_param'], 's_param', lab)
    if sw in (0, 'ECLOUD', 'from_file', 'furman_pivi'):
        for par in ('flag_costheta_Emax_shift', 'flag_costheta_delta_scale'):
            s(lambda: getattr(sm, par), par)
    if sw == 'from_file':
        see(case, lambda: os.path.basename(sm.sey_file), p['sey_file'], 'sey_file', lab)
    D = cl.dynamics
    s(lambda: D.N_sub_steps, 'N_sub_steps')
    see(case, lambda: D.Dt, su.sim['Dt'], 'Dt', lab + ', tracker')
    if su.mach['track_method'] == 'Boris':
        for par in ('B0x', 'B0y', 'B0z'):
            see(case, lambda: getattr(D, par), su.mach[par], par, lab)
        if su.mach['B_map_file'] is not None:
            see(case, lambda: D.fact_Bmap, su.mach['fact_Bmap'], 'fact_Bmap', lab)
    see(case, lambda: cl.gas_ion_flag, p['gas_ion_flag'], 'gas_ion_flag', lab)
    see(case, lambda: cl.t_ion, p['t_ion'], 't_ion', lab)
    see(case, lambda: cl.photoem_flag, p['photoem_flag'], 'photoem_flag', lab)
    if p['gas_ion_flag']:
        for par in ('unif_frac', 'P_nTorr', 'sigma_ion_MBarn', 'Temp_K', 'E_init_ion'):
            s(lambda: getattr(cl.resgasion, par), par)
    else:
        case.check(cl.resgasion is None, 'gas_ion_flag', lab + ': gas ionisation although switched off')
    if p['photoem_flag'] != 0:
        P = cl.phemiss
        for par, at in (('k_pe_st', 'k_pe_st'), ('out_radius', 'out_radius'), ('phem_resc_fac', 'resc_fac'), ('flag_continuous_emission', 'flag_continuous_emission')) + \
                ((('refl_frac', 'refl_frac'), ('alimit', 'alimit'), ('e_pe_sigma', 'e_pe_sigma'), ('e_pe_max', 'e_pe_max')) if p['photoem_flag'] == 1 else ()):
            s(lambda: getattr(P, at), par)
        if p['photoem_flag'] == 1 and not isinstance(p['x0_refl'], str):
            s(lambda: P.x0_refl, 'x0_refl')
        # the energies emitted are those of the distribution asked for
        np.random.seed(case.index)
        e = np.asarray(P.get_energy(2000), float)
        mu, sg = p['e_pe_max'], p['e_pe_sigma']
        lo, hi = {'mono': (mu, mu), 'rect': (mu - sg, mu + sg)}.get(p['energy_distribution'], (0, np.inf))
        med = np.exp(mu) if p['energy_distribution'] == 'lognormal' else mu
        case.check(e.min() >= lo - 1e-9 and e.max() <= hi + 1e-9 and abs(np.log(np.median(e) / med)) < (.6 if p['energy_distribution'] == 'lorentz' else .25) * max(1., sg if p['energy_distribution'] == 'lognormal' else 1.),
                   'energy_distribution', lambda: '%s: photoelectron energies %g to %g eV, median %g, for %s(%g, %g)' % (lab, e.min(), e.max(), np.median(e), p['energy_distribution'], mu, sg))
        case.ok(key='energy_distribution')
    else:
        case.check(cl.phemiss is None, 'photoem_flag', lab + ': photoemission although switched off')
    if not saver:
        return
    S = cl.pyeclsaver
    for par in ('r_center', 'Dt_En_hist', 'logfile_path', 'progress_path', 'flag_detailed_MP_info', 'flag_cos_angle_hist', 'flag_lifetime_hist', 'save_only'):
        s(lambda: getattr(S, par), par)
    if p['flag_lifetime_hist']:
        s(lambda: S.Dt_lifetime_hist, 'Dt_lifetime_hist')
    see(case, lambda: bool(S.flag_video), p['flag_movie'] == 1, 'flag_movie', lab)
    see(case, lambda: bool(S.flag_sc_video), p['flag_sc_movie'] == 1, 'flag_sc_movie', lab)
    for par, fl, at in (('save_mp_state_time_file', 'flag_save_MP_state', 't_obs'), ('save_simulation_state_time_file', 'flag_save_simulation_state', 't_obs_sim')):
        see(case, lambda: bool(getattr(S, fl)), p[par] != -1, par, lab)
        if p[par] != -1:
            s(lambda: getattr(S, at), par)
    if p['flag_cos_angle_hist']:
        see(case, lambda: S.xg_hist_cos_angle[1], p['cos_angle_width'], 'cos_angle_width', lab, tol=1e-12)
    if p['el_density_probes']:
        for q, at in (('x', 'x_el_dens_probes'), ('y', 'y_el_dens_probes'), ('r_obs', 'r_el_dens_probes')):
            see(case, lambda: getattr(S, at), [d[q] for d in p['el_density_probes']], 'el_density_probes', lab)
    see(case, lambda: bool(S.flag_el_dens_probes), len(p['el_density_probes']) > 0, 'el_density_probes', lab)
    see(case, lambda: bool(S.flag_hist_det), p['x_min_hist_det'] is not None, 'x_min_hist_det', lab)
    if p['x_min_hist_det'] is not None:
        for par in ('x_min_hist_det', 'x_max_hist_det', 'y_min_hist_det', 'y_max_hist_det', 'Dx_hist_det'):
            s(lambda: getattr(S, par), par)
    for par in ('dec_fact_out', 'stopfile', 'save_mat_every'):
        see(case, lambda: getattr(S, par), su.sim[par], par, lab)
    if su.sec:
        see(case, lambda: S.t_sec_beams[1] / su.sim['Dt'], float(p['dec_fac_secbeam_prof']), 'dec_fac_secbeam_prof', lab, tol=1e-9)


def observe_sim(case, sim, su, kw=()):
    sc = sim.spacech_ele
    see(case, lambda: sc.Dt_sc, su.sim['Dt_sc'], 'Dt_sc', 'main')
    see(case, lambda: sc.Dh, su.sim['Dh_sc'], 'Dh_sc', 'main', tol=1e-12)
    see(case, lambda: sc.Dh_U_eV, su.sim['Dh_electric_energy'], 'Dh_electric_energy', 'main')
    see(case, lambda: sim.t_sc_ON, su.sim['t_sc_ON'], 't_sc_ON', 'main')
    see(case, lambda: type(sc.PyPICobj).__name__, {'FiniteDifferences_ShortleyWeller': 'FiniteDifferences_ShortleyWeller_SquareGrid',
                                                   'FiniteDifferences_Staircase': 'FiniteDifferences_Staircase_SquareGrid'}[su.sim['PyPICmode']], 'PyPICmode', 'main')
    see(case, lambda: sim.flag_reinterp_fields_at_substeps, su.sim['flag_reinterp_fields_at_substeps'], 'flag_reinterp_fields_at_substeps', 'main')
    if su.mach['chamb_type'] != 'polyg':
        for par in ('x_aper', 'y_aper'):
            see(case, lambda: getattr(sim.chamb, par), su.mach[par], par, 'main')
    given = {}
    for d in (su.sim, su.mach, su.sey, su.cl[0]):
        given.update({k: v for k, v in d.items() if v is not DROP})
    for par, v in given.items():
        see(case, lambda: sim.config_dict[par], v, par, 'configuration')


def observe_beam(case, bt, b, su, lab, first):
    gam = b['energy_eV'] * QE / (b['m0_part'] * simgen.CLIGHT**2)
    bg = np.sqrt(gam**2 - 1)
    for q in 'xy':
        if b.get('sigma' + q, -1) not in (-1, DROP):
            w = b['sigma' + q]
        else:
            beta, disp = b.get('betaf' + q, None), b.get('D' + q, None)
            beta = su.mach['betaf' + q] if beta is None else beta
            disp = su.mach['D' + q] if disp is None else disp
            w = np.sqrt(beta * b['nemitt' + q] / bg + disp**2 * b['Dp_p']**2)
        see(case, lambda: getattr(bt, 'sigma' + q), w, 'sigma' + q, lab, tol=1e-6)
        see(case, lambda: getattr(bt, q + '_beam_pos'), b[q + '_beam_pos'], q + '_beam_pos', lab)
    see(case, lambda: bt.beam_charge, b['q_part'], 'q_part', lab)
    see(case, lambda: bt.b_spac, b['b_spac'], 'b_spac', lab)
    see(case, lambda: bt.Dt, su.sim['Dt'], 'Dt', lab)
    see(case, lambda: bt.lam_th_beam_field, su.sim['lam_th'], 'lam_th', lab)
    see(case, lambda: bt.dx_beam, b['Dh_beam_field'], 'Dh_beam_field', lab, tol=1e-9)
    t = np.asarray(bt.t)
    ref = b['coast_dens'] + np.zeros(len(t))
    for k, n in enumerate(b['filling_pattern_file']):
        z = simgen.CLIGHT * (t - b['t_offs'] - k * b['b_spac'])
        ref += b['fact_beam'] * n * np.exp(-z**2 / 2 / b['sigmaz']**2) / np.sqrt(2 * np.pi) / b['sigmaz'] * (np.abs(z) < 10 * b['sigmaz'])
    ok = np.shape(bt.lam_t_array) == t.shape and np.max(np.abs(bt.lam_t_array - ref)) < 1e-6 * np.max(ref)
    case.check(ok, 'beam-profile', lambda: '%s: profile differs from %d bunches with the intensities, length, spacing, offset and coasting density given' % (lab, len(b['filling_pattern_file'])))
    case.ok(key='beam-profile')
    if first:
        n = len(b['filling_pattern_file'])
        see(case, lambda: len(t) * su.sim['Dt'], n * b['b_spac'] + su.sim['t_end'] + 2 * su.sim['Dt'], 't_end', lab, tol=.02)


# --- tasks ------------------------------------------------------------------------------------------------------

def apply(case, nclouds=0, nsec=0):
    rng = case.rng
    su = Setup(rng, nclouds, nsec=nsec)
    init = rng.random() < .6
    if init:
        for p in su.cl:
            p['N_mp_max'] = 6000
            p['init_unif_flag'] = pick(rng, 0, 1)
            p['nel_mp_ref_0'] = p['Nel_init_unif'] / float(rng.integers(500, 3000))
    for g, p in zip(su.given, su.cl[1:]):
        drop = {k for k in g if k not in MANDATORY['cloud'] and rng.random() < .3}
        if p['s_param'] is None or p['E0'] is None:
            drop -= {'s_param', 'E0'}
        drop -= {'switch_model', 's_param', 'E0', 'init_unif_flag'} | {k for k in g if 'regen' in k or 'hist_det' in k or 'lifetime' in k or 'nel_mp_ref' in k or k in ('energy_distribution', 'e_pe_sigma', 'e_pe_max', 'N_mp_max', 'Nel_init_unif')}
        g -= drop
        for k in drop:
            p[k] = su.cl[0][k]
    folder = su.write(case, 'in')
    sim = build(case, folder)
    # observations of files happen where the simulation was built
    observe_sim(case, sim, su)
    observe_beam(case, sim.beamtim, su.beam, su, 'main beam', True)
    case.check(len(sim.sec_beams_list) == nsec and len(sim.cloud_list) == nclouds + 1, 'lists', lambda: '%d beams and %d clouds' % (len(sim.sec_beams_list), len(sim.cloud_list)))
    for b, bt in zip(su.sec, sim.sec_beams_list):
        observe_beam(case, bt, b, su, 'secondary beam', False)
    out = su.sim['filen_main_outp'].split('.mat')[0]
    for p, cl, nm in zip(su.cl, sim.cloud_list, [su.cl[0]['cloud_name']] + su.names):
        case.check(cl.name == nm, 'cloud_name', lambda: 'cloud %r is called %r' % (nm, cl.name))
        see(case, lambda: os.path.basename(cl.pyeclsaver.filen_main_outp), '%s_%s.mat' % (out, nm), 'filen_main_outp', nm)
        observe_cloud(case, cl, p, su, 'cloud ' + nm, folder)
        M = cl.MP_e
        n = M.N_mp
        if p['init_unif_flag']:
            q = M.charge * 0 + M.nel_mp[:n]
            case.check(abs(q.sum() / p['Nel_init_unif'] - 1) < .1 and abs(n / (p['Nel_init_unif'] / p['nel_mp_ref_0']) - 1) < .1, 'Nel_init_unif', lambda: '%s: %d macroparticles with %g electrons instead of %g' % (nm, n, q.sum(), p['Nel_init_unif']))
            for a, v in (('x', M.x_mp[:n]), ('y', M.y_mp[:n])):
                lo, hi = p[a + '_min_init_unif'], p[a + '_max_init_unif']
                case.check(v.min() >= lo and v.max() <= hi and v.min() < lo + .05 * (hi - lo) and v.max() > hi - .05 * (hi - lo), a + '_init_unif',
                           lambda: '%s: %s from %g to %g instead of %g to %g' % (nm, a, v.min(), v.max(), lo, hi))
            speeds(case, M, p, 'E_init_unif', nm)
            case.ok(key='init-unif', n=4)
        else:
            case.check(n == 0, 'init_unif_flag', lambda: '%s: %d particles although none were asked for' % (nm, n))
    case.sample(clouds=nclouds + 1, chamber=su.mach['chamb_type'], model=str(su.cl[0]['switch_model']))


def speeds(case, M, p, par, lab):
    """Each velocity component is at most half the speed of a third of the energy."""
    v0 = .5 * np.sqrt(2 * p[par] / 3 * abs(M.charge) / M.mass)
    v = np.abs([M.vx_mp[:M.N_mp], M.vy_mp[:M.N_mp], M.vz_mp[:M.N_mp]]).max(axis=1)
    case.check(np.all(v <= v0 * (1 + 1e-9)), par, lambda: '%s: largest velocity components %s, limit %g for %s = %g' % (lab, v, v0, par, p[par]))


def edens(case):
    """Initial uniform density."""
    rng = case.rng
    su = Setup(rng, 1)
    for p in su.cl:
        p.update(init_unif_edens_flag=1, N_mp_max=20000)
        a = (p['x_max_init_unif_edens'] - p['x_min_init_unif_edens']) * (p['y_max_init_unif_edens'] - p['y_min_init_unif_edens'])
        p['nel_mp_ref_0'] = p['init_unif_edens'] * a / float(rng.integers(500, 3000))
    sim = build(case, su.write(case, 'in'))
    # the energy asked for sets the scale of the velocities
    k = rng.uniform(1.5, 9, len(su.cl))
    o = copy.deepcopy(su)
    for p, q, f in zip(su.cl, o.cl, k):
        q['E_init_unif_edens'] = p['E_init_unif_edens'] * f
        q['E_init_unif'] = p['E_init_unif'] * f
        if p is su.cl[-1]:
            for z in (p, q):
                z.update(init_unif_flag=1, init_unif_edens_flag=0, Nel_init_unif=z['nel_mp_ref_0'] * 500)
    A, B = build(case, su.write(case, 'inA')), build(case, o.write(case, 'inB'))
    for f, a, b in zip(k, A.cloud_list, B.cloud_list):
        a, b = a.MP_e, b.MP_e
        va, vb = [np.array([getattr(m, c)[:m.N_mp] for c in ('vx_mp', 'vy_mp', 'vz_mp')]) for m in (a, b)]
        case.check(va.shape == vb.shape and va.size > 300 and np.all(va != 0) and np.allclose(vb, va * np.sqrt(f), rtol=1e-9, atol=0), 'E_init_scale', lambda: 'velocities of %s and %s initial particles with energies 1 and %g differ by a factor %s' % (va.shape, vb.shape, f, (vb.flat[0] / va.flat[0])))
        case.ok(key='E_init-scale')
    for p, cl in zip(su.cl, sim.cloud_list):
        M, n = cl.MP_e, cl.MP_e.N_mp
        p.update(init_unif_edens_flag=1)
        a = (p['x_max_init_unif_edens'] - p['x_min_init_unif_edens']) * (p['y_max_init_unif_edens'] - p['y_min_init_unif_edens'])
        q = M.nel_mp[:n].sum()
        case.check(abs(q / a / p['init_unif_edens'] - 1) < .1, 'init_unif_edens', lambda: '%s: density %g instead of %g' % (cl.name, q / a, p['init_unif_edens']))
        for b, v in (('x', M.x_mp[:n]), ('y', M.y_mp[:n])):
            lo, hi = p[b + '_min_init_unif_edens'], p[b + '_max_init_unif_edens']
            case.check(v.min() >= lo and v.max() <= hi and v.min() < lo + .05 * (hi - lo) and v.max() > hi - .05 * (hi - lo), b + '_init_unif_edens',
                       lambda: '%s: %s from %g to %g instead of %g to %g' % (cl.name, b, v.min(), v.max(), lo, hi))
        speeds(case, M, p, 'E_init_unif_edens', cl.name)
        case.ok(key='init-edens', n=4)


def defaults(case):
    """Documented defaults written out or left out."""
    rng = case.rng
    over = dict(sim=dict(t_ion=DROP, sparse_solver=DROP, stopfile=DROP, flag_hist_impact_seg=0, extract_sey=False), mach=dict(N_sub_steps=DROP, B_map_file=DROP, init_unif_flag=DROP, Nel_init_unif=DROP, E_init_unif=DROP),
                sey=dict(switch_model=DROP, switch_no_increase_energy=DROP, thresh_low_energy=DROP), beam=dict(Dp_p=DROP, coast_dens=DROP))
    if rng.random() < .5:
        over['mach']['chamb_type'] = DROP     # elliptical
    if rng.random() < .3:
        over['mach'].update({k: DROP for k in ('B0x', 'B0y', 'B0z', 'track_method')})
    ex = copy.deepcopy(over)
    n = 0
    for f, tab in (('sim', DEFAULTS), ('mach', DEFAULTS_MACH), ('sey', DEFAULTS_SEY), ('beam', DEFAULTS_BEAM)):
        for k, v in tab.items():
            if k == 'extract_sey' or (k in over[f] and over[f][k] is not DROP):
                continue
            if rng.random() < .7:
                ex[f][k] = v
                n += 1
    if 'chamb_type' in over['mach']:
        ex['mach']['chamb_type'] = 'ellip'
    if over['mach'].get('track_method') is DROP:
        ex['mach'].update(track_method='StrongBdip', B=0.)
    elif rng.random() < .5:
        tm = pick(rng, 'Boris', 'StrongBgen')
        over['mach'].update(track_method=tm, B0x=DROP, B0z=DROP)
        ex['mach'].update(track_method=tm, B0x=0., B0z=0. if tm == 'Boris' else DROP)
        if tm == 'StrongBgen':
            for o in (over, ex):
                o['mach']['B_zero_thrhld'] = 1e-6
    A = build(case, simgen.write_inputs(case.path('a'), **over))
    B = build(case, simgen.write_inputs(case.path('b'), **ex))
    # values that mean the same: a list or a tuple, a missing offset field or zero
    compare(case, A, B, 'defaults', 'defaults left out | written out', skip=('B0x', 'B0y', 'B0z'), n=n)
    for par, v in ex['sim'].items():
        if par in DEFAULTS and v is not DROP and over['sim'].get(par, DROP) is DROP:
            see(case, lambda: A.config_dict[par], v, 'default-' + par, 'not given')
    steps(case, A, B, 3)
    case.check(A.cloud_list[0].pyeclsaver.filen_main_outp == 'Pyecltest.mat', 'filen_main_outp', 'default name of the output')


def steps(case, A, B, n, key='first-steps'):
    la, lb = restart.trace(A), restart.trace(B)
    for S in (A, B):
        case.reseed(7)
        for _ in range(n):
            if S.beamtim.end_simulation():
                break
            S.beamtim.next_time_step()
            for sb in S.sec_beams_list:
                sb.next_time_step()
            S.sim_time_step()
    for i, (x, y) in enumerate(zip(la, lb)):
        d = restart.differences(x, y)
        case.check(not d, key, lambda: 'step %d of equivalent configurations: %s' % (i, ', '.join(d[:6])))
    case.ok(n=len(la))


def routes(case, nclouds=0):
    """The same values from other places."""
    rng = case.rng
    su = Setup(rng, nclouds, nsec=int(rng.integers(0, 2)))
    for p in su.cl:
        if rng.random() < .5:
            p.update(init_unif_flag=1, N_mp_max=5000, nel_mp_ref_0=p['Nel_init_unif'] / 500.)
    keep = list(MANDATORY['cloud']) + ['s_param', 'E0', 'energy_distribution', 'e_pe_sigma', 'e_pe_max', 'N_mp_max', 'nel_mp_ref_0', 'Nel_init_unif']
    for g in su.given:
        g -= {k for k in g if k not in keep and 'regen' not in k and 'hist_det' not in k and rng.random() < .5}
    names = {'machine_param_file': 'machine_parameters.input', 'secondary_emission_parameters_file': 'secondary_emission_parameters.input', 'beam_parameters_file': 'beam.beam'}
    # file names given in the file of simulation parameters
    A = build(case, su.write(case, 'a'))
    kw = {}
    other = copy.deepcopy(su)
    if rng.random() < .7:
        # other values in the files, overridden
        o = Setup(rng, 0, chamber=su.mach['chamb_type'])
        pool = [k for k in o.cl[0] if k in su.cl[0]] + [k for k in su.sim] + ['betafx', 'betafy', 'Dx', 'Dy']
        for k in pool:
            if rng.random() < .4:
                for mine, its in ((other.cl[0], o.cl[0]), (other.sim, o.sim), (other.mach, o.mach)):
                    if k in mine and k in its:
                        kw[k] = mine[k]
                        mine[k] = its[k]
                        break
        # switches that come together stay consistent through the overrides alone
        case.count('overrides', len(kw))
    route = None
    if rng.random() < .7:
        def route(k, f):
            if k in names or k in ('additional_clouds_file_list', 'secondary_beams_file_list', 'filename_chm'):
                return f
            return str(rng.choice(['sim', 'mach', 'sey']))
    folder = other.write(case, 'b', route=route)
    if rng.random() < .5:
        # the names in the file are of other files, valid ones with other values
        for k, fn in names.items():
            if rng.random() < .6:
                decoy = Setup(rng, 0, chamber=su.mach['chamb_type']).write(case, 'decoy' + k) if route is None else None
                if decoy is None:
                    continue
                os.rename(os.path.join(folder, fn), os.path.join(folder, 'true_' + fn))
                os.rename(os.path.join(decoy, fn), os.path.join(folder, fn))
                kw[k] = 'true_' + fn
    kw['ignored_by_request'] = 1
    B = build(case, folder, ignore_kwargs=['ignored_by_request'], **kw)
    compare(case, A, B, 'routes', 'values in files | from elsewhere', skip=tuple(names), n=1 + len(kw))
    steps(case, A, B, 4)
    case.sample(overrides=len(kw), routed=route is not None)


def inherit(case):
    rng = case.rng
    n = int(rng.integers(1, 3))
    su = Setup(rng, n)
    free = [k for k in su.cl[0] if k not in MANDATORY['cloud'] and k != 'cloud_name']
    groups = [[k for k in free if ('soft' in k)], [k for k in free if 'async' in k], [k for k in free if k.endswith('hist_det')], ['e_pe_sigma', 'e_pe_max', 'energy_distribution']]
    m = copy.deepcopy(su)
    for i in range(n):
        p, q = su.cl[i + 1], m.cl[i + 1]
        f = rng.uniform(.1, .9)
        own = {k for k in free if rng.random() < f}
        for g in groups:
            if own & set(g):
                own |= set(g)
        if p['switch_model'] not in (0, 'ECLOUD') and su.cl[0]['s_param'] is not None:
            own.add('s_param')
        if p['E0'] is None:
            own.add('E0')
        for k in free:
            if k not in own:
                p[k] = copy.deepcopy(su.cl[0][k])
                q[k] = p[k]
        m.given[i] = set(MANDATORY['cloud']) | own
        case.count('inherited', len(free) - len(own))
    A = build(case, su.write(case, 'full'))
    B = build(case, m.write(case, 'min'))
    compare(case, A, B, 'inherit', 'everything in the cloud file | rest inherited', n=n)
    # the main cloud does not see what the others have
    r = copy.deepcopy(m)
    for i in range(n):
        for k in free:
            r.cl[i + 1][k] = copy.deepcopy(su.cl[0][k])
        r.cl[i + 1].update(switch_model='perfect_absorber', s_param=None)
        r.given[i] = set(MANDATORY['cloud']) | {'s_param'}
    C = build(case, r.write(case, 'rest'))
    compare(case, B.cloud_list[0], C.cloud_list[0], 'main-affected', 'main cloud with | without parameters in the other cloud files', skip=('chamb',))
    compare(case, B.config_dict, C.config_dict, 'main-affected', 'main configuration with | without parameters in the other cloud files')


def swap(case):
    """Two clouds exchange roles."""
    rng = case.rng
    su = Setup(rng, 1)
    sw = copy.deepcopy(su)
    a, b = su.cl
    nm = a['cloud_name']
    sw.cl = [dict(b, cloud_name=su.names[0]), {k: v for k, v in a.items() if k != 'cloud_name'}]
    sw.names = [nm]
    A = build(case, su.write(case, 'a'))
    B = build(case, sw.write(case, 'b'))
    for i in (0, 1):
        compare(case, A.cloud_list[i], B.cloud_list[1 - i], 'swap', '%s as %s cloud' % ((nm, 'main | additional') if i == 0 else (su.names[0], 'additional | main')), skip=('flag_last_cloud', 'chamb'))


def regen_low(case):
    """t_ON_regen_low: the lower regeneration is not performed before."""
    rng = case.rng
    late = case.index % 2 == 0
    n = int(rng.integers(20, 200))
    kw = dict(chamb_type='rect', x_aper=.02, y_aper=.02, init_unif_flag=1, Nel_init_unif=n * 1e6, E_init_unif=1e-3, x_max_init_unif=1e-3, x_min_init_unif=-1e-3, y_max_init_unif=1e-3, y_min_init_unif=-1e-3)
    sim = build(case, simgen.write_inputs(case.path('a'), sim=dict(nel_mp_ref_0=1e6, N_mp_regen=10**6, N_mp_regen_low=n + 200, N_mp_after_regen=5 * n, t_ON_regen_low=1. if late else 0., t_sc_ON=1.),
                                         mach=kw, beam=dict(fact_beam=1e3, b_spac=2e-9, filling_pattern_file=[1., 1., 1., 1.])))
    M = sim.cloud_list[0].MP_e
    ref = 2.5e6
    M.set_nel_mp_ref(ref)
    while not sim.beamtim.end_simulation():
        sim.beamtim.next_time_step()
        sim.sim_time_step()
    if late:
        case.check(M.nel_mp_ref == ref, 't_ON_regen_low-ignored', lambda: '%d macroparticles regenerated at the end of a passage at t = %g s although t_ON_regen_low = 1 s' % (n, sim.beamtim.tt_curr))
    else:
        case.check(M.nel_mp_ref < ref, 'N_mp_regen_low', lambda: '%d macroparticles were not regenerated at the end of a passage after t_ON_regen_low (%d)' % (M.N_mp, n + 200))
    case.ok(key='regen-low-%d' % late)


# --- refusals ---------------------------------------------------------------------------------------------------

def typo(rng, s):
    i = int(rng.integers(0, len(s)))
    k = int(rng.integers(0, 4))
    if k == 0:
        t = s[:i] + s[i].swapcase() + s[i + 1:]
    elif k == 1:
        t = s[:i] + s[i + 1:]
    elif k == 2:
        t = s + pick(rng, '1', 's', '0', '_x')
    else:
        t = s[:i] + s[i] + s[i:]
    return t


def reject_cases(rng, su):
    """name -> function(su, files, kw) that spoils the configuration; files are the four contents plus clouds."""
    F = ['sim', 'mach', 'sey', 'beam', 'cloud']
    out = {}

    def unknown(c):
        f = pick(rng, *F)
        names = list(c[f])
        while True:
            t = pick(rng, 'foo', 'N_mp', 'Emax2', 'energy', typo(rng, pick(rng, *names)), typo(rng, pick(rng, *names)), typo(rng, pick(rng, *names)))
            if t.isidentifier() and not t.startswith('_') and t not in ALL and t != 'pi':
                break
        c[f][t] = pick(rng, 1, None, 'a', [1.])
        return '%s in %s' % (t, f)
    out['unknown'] = unknown

    def unknown_kw(c):
        while True:
            t = pick(rng, 'foo', 'sigmaz', 'fact_beam', 'energy_eV', typo(rng, pick(rng, *c['sim'])), typo(rng, pick(rng, *c['mach'])))
            if t.isidentifier() and t not in ALL - BEAM and t not in ('skip_beam', 'spacech_ele'):
                break
        c['kw'][t] = 1
        return t
    out['unknown-override'] = unknown_kw

    def misplaced(c):
        f, k = pick(rng, ('beam', 'Dt'), ('beam', 'del_max'), ('beam', 'N_mp_max'), ('sim', 'sigmaz'), ('mach', 'fact_beam'), ('sey', 'energy_eV'), ('cloud', 'Dt'), ('cloud', 'x_aper'), ('cloud', 'Dh_sc'),
                    ('cloud', 'b_spac'), ('cloud', 't_sc_ON'), ('cloud', 'filen_main_outp'), ('cloud', 'track_method'), ('cloud', 'PyPICmode'), ('beam', 'track_method'), ('cloud', 'B0y'))
        c[f][k] = pick(rng, 1., 2.)
        return '%s in %s' % (k, f)
    out['misplaced'] = misplaced

    def twice(c):
        f, g = [('sim', 'mach'), ('sim', 'sey'), ('mach', 'sey'), ('sey', 'mach'), ('mach', 'sim'), ('sey', 'sim')][int(rng.integers(0, 6))]
        k = pick(rng, *[k for k in c[f] if k not in ('machine_param_file', 'secondary_emission_parameters_file', 'beam_parameters_file')])
        c[g][k] = c[f][k]
        if rng.random() < .5:
            c[pick(rng, f, f, g)][k] = None
        return '%s in %s and %s' % (k, f, g)
    out['twice'] = twice

    def missing(c):
        f = pick(rng, 'sim', 'sim', 'sey', 'beam', 'cloud')
        k = pick(rng, *MANDATORY[f])
        c[f].pop(k, None)
        return '%s of %s' % (k, f)
    out['missing'] = missing

    def option(c):
        f, k, v = pick(rng, ('mach', 'chamb_type', 'square'), ('mach', 'chamb_type', 'Rect'), ('mach', 'track_method', 'boris'), ('mach', 'track_method', 'Leapfrog'), ('sey', 'switch_model', 'ECLUD'), ('sey', 'switch_model', 7),
                       ('sey', 'switch_model', 'ecloud'), ('cloud', 'switch_model', 'ECLOUDS'), ('sey', 'secondary_angle_distribution', 'cosine'), ('cloud', 'secondary_angle_distribution', 'undefined'), ('sim', 'PyPICmode', 'FFT'),
                       ('sim', 'PyPICmode', 'finitedifferences_staircase'), ('sim', 'sparse_solver', 'umfpack'), ('mach', 'photoem_flag', 'per_segments'), ('mach', 'photoem_flag', 7), ('cloud', 'photoem_flag', 9),
                       ('beam', 'beam_field_file', 'compute_FD'), ('sim', 'save_mat_every', 7))
        if f == 'cloud' and k == 'secondary_angle_distribution':
            c[f]['switch_model'] = 'ECLOUD'
        if f == 'sey' and k == 'secondary_angle_distribution' and c['sey']['switch_model'] == 'perfect_absorber':
            c['sey'].update(switch_model=0)
        c[f][k] = v
        return '%s=%r in %s' % (k, v, f)
    out['option'] = option

    def incomplete(c):
        n = pick(rng, 'sigmax', 'sigmay', 'Dh_beam_field', 'sigmaz', 'x_aper', 'filename_chm', 'soft', 'async', 'after_soft', 'after_async', 'lifetime', 'checkpoint', 'hist_det', 'hist_det2', 'fp', 'sey_file', 'gas', 'gas_cloud', 'phem',
                 'phem_cloud', 'Nel', 'edens', 'bm_totlen', 'del_max', 'telescope', 'BE', 'energy', 'prof', 'copy')
        u = {}
        if n in ('sigmax', 'sigmay'):
            c['beam'][n] = -1
            k = pick(rng, 'nemitt', 'betaf')
            (c['beam'] if k == 'nemitt' else c['mach']).pop(k + n[-1])
            u = k
        elif n in ('Dh_beam_field', 'sigmaz'):
            c['beam'].pop(n)
        elif n == 'x_aper':
            c['mach'].update(chamb_type=pick(rng, 'rect', 'ellip'))
            c['mach'].pop(pick(rng, 'x_aper', 'y_aper'), None)
        elif n == 'filename_chm':
            c['mach'].update(chamb_type='polyg')
            c['mach'].pop('filename_chm', None)
        elif n in ('soft', 'async', 'after_soft', 'after_async'):
            w = n.split('_')[-1]
            f = pick(rng, 'sim', 'cloud')
            c[f].update({'N_mp_%s_regen' % w: 100, 'N_mp_after_%s_regen' % w: 50})
            c[f]['N_mp_%s_regen' % n] = None
            u = f
        elif n == 'lifetime':
            f = pick(rng, 'sim', 'cloud')
            c[f].update(flag_lifetime_hist=True, Nbin_lifetime_hist=10, lifetime_hist_max=1e-8, Dt_lifetime_hist=1e-9)
            c['mach'].pop('flag_lifetime_hist', None)
            for k in ('Nbin_lifetime_hist', 'lifetime_hist_max', 'Dt_lifetime_hist'):
                c['mach'].pop(k, None)
            c[f][pick(rng, 'Nbin_lifetime_hist', 'lifetime_hist_max', 'Dt_lifetime_hist')] = None
            u = f
        elif n == 'checkpoint':
            c['sim'].update(checkpoint_DT=1e-9, checkpoint_folder=None)
        elif n == 'copy':
            c['sim'].update(copy_main_outp_DT=1e-9, copy_main_outp_folder=None)
        elif n in ('hist_det', 'hist_det2'):
            d = dict(x_min_hist_det=-1e-3, y_min_hist_det=-1e-3, x_max_hist_det=1e-3, y_max_hist_det=1e-3, Dx_hist_det=1e-4)
            d['x_min_hist_det' if n == 'hist_det2' else pick(rng, *[k for k in d if k != 'x_min_hist_det'])] = None
            for k in d:
                c['mach'].pop(k, None)
            c['sim'].update(d)
        elif n == 'fp':
            c['sey'].update(switch_model='furman_pivi', furman_pivi_surface=None, s_param=None, E0=None)
        elif n == 'sey_file':
            c['sey'].update(switch_model='from_file', sey_file=pick(rng, None, 'nothere.mat'), s_param=None, E0=None)
        elif n in ('gas', 'gas_cloud'):
            c['mach']['gas_ion_flag'] = 1
            k = pick(rng, 'P_nTorr', 'sigma_ion_MBarn', 'Temp_K', 'unif_frac', 'E_init_ion')
            c['mach'].pop(k)
            if n == 'gas_cloud':
                c['mach']['gas_ion_flag'] = 0
                c['cloud']['gas_ion_flag'] = 1
                c['cloud'].pop(k, None)
            u = k
        elif n in ('phem', 'phem_cloud'):
            v = pick(rng, 1, 2)
            k = pick(rng, 'k_pe_st', 'out_radius', 'photoelectron_angle_distribution', *(['refl_frac', 'alimit'] if v == 1 else []))
            c['mach']['photoem_flag'] = v if n == 'phem' else 0
            c['cloud']['photoem_flag'] = v if n != 'phem' else 0
            c['mach'].pop(k)
            c['cloud'].pop(k, None)
            u = (v, k)
        elif n == 'Nel':
            c['mach'].update(init_unif_flag=1, Nel_init_unif=None)
        elif n == 'edens':
            c['mach'].update(init_unif_edens_flag=1, init_unif_edens=None)
        elif n == 'bm_totlen':
            c['mach'].update(track_method='StrongBdip', B=-1)
            c['clouds'] = False
            c['sim'].update(cloud_charge=-QE, cloud_mass=ME)
        elif n == 'del_max':
            c['sey'].update(switch_model=0, s_param=None)
            c['sey'].pop(pick(rng, 'del_max', 'R0', 'Emax'))
            c['sim']['extract_sey'] = True
        elif n == 'telescope':
            c['sim']['PyPICmode'] = 'ShortleyWeller_WithTelescopicGrids'
        elif n == 'BE':
            c['beam']['beam_field_file'] = 'computeBE'
            c['beam'].update(Nx=20, Ny=20, nimag=2)
            if c['mach']['chamb_type'] == 'ellip':
                c['beam'].pop(pick(rng, 'Nx', 'Ny', 'nimag'))
        elif n == 'energy':
            c['beam'].update(energy_eV=float(c['beam']['m0_part'] * simgen.CLIGHT**2 / QE * rng.uniform(.01, .99)))
            if rng.random() < .5:
                c['beam'].update(sigmax=1e-3, sigmay=1e-3)
        elif n == 'prof':
            c['beam'].update(flag_bunched_beam=0, beam_long_prof_file=None)
        return '%s %s' % (n, u or '')
    out['incomplete'] = incomplete

    def conflict(c):
        n = pick(rng, 's_param', 's_param_cloud', 'fft', 'em', 'em_strong', 'strong_ion', 'strong_reinterp', 'names', 'names2', 'beam_out', 'nunif', 'BE', 'state_twice', 'no_increase', 'circle', 'cross')
        if n == 's_param':
            c['sey'].update(switch_model=pick(rng, 'ACC_LOW', 'cos_low_ene', 'flat_low_ene', 'from_file', 'furman_pivi'), s_param=1.3, E0=None)
        elif n == 's_param_cloud':
            c['cloud'].update(switch_model=pick(rng, 'ACC_LOW', 'cos_low_ene', 'flat_low_ene', 'from_file', 'furman_pivi'), s_param=1.3, E0=None)
        elif n == 'fft':
            c['sim']['PyPICmode'] = pick(rng, 'FFT_PEC_Boundary', 'FFT_PEC_Boundary')
            c['mach'].update(chamb_type='ellip', x_aper=.02, y_aper=.02)
        elif n == 'em':
            c['sim']['flag_em_tracking'] = True
            c['mach'].update(track_method='Boris')
        elif n == 'em_strong':
            c['sim'].update(flag_em_tracking=True, cloud_charge=-QE, cloud_mass=ME)
            c['mach'].update(track_method=pick(rng, 'StrongBdip', 'StrongBgen'), B=.1, B0x=0., B0y=.1, B_zero_thrhld=1e-6)
            c['clouds'] = False
        elif n == 'strong_ion':
            c['mach'].update(track_method=pick(rng, 'StrongBdip', 'StrongBgen'), B=.1, B0x=0., B0y=.1, B_zero_thrhld=1e-6)
            if rng.random() < .5:
                c['sim'].update(cloud_charge=-QE, cloud_mass=ME)
                c['cloud'].update(cloud_charge=QE, cloud_mass=28 * U)
            else:
                c['clouds'] = False
                c['sim'].update(cloud_charge=pick(rng, QE, -QE), cloud_mass=18 * U)
        elif n == 'strong_reinterp':
            c['clouds'] = False
            c['sim'].update(cloud_charge=-QE, cloud_mass=ME, flag_reinterp_fields_at_substeps=True)
            c['mach'].update(track_method=pick(rng, 'StrongBdip', 'StrongBgen'), B=.1, B0x=0., B0y=.1, B_zero_thrhld=1e-6)
        elif n == 'names':
            c['sim']['cloud_name'] = 'cloud1'
        elif n == 'names2':
            c['sim']['additional_clouds_file_list'] = ['cloud1.cloud', 'cloud1.cloud']
        elif n == 'beam_out':
            c['beam'].update(x_beam_pos=.3)
        elif n == 'nunif':
            c['sey'].update(switch_model=pick(rng, 'ECLOUD_nunif', 'ECLOUD_nunif_charging'), s_param=None)
        elif n == 'BE':
            c['mach'].update(chamb_type='rect', x_aper=.02, y_aper=.02)
            c['beam'].update(beam_field_file='computeBE', Nx=20, Ny=20, nimag=2)
        elif n == 'state_twice':
            c['beam'].update(b_spac=2.5e-9)
            c['sim'].update(save_mat_every=1000)
        elif n == 'no_increase':
            c['sey'].update(switch_model=0, s_param=None, switch_no_increase_energy=1, thresh_low_energy=20.)
            c['mach'].update(init_unif_flag=1, Nel_init_unif=1e8, E_init_unif=3e4, x_max_init_unif=None, x_min_init_unif=None, y_max_init_unif=None, y_min_init_unif=None)
            c['sim'].update(nel_mp_ref_0=1e5, cloud_charge=-QE, cloud_mass=ME, N_mp_max=5000)
        elif n == 'circle':
            c['mach'].update(photoem_flag=pick(rng, 1, 2), out_radius=float(rng.uniform(2e-3, 8e-3)))
        elif n == 'cross':
            c['sim']['cross_ion_definitions'] = {pick(rng, 'nobody', c['sim']['cloud_name']): {'H2': dict(target_density=1e15, products=['nobody'], thermal_energy_eV=[.1], cross_section='x.mat')}}
        return n
    out['conflict'] = conflict
    return out


BEAM = {'energy_eV', 'beam_field_file', 'b_spac', 'fact_beam', 'flag_bunched_beam', 't_offs', 'filling_pattern_file', 'nemittx', 'nemitty', 'Nx', 'Ny', 'nimag', 'Dh_beam_field',
        'f_telescope_beam', 'target_grid_beam', 'N_nodes_discard_beam', 'N_min_Dh_main_beam', 'sigmaz', 'beam_long_prof_file'} | set(DEFAULTS_BEAM) - {'Dx', 'Dy', 'betafx', 'betafy'}
ALL = BEAM | set(DEFAULTS) | set(DEFAULTS_MACH) | set(DEFAULTS_SEY) | {k for v in MANDATORY.values() for k in v} | SIM_C | SEY_C | set(cloud_params(np.random.default_rng(0), True)) | {
    'chamb_type', 'x_aper', 'y_aper', 'filename_chm', 'track_method', 'B', 'bm_totlen', 'B0x', 'B0y', 'B0z', 'B_zero_thrhld', 'B_multip', 'B_skew', 'betafx', 'betafy', 'filen_main_outp', 'flag_hist_impact_seg'}


def reject(case, kind=None):
    rng = case.rng
    su = Setup(rng, 1, chamber=pick(rng, 'rect', 'ellip'))
    su.cl[0].update(photoem_flag=0)
    su.cl[1].update(photoem_flag=0)
    # the additional cloud has the same as the main one where parameters are taken out
    base = su.write(case, 'control')
    A = build(case, base)
    del A
    c = {'sim': dict(simgen.SIM), 'mach': dict(simgen.MACH), 'sey': dict(simgen.SEY), 'beam': dict(simgen.BEAM), 'cloud': {k: su.cl[1][k] for k in su.given[0]}, 'kw': {}, 'clouds': True}
    c['sim'].update(su.sim, additional_clouds_file_list=['cloud1.cloud'])
    c['mach'].update(su.mach)
    c['beam'].update(su.beam)
    c['sim'].update({k: v for k, v in su.cl[0].items() if k in SIM_C})
    c['sey'].update({k: v for k, v in su.cl[0].items() if k in SEY_C})
    c['mach'].update({k: v for k, v in su.cl[0].items() if k not in SIM_C and k not in SEY_C})
    for k, v in su.cl[0].items():
        f = 'sim' if k in SIM_C else 'sey' if k in SEY_C else 'mach'
        for g in ('sim', 'mach', 'sey'):
            if g != f:
                c[g].pop(k, None)
    for f in c:
        if isinstance(c[f], dict):
            c[f] = {k: copy.deepcopy(v) for k, v in c[f].items() if v is not DROP}
    seen = set()
    for f in ('mach', 'sey', 'sim'):
        for k in list(c[f]):
            if k in seen:
                c[f].pop(k)
            seen.add(k)
    tab = reject_cases(rng, su)
    kind = kind or pick(rng, *tab)
    what = tab[kind](c)
    folder = case.path('bad')
    os.makedirs(folder)
    import scipy.io as sio
    for fn, d in su.files.items():
        sio.savemat(os.path.join(folder, fn), d, oned_as='row')
    if not c['clouds']:
        c['sim']['additional_clouds_file_list'] = []
    for f, fn in (('sim', 'simulation_parameters.input'), ('mach', 'machine_parameters.input'), ('sey', 'secondary_emission_parameters.input'), ('beam', 'beam.beam'), ('cloud', 'cloud1.cloud')):
        d = c[f]
        names = sorted(d)
        rng.shuffle(names)
        simgen.write_file(os.path.join(folder, fn), {k: d[k] for k in names})
    err = None
    os.chdir(folder)
    case.reseed()
    try:
        sim = simgen.build('./', **c['kw'])
        # options that are read when they are first used
        for _ in range(6):
            sim.beamtim.next_time_step()
            sim.sim_time_step()
    except Exception as e:
        err = e
    finally:
        os.chdir(case.path())
    left = [f for f in os.listdir(folder) if f.endswith('.pyc') or f == '__pycache__']
    case.check(not left, 'leftovers', lambda: 'left in the input folder: %s' % left)
    case.check(err is not None, 'accepted-%s-%s' % (kind, what.split(' ')[0] if kind in ('incomplete', 'conflict') else 'any'), lambda: '%s: %s was accepted' % (kind, what))
    case.ok(key='%s: %s' % (kind, type(err).__name__))
    case.sample(kind=kind, what=what, error=str(err)[:80])


def tasks(tier):
    f = 1 if tier == 'quick' else 40
    t = [Task(apply, 14 * f, 'apply-main', min_ok=500, nclouds=0), Task(apply, 14 * f, 'apply-clouds', min_ok=500, nclouds=2), Task(apply, 8 * f, 'apply-beams', min_ok=300, nclouds=0, nsec=2),
         Task(edens, 6 * f, 'edens', min_ok=20), Task(defaults, 14 * f, 'defaults', min_ok=100), Task(routes, 14 * f, 'routes', min_ok=30), Task(routes, 10 * f, 'routes-clouds', min_ok=30, nclouds=2),
         Task(inherit, 14 * f, 'inherit', min_ok=20), Task(swap, 16 * f, 'swap', min_ok=20)]
    t.append(Task(regen_low, 6 * f, 'regen-low', min_ok=4))
    for k, n in (('unknown', 16), ('unknown-override', 8), ('misplaced', 10), ('twice', 12), ('missing', 30), ('option', 24), ('incomplete', 70), ('conflict', 36)):
        t.append(Task(reject, n * f, 'reject-' + k, min_ok=n * 3 // 4, kind=k))
    return t
