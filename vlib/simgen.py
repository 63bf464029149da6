"""Writes PyECLOUD input folders and builds simulations from them (the public way in)."""
import os
import numpy as np
import scipy.io as sio

QE = 1.602176634e-19
ME = 9.1093837015e-31
CLIGHT = 299792458.
EPS0 = 8.8541878128e-12

SIM = dict(
    machine_param_file='machine_parameters.input',
    secondary_emission_parameters_file='secondary_emission_parameters.input',
    beam_parameters_file='beam.beam',
    logfile_path=None, progress_path=None, stopfile='stop',
    Dt=5e-11, t_end=1e-10, lam_th=1e2, Dx_hist=1e-3, r_center=1e-3,
    Dt_En_hist=2.5e-9, Nbin_En_hist=50, En_hist_max=2000., t_ion=100.,
    N_mp_max=80000, N_mp_regen=15000, N_mp_regen_low=0, N_mp_after_regen=500, t_ON_regen_low=10.,
    fact_split=1.5, fact_clean=1e-6, regen_hist_cut=1e-4, nel_mp_ref_0=1e5,
    Nx_regen=21, Ny_regen=21, Nvx_regen=21, Nvy_regen=21, Nvz_regen=21,
    Dt_sc=2e-10, Dh_sc=2e-3, t_sc_ON=0., sparse_solver='PyKLU',
    extract_sey=False, flag_hist_impact_seg=0,
)
MACH = dict(
    chamb_type='rect', x_aper=2.2e-2, y_aper=1.8e-2, track_method='Boris', N_sub_steps=2,
    B0x=0., B0y=0.02, B0z=0., B_map_file=None,
    betafx=85., betafy=90.,
    init_unif_flag=1, Nel_init_unif=1e8, E_init_unif=50.,
)
SEY = dict(
    Emax=332., del_max=1.7, R0=0.7, switch_model=0, E_th=35., sigmafit=1.0828, mufit=1.6636,
    switch_no_increase_energy=0, thresh_low_energy=-1, scrub_en_th=20., secondary_angle_distribution='cosine_3D',
)
BEAM = dict(
    energy_eV=4.5e11, nemittx=2.5e-6, nemitty=2.5e-6, Dp_p=0., beam_field_file='computeFD', Dh_beam_field=1e-3,
    b_spac=2.5e-9, fact_beam=2.5e11, coast_dens=0., flag_bunched_beam=1, sigmaz=0.06, t_offs=1e-9,
    filling_pattern_file=[1., 1., 0., 1.], beam_long_prof_file=-1,
)


class _Drop:
    def __deepcopy__(self, memo):
        return self


DROP = _Drop()

CLOUD_ION = dict(cloud_mass=18 * 1.6605e-27, cloud_charge=QE, gas_ion_flag=0, photoem_flag=0, init_unif_flag=1,
                 init_unif_edens_flag=0, switch_model='perfect_absorber', Nel_init_unif=5e7, E_init_unif=0.1)


def merge(base, over):
    d = dict(base)
    for k, v in (over or {}).items():
        if v is DROP:
            d.pop(k, None)
        else:
            d[k] = v
    return d


def write_file(fn, d):
    with open(fn, 'w') as f:
        for k, v in d.items():
            if isinstance(v, np.ndarray):
                v = v.tolist()
            elif isinstance(v, np.generic):
                v = v.item()
            f.write('%s = %r\n' % (k, v))


def write_inputs(folder, sim=None, mach=None, sey=None, beam=None, sec_beams=(), clouds=None, chamber=None, default_beam=True):
    os.makedirs(folder, exist_ok=True)
    s, m, e, b = merge(SIM, sim), merge(MACH, mach), merge(SEY, sey), merge(BEAM, beam)
    names = []
    for i, sb in enumerate(sec_beams):
        fn = 'beam%d.beam' % (i + 2)
        write_file(os.path.join(folder, fn), merge(b, sb))
        names.append(fn)
    if names:
        s['secondary_beams_file_list'] = names
    cn = []
    for name, cd in (clouds or {}).items():
        write_file(os.path.join(folder, name + '.cloud'), cd)
        cn.append(name + '.cloud')
    if cn:
        s['additional_clouds_file_list'] = cn
    if chamber is not None:
        sio.savemat(os.path.join(folder, 'chamber.mat'), chamber, oned_as='row')
        m['filename_chm'] = 'chamber.mat'
    write_file(os.path.join(folder, 'simulation_parameters.input'), s)
    write_file(os.path.join(folder, 'machine_parameters.input'), m)
    write_file(os.path.join(folder, 'secondary_emission_parameters.input'), e)
    write_file(os.path.join(folder, 'beam.beam'), b)
    return folder


def build(folder, **kw):
    from PyECLOUD.buildup_simulation import BuildupSimulation
    return BuildupSimulation(pyecl_input_folder=folder, **kw)


def make_sim(case, name='sim', kw=None, **over):
    folder = write_inputs(case.path(name), **over)
    kw = dict(kw or {})
    if 'skip_pyeclsaver' not in kw and 'filen_main_outp' not in kw:
        kw['filen_main_outp'] = os.path.join(folder, 'Pyecltest.mat')
    case.reseed()
    return build(folder, **kw)


# --- chambers ---------------------------------------------------------------------------------------------------

def poly_dict(Vx, Vy, insc=None, **extra):
    Vx, Vy = np.asarray(Vx, float), np.asarray(Vy, float)
    if insc is None:
        insc = inscribed(Vx, Vy)
    d = dict(Vx=Vx, Vy=Vy, x_sem_ellip_insc=insc[0], y_sem_ellip_insc=insc[1])
    d.update(extra)
    return d


def inscribed(Vx, Vy, shrink=0.98):
    """Half axes of an ellipse centred in the origin that lies inside the polygon (tiny if the origin is outside)."""
    X, Y = np.append(Vx, Vx[0]), np.append(Vy, Vy[0])
    # distance of every edge from the origin (scaled isotropic circle)
    dmin = 1e9
    for i in range(len(Vx)):
        a, b = np.array([X[i], Y[i]]), np.array([X[i + 1], Y[i + 1]])
        t = np.clip(-np.dot(a, b - a) / np.dot(b - a, b - a), 0, 1)
        dmin = min(dmin, np.hypot(*(a + t * (b - a))))
    from .geomref import PolyRef
    if not PolyRef(Vx, Vy).inside_one(0., 0.):
        return 1e-9, 1e-9
    return shrink * dmin, shrink * dmin


def rand_convex(rng, n=None, ax=None, ay=None):
    n = n or int(rng.integers(3, 14))
    ax = ax or rng.uniform(5e-3, 4e-2)
    ay = ay or rng.uniform(5e-3, 4e-2)
    while True:
        th = np.sort(rng.uniform(0, 2 * np.pi, n))
        gaps = np.diff(np.append(th, th[0] + 2 * np.pi))
        if gaps.max() < 2.8 and gaps.min() > 0.05:
            break
    return ax * np.cos(th), ay * np.sin(th)


def rand_nonconvex(rng, n=None, ax=None, ay=None):
    """Star-shaped around the origin, usually not convex."""
    n = n or int(rng.integers(6, 18))
    ax = ax or rng.uniform(1e-2, 4e-2)
    ay = ay or rng.uniform(1e-2, 4e-2)
    th = np.linspace(0, 2 * np.pi, n, endpoint=False) + rng.uniform(-.3, .3, n) * 2 * np.pi / n / 2
    r = rng.uniform(0.35, 1., n)
    return ax * r * np.cos(th), ay * r * np.sin(th)


def lhc_like():
    """Rect-ellipse beam screen."""
    th = np.linspace(0, 2 * np.pi, 41)[:-1]
    x, y = 2.3e-2 * np.cos(th), 2.3e-2 * np.sin(th)
    return x, np.clip(y, -1.8e-2, 1.8e-2) + 1e-9 * np.sin(3 * th) * 0
