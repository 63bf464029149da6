"""Reference emission yields, written from the documented formulas, one impact at a time in extended form (no shortcuts)."""
import numpy as np


def _reflected(E, R0, E0):
    a, b = np.sqrt(E), np.sqrt(E + E0)
    return R0 * ((a - b) / (a + b))**2


def _true(E, c, dm, Em, s, scale=True, shift=True):
    d = dm * np.exp((1 - c) / 2) if scale else dm
    e = Em * (1 + .7 * (1 - c)) if shift else Em
    x = E / e
    return d * s * x / (s - 1 + x**s)


class YieldRef:
    """p: the parameters of the emission file, chamber: the chamber dictionary."""

    def __init__(self, p, chamber=None, tab=None):
        self.p, self.chamber, self.tab = p, chamber, tab
        m = p.get('switch_model', 0)
        self.model = {0: 'ECLOUD', 1: 'ACC_LOW'}.get(m, m)
        self.event_based = self.model == 'furman_pivi'

    def segs(self, name, iseg):
        key = {'Emax': 'Emax_segments', 'del_max': 'del_max_segments', 'R0': 'R0_segments'}[name]
        if self.model in ('ECLOUD_nunif', 'ECLOUD_nunif_charging'):
            v = np.asarray(self.chamber[key], float)[iseg]
            return np.where(v < 0, self.p[name], v)
        return self.p[name]

    def parts(self, E, c, iseg=None, Q=None):
        """(true, elastic) for the yield based models."""
        E, c = np.asarray(E, float), np.asarray(c, float)
        p, m = self.p, self.model
        if m == 'perfect_absorber':
            return 0 * E, 0 * E
        if m == 'from_file':
            t = self.tab

            def curve(e, k):
                v = np.interp(e, t['energy_eV'], t['sey_' + k])
                return np.where(e > t['energy_eV'][-1], t['extrapolate_const_' + k] + t['extrapolate_grad_' + k] * e, v)
            e = E / (1 + .7 * (1 - c)) if p.get('flag_costheta_Emax_shift', True) else E
            true, el = curve(e, 'true'), curve(E, 'elast')
            if p.get('flag_costheta_delta_scale', True):
                true = true * np.exp((1 - c) / 2)
            return np.where(true < 1e-10, 0, true), np.where(el < 1e-10, 0, el)
        Em, dm, R0 = self.segs('Emax', iseg), self.segs('del_max', iseg), self.segs('R0', iseg)
        if m == 'ECLOUD':
            true = _true(E, c, dm, Em, p.get('s_param') or 1.35, p.get('flag_costheta_delta_scale', True), p.get('flag_costheta_Emax_shift', True))
            return true, _reflected(E, R0, p.get('E0') or 150.)
        if m in ('ECLOUD_nunif', 'ECLOUD_nunif_charging', 'ACC_LOW'):
            return _true(E, c, dm, Em, 1.35), _reflected(E, R0, p.get('E0') or 150.)
        if m == 'cos_low_ene':
            E0 = p.get('E0') or 30.
            return _true(E, c, dm, Em, 1.35), np.where(E < E0, R0 * np.cos(np.pi * E / E0 / 2)**2, 0.)
        if m == 'flat_low_ene':
            t = _true(E, c, dm, Em, 1.35)
            return t, np.where((t < R0) & (E < Em), R0 - t, 0.)
        raise KeyError(m)

    def emitted(self, E, c, iseg=None, Q=None):
        """(probability of elastic reflection, emitted charge per impacting charge if elastic, same if true secondary)."""
        t, r = self.parts(E, c, iseg)
        if self.model == 'ACC_LOW':
            return r, np.ones_like(t), t / (1 - r)
        d = t + r
        frac = np.where(d > 0, r / np.where(d > 0, d, 1), 0.)
        if self.model == 'ECLOUD_nunif_charging':
            ch = self.chamber
            on = np.asarray(ch['flag_charging'])[iseg] > 0
            qm, eq = np.asarray(ch['Q_max_segments'], float)[iseg], np.asarray(ch['EQ_segments'], float)[iseg]
            x = np.clip(np.asarray(Q)[iseg], 0, qm) / qm
            d = np.where(on, d * (1 - x) + (1 - np.exp(-np.asarray(E) / eq)) * x, d)
        return frac, d, d

    def furman_pivi(self, E, c):
        s = self.p['furman_pivi_surface']
        scale, shift = self.p.get('flag_costheta_delta_scale', True), self.p.get('flag_costheta_Emax_shift', True)
        ecl = s['use_ECLOUD_theta0_dependence']

        def clip(th):
            return np.clip(c, np.cos(th) if th is not None else 0., 1.)
        de = s['p1EInf'] + (s['p1Ehat'] - s['p1EInf']) * np.exp(-(abs(E - s['eEHat']) / s['w'])**s['p'] / s['p'])
        dr = s['p1RInf'] * (1 - np.exp(-(E / s['eR'])**s['r']))
        t3, t4 = (.7, 1.) if ecl else (s['t3'], s['t4'])
        eh = s['eHat0'] * (1 + t3 * (1 - c**t4)) if shift else s['eHat0']
        x = E / eh
        dts = s['deltaTSHat'] * s['s'] * x / (s['s'] - 1 + x**s['s'])
        if scale:
            if not ecl:
                de = de * (1 + s['e1'] * (1 - clip(s.get('theta_e_max'))**s['e2']))
            dr = dr * (1 + s['r1'] * (1 - clip(s.get('theta_r_max'))**s['r2']))
            dts = dts * (np.exp((1 - c) / 2) if ecl else 1 + s['t1'] * (1 - c**s['t2']))
        if s['exclude_rediffused']:
            dr = 0 * dr
        return de, dr, dts
