"""Independent static fields: Bassetti-Erskine in free space and line charges in arbitrary conducting chambers (fit of an
analytic image field to zero tangential field on the wall, with poles clustered towards the corners)."""
import numpy as np
from scipy.special import wofz

EPS0 = 8.854187817620e-12


def gauss_free(x, y, sx, sy):
    """Field of a unit-charge-per-metre Gaussian (1 C/m)."""
    x, y = np.asarray(x, float), np.asarray(y, float)
    if abs(sx - sy) < 1e-4 * max(sx, sy):
        s2 = sx * sy
        r2 = x * x + y * y
        with np.errstate(all='ignore'):
            f = np.where(r2 > 1e-8 * s2, -np.expm1(-r2 / (2 * s2)) / np.where(r2 > 0, r2, 1), 1 / (2 * s2))
        return f * x / (2 * np.pi * EPS0), f * y / (2 * np.pi * EPS0)
    if sx < sy:
        ey, ex = gauss_free(y, x, sy, sx)
        return ex, ey
    S = np.sqrt(2 * (sx * sx - sy * sy))
    ax, ay = np.abs(x), np.abs(y)
    w = wofz((ax + 1j * ay) / S) - np.exp(-ax**2 / (2 * sx**2) - ay**2 / (2 * sy**2)) * wofz((ax * sy / sx + 1j * ay * sx / sy) / S)
    f = 1 / (2 * EPS0 * np.sqrt(np.pi) * S)
    return f * w.imag * np.sign(x), f * w.real * np.sign(y)


def line_free(x, y):
    r2 = x * x + y * y
    return x / r2 / (2 * np.pi * EPS0), y / r2 / (2 * np.pi * EPS0)


class Conductor:
    """Image fields inside a grounded chamber given by a reference shape (geomref)."""

    def __init__(self, ref):
        self.ref = ref
        if ref.kind == 'ellip':
            n = 700
            th = (np.arange(n) + .5) / n * 2 * np.pi
            self.w = ref.a * np.cos(th) + 1j * ref.b * np.sin(th)
            t = -ref.a * np.sin(th) + 1j * ref.b * np.cos(th)
            self.t, self.ds = t / np.abs(t), np.abs(t)
            poles = []
            for f in (1.15, 1.4):
                tp = np.arange(60) / 60 * 2 * np.pi
                # push along the outward normal by a fraction of the local radius of curvature and of the size
                m = min(ref.a, ref.b)
                p = ref.a * np.cos(tp) + 1j * ref.b * np.sin(tp)
                nn = np.cos(tp) / ref.a + 1j * np.sin(tp) / ref.b
                poles.append(p + (f - 1) * m * nn / np.abs(nn))
            self.poles = np.concatenate(poles)
            self.scale = max(ref.a, ref.b)
            self.c = 0
        else:
            V = ref.X + 1j * ref.Y
            if ref_orient(V) < 0:
                V = V[::-1]
            n = len(V)
            L = np.abs(np.roll(V, -1) - V)
            tot = L.sum()
            w, t, ds, poles = [], [], [], []
            for i in range(n):
                a, b = V[i], V[(i + 1) % n]
                m, nu = 60, max(10, int(np.ceil(300 * L[i] / tot)))
                # points clustered to both ends
                u = .5 * (1 + np.tanh(np.linspace(-6.5, 6.5, m)))
                u = np.concatenate((u, (np.arange(nu) + .5) / nu))
                u.sort()
                w.append(a + (b - a) * u)
                t.append(np.full(len(u), (b - a) / abs(b - a)))
                g = np.gradient(u)
                ds.append(g * abs(b - a))
                # poles at the corner V[i]
                p = V[i - 1]
                d1, d2 = (a - p) / abs(a - p), (b - a) / abs(b - a)
                turn = np.angle(d2 / d1)
                if abs(turn) < 1e-6:
                    continue
                out = (d1 - d2)
                out = out / abs(out) * (1 if turn > 0 else -1)
                k = 10 if abs(turn) < .5 else 18
                s = .9 * min(L[i], L[i - 1]) if abs(turn) > .5 else .9 * min(L[i], L[i - 1])
                s = max(s, 1e-3 * tot)
                poles.append(a + s * np.exp(-4. * (np.sqrt(k) - np.sqrt(np.arange(1, k + 1)))) * out)
                # offset charges beyond the middle of the side
            for i in range(n):
                a, b = V[i], V[(i + 1) % n]
                q = max(1, int(8 * L[i] / tot * 4))
                for u in (np.arange(q) + .5) / q:
                    poles.append(np.array([a + (b - a) * u - 1j * (b - a) / abs(b - a) * L[i] / q * 1.]))
            self.w, self.t, self.ds = np.concatenate(w), np.concatenate(t), np.concatenate(ds)
            self.c = V.mean()
            self.scale = np.abs(V - self.c).max()
            P = np.concatenate(poles)
            # only poles truly outside
            m = ~ref.inside(P.real, P.imag) & (ref.dist(P.real, P.imag) > 1e-9 * self.scale)
            # and not closer to the wall than the wall is sampled there
            D = np.abs(P[:, None] - self.w)
            k = D.argmin(1)
            m &= D[np.arange(len(P)), k] > 1.2 * self.ds[k]
            self.poles = P[m]
        self.npoly = 24
        A = self._basis(self.w)
        # real least squares for Re(f t) = rhs, f = sum c_k basis
        At = A * self.t[:, None]
        wt = np.sqrt(np.maximum(self.ds, 1e-12 * self.scale))
        self.M = np.concatenate((At.real, -At.imag), axis=1) * wt[:, None]
        self.wt = wt
        cn = np.sqrt((self.M**2).sum(0))
        self.cn = np.where(cn > 0, cn, 1)
        u, s, vt = np.linalg.svd(self.M / self.cn, full_matrices=False)
        keep = s > 1e-11 * s[0]
        self.inv = (vt[keep].T / s[keep]) @ u[:, keep].T

    def _basis(self, z):
        zz = (z - self.c) / self.scale
        poly = zz[:, None]**np.arange(self.npoly)
        return np.concatenate((self.scale / (z[:, None] - self.poles), poly), axis=1)

    def images(self, free):
        """free: function (x, y) -> field of the sources. Returns the function giving the image field and the relative residual on the wall."""
        ex, ey = free(self.w.real, self.w.imag)
        rhs = -((ex - 1j * ey) * self.t).real
        norm = np.abs(ex + 1j * ey).max()
        c = self.inv @ (rhs * self.wt) / self.cn
        n = len(c) // 2
        coef = c[:n] + 1j * c[n:]
        # judge on the wall, weighted by length
        f = self._basis(self.w) @ coef
        res = (f * self.t).real - rhs
        rel = np.sqrt((res**2 * self.ds).sum() / self.ds.sum()) / norm

        def image(x, y):
            z = np.asarray(x, float) + 1j * np.asarray(y, float)
            f = self._basis(z.ravel()) @ coef
            return f.real.reshape(z.shape), -f.imag.reshape(z.shape)
        return image, rel


def ref_orient(V):
    return np.sum(V.real * np.roll(V.imag, -1) - np.roll(V.real, -1) * V.imag)


def beam_in_chamber(ref, x0, y0, sx, sy, cond=None):
    """Function (x, y) -> field of a unit line charge Gaussian beam in the grounded chamber, and wall residual."""
    cond = cond or Conductor(ref)

    def free(x, y):
        return gauss_free(np.asarray(x) - x0, np.asarray(y) - y0, sx, sy)
    image, rel = cond.images(free)

    def field(x, y):
        a, b = free(x, y)
        c, d = image(x, y)
        return a + c, b + d
    ex, ey = free(cond.w.real, cond.w.imag)
    field.err = 10 * rel * float(np.hypot(ex, ey).max())  # uncertainty of the reference itself
    return field, rel
