"""Independent chamber geometry (plain numpy, no shortcuts) used as the oracle."""
import numpy as np


class PolyRef:
    kind = 'poly'

    def __init__(self, Vx, Vy):
        self.X, self.Y = np.asarray(Vx, float), np.asarray(Vy, float)
        self.X2, self.Y2 = np.roll(self.X, -1), np.roll(self.Y, -1)
        self.scale = max(np.max(np.abs(self.X)), np.max(np.abs(self.Y)))
        self.area = 0.5 * np.sum(self.X * self.Y2 - self.X2 * self.Y)
        L = np.hypot(self.X2 - self.X, self.Y2 - self.Y)
        self.L = L
        # inward normals for counter-clockwise order
        self.Nx, self.Ny = -(self.Y2 - self.Y) / L, (self.X2 - self.X) / L

    def bbox(self):
        return float(np.min(self.X)), float(np.max(self.X)), float(np.min(self.Y)), float(np.max(self.Y))

    def inside(self, x, y):
        """Winding number (not the crossing-number or half-plane rule the code uses)."""
        x, y = np.atleast_1d(np.asarray(x, float)), np.atleast_1d(np.asarray(y, float))
        w = np.zeros(x.shape, int)
        for i in range(len(self.X)):
            isl = (self.X2[i] - self.X[i]) * (y - self.Y[i]) - (x - self.X[i]) * (self.Y2[i] - self.Y[i])
            up = (self.Y[i] <= y) & (self.Y2[i] > y) & (isl > 0)
            dn = (self.Y[i] > y) & (self.Y2[i] <= y) & (isl < 0)
            w += up.astype(int) - dn.astype(int)
        return w != 0

    def inside_one(self, x, y):
        return bool(self.inside([x], [y])[0])

    def dist(self, x, y):
        """Distance to the wall."""
        x, y = np.atleast_1d(np.asarray(x, float)), np.atleast_1d(np.asarray(y, float))
        d = np.full(x.shape, np.inf)
        for i in range(len(self.X)):
            dx, dy = self.X2[i] - self.X[i], self.Y2[i] - self.Y[i]
            t = np.clip(((x - self.X[i]) * dx + (y - self.Y[i]) * dy) / (dx * dx + dy * dy), 0, 1)
            d = np.minimum(d, np.hypot(x - self.X[i] - t * dx, y - self.Y[i] - t * dy))
        return d

    def first_crossing(self, x0, y0, x1, y1):
        """Smallest parameter t in [0,1] where the segment meets the wall, with the edge index (-1: none)."""
        best, ed = np.inf, -1
        rx, ry = x1 - x0, y1 - y0
        for i in range(len(self.X)):
            sx, sy = self.X2[i] - self.X[i], self.Y2[i] - self.Y[i]
            den = rx * sy - ry * sx
            if den == 0:
                continue
            t = ((self.X[i] - x0) * sy - (self.Y[i] - y0) * sx) / den
            u = ((self.X[i] - x0) * ry - (self.Y[i] - y0) * rx) / den
            if -1e-12 <= u <= 1 + 1e-12 and 0 <= t <= 1 + 1e-12 and t < best:
                best, ed = t, i
        return best, ed

    def crossings(self, x0, y0, x1, y1):
        out = []
        rx, ry = x1 - x0, y1 - y0
        for i in range(len(self.X)):
            sx, sy = self.X2[i] - self.X[i], self.Y2[i] - self.Y[i]
            den = rx * sy - ry * sx
            if den == 0:
                continue
            t = ((self.X[i] - x0) * sy - (self.Y[i] - y0) * sx) / den
            u = ((self.X[i] - x0) * ry - (self.Y[i] - y0) * rx) / den
            if -1e-9 <= u <= 1 + 1e-9 and 0 <= t <= 1:
                out.append((t, i, u))
        return sorted(out)

    def convex(self):
        cr = (self.X2 - self.X) * (np.roll(self.Y2, -1) - self.Y2) - (self.Y2 - self.Y) * (np.roll(self.X2, -1) - self.X2)
        return bool(np.all(cr > 0) or np.all(cr < 0))


class EllipRef:
    kind = 'ellip'

    def __init__(self, a, b):
        self.a, self.b = a, b
        self.scale = max(a, b)
        self.area = np.pi * a * b

    def bbox(self):
        return -self.a, self.a, -self.b, self.b

    def f(self, x, y):
        return (np.asarray(x, float) / self.a)**2 + (np.asarray(y, float) / self.b)**2

    def inside(self, x, y):
        return np.atleast_1d(self.f(x, y) < 1)

    def dist(self, x, y):
        """Approximate distance to the wall (exact to first order near it)."""
        x, y = np.atleast_1d(np.asarray(x, float)), np.atleast_1d(np.asarray(y, float))
        r = np.sqrt(self.f(x, y))
        g = np.hypot(x / self.a**2, y / self.b**2) / np.where(r > 0, r, 1)
        d = np.abs(1 - r) / np.where(g > 0, g, 1)
        rad = np.abs(1 / np.where(r > 0, r, 1) - 1) * np.hypot(x, y)
        return np.where(r > 1e-12, np.minimum(d, rad), min(self.a, self.b))

    def first_crossing(self, x0, y0, x1, y1):
        dx, dy = x1 - x0, y1 - y0
        A = (dx / self.a)**2 + (dy / self.b)**2
        B = 2 * (x0 * dx / self.a**2 + y0 * dy / self.b**2)
        C = self.f(x0, y0) - 1
        disc = B * B - 4 * A * C
        if A == 0 or disc < 0:
            return np.inf, -1
        q = -0.5 * (B + np.sign(B if B else 1.) * np.sqrt(disc))
        ts = [q / A, C / q if q else np.inf]
        ts = [t for t in ts if t >= -1e-12]
        return (min(ts), -1) if ts else (np.inf, -1)

    def normal(self, x, y):
        nx, ny = -x / self.a**2, -y / self.b**2
        n = np.hypot(nx, ny)
        return nx / n, ny / n


def crossing_tables(ref, x0, y0, x1, y1):
    """T[n, e], U[n, e]: parameters along path n and along edge e of the meeting point of the two lines (nan: parallel)."""
    rx, ry = (x1 - x0)[:, None], (y1 - y0)[:, None]
    sx, sy = (ref.X2 - ref.X)[None, :], (ref.Y2 - ref.Y)[None, :]
    qx, qy = ref.X[None, :] - x0[:, None], ref.Y[None, :] - y0[:, None]
    den = rx * sy - ry * sx
    with np.errstate(all='ignore'):
        den = np.where(den == 0, np.nan, den)
        T = (qx * sy - qy * sx) / den
        U = (qx * ry - qy * rx) / den
    return T, U
