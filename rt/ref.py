"""Reference models written independently of the code under test."""
import numpy as np


class Abbott:
    """Material ratio curve: 10000 quantiles, secants of 40 % width, least-squares equivalence line.

    Results are sets or bands: every admissible choice among near-ties is accepted."""
    N = 10000

    def __init__(self, data):
        v = np.sort(np.ravel(np.asarray(data, dtype=float)))
        self.sorted = v
        self.n = v.size
        self.mr = np.arange(self.N) * (100.0 / (self.N - 1))
        pos = (1 - self.mr / 100) * (self.n - 1)
        pos = np.clip(pos, 0, self.n - 1)
        i = np.minimum(np.floor(pos).astype(int), self.n - 2) if self.n > 1 else np.zeros(self.N, int)
        f = pos - i
        self.h = v[i] * (1 - f) + v[np.minimum(i + 1, self.n - 1)] * f
        self.range = float(v[-1] - v[0])
        self.eps = 1e-9 * max(self.range, 1e-300) + 1e-12 * float(np.max(np.abs(v)))

    # -- curve -------------------------------------------------------------------------------------------------------
    def mc_band(self, p):
        """Height at material ratio p (band of the two neighbouring quantiles, exact at a grid point)."""
        i = p / 100 * (self.N - 1)
        lo, hi = int(np.floor(i + 1e-9)), int(np.ceil(i - 1e-9))
        return self.h[min(hi, self.N - 1)] - self.eps, self.h[min(lo, self.N - 1)] + self.eps

    def mr_band(self, c):
        """Material ratio at height c; a band if heights are tied."""
        e = self.eps
        if c >= self.h[0]:
            lo = 0.0
        else:
            lo = self._at(c + e)
        hi = 100.0 if c <= self.h[-1] else self._at(c - e)
        return min(lo, hi), max(lo, hi)

    def _at(self, c):
        if c >= self.h[0]:
            return 0.0
        if c <= self.h[-1]:
            return 100.0
        k = int(np.searchsorted(-self.h, -c, side='left'))     # first index with h <= c
        h0, h1 = self.h[k - 1], self.h[k]
        t = 0.0 if h0 == h1 else (h0 - c) / (h0 - h1)
        return float(self.mr[k - 1] + t * (self.mr[k] - self.mr[k - 1]))

    def fraction_band(self, c):
        """Percentage of samples above / not below c."""
        above = self.n - np.searchsorted(self.sorted, c + self.eps, side='right')
        notbelow = self.n - np.searchsorted(self.sorted, c - self.eps, side='left')
        return 100.0 * above / self.n, 100.0 * notbelow / self.n

    # -- areas ---------------------------------------------------------------------------------------------------------
    def _cum(self):
        if not hasattr(self, '_up'):
            d = -np.diff(self.h)
            up = np.concatenate([[0], np.cumsum(d * (self.mr[1:] + self.mr[:-1]) / 2)])
            dn = np.concatenate([[0], np.cumsum(d * ((100 - self.mr[1:]) + (100 - self.mr[:-1])) / 2)])
            self._up, self._dn = up, dn[-1] - dn
        return self._up, self._dn

    def _span(self, c):
        """Indices of the curve whose height is closest to c (widened by two points)."""
        k = int(np.argmin(np.abs(self.h - c)))
        d = np.abs(self.h - c)
        near = np.flatnonzero(d <= d[k] + self.eps)
        return max(0, near[0] - 2), min(self.N - 1, near[-1] + 2)

    def area_above(self, c):
        """Band of the area enclosed by the curve above height c, in % x length."""
        up, _ = self._cum()
        a, b = self._span(c)
        e = self.eps * 100
        return up[a] - e, up[b] + e

    def area_below(self, c):
        _, dn = self._cum()
        a, b = self._span(c)
        e = self.eps * 100
        return dn[b] - e, dn[a] + e

    # -- equivalence line ------------------------------------------------------------------------------------------------
    def lines(self):
        """All admissible (upper, lower) intersections of the equivalence line with 0 % and 100 %."""
        ok = np.flatnonzero(self.mr <= 60 + 1e-9)
        target = np.minimum(self.mr[ok] + 40, 100)
        h40 = np.interp(target, self.mr, self.h)
        sec = h40 - self.h[ok]
        best = sec.max()
        cand = ok[sec >= best - max(1e-9 * self.range, 4 * self.eps * 1e-3) - 1e-13 * np.max(np.abs(self.h))]
        out = []
        off = self.h.mean()
        x, y = self.mr, self.h - off
        cx, cy = np.concatenate([[0], np.cumsum(x)]), np.concatenate([[0], np.cumsum(y)])
        cxx, cxy = np.concatenate([[0], np.cumsum(x * x)]), np.concatenate([[0], np.cumsum(x * y)])
        for extra in (0, 1, -1):
            end = np.searchsorted(x, x[cand] + 40, side='right') + extra
            end = np.minimum(end, self.N)
            n = end - cand
            sx, sy = cx[end] - cx[cand], cy[end] - cy[cand]
            sxx, sxy = cxx[end] - cxx[cand], cxy[end] - cxy[cand]
            m = (n * sxy - sx * sy) / (n * sxx - sx * sx)
            b = (sy - m * sx) / n + off
            out.append(np.column_stack([b, m * 100 + b]))
        return np.concatenate(out)


def acf(z):
    """Autocovariance with the unbiased normalisation, by direct summation over every lag."""
    z = z - z.mean()
    ny, nx = z.shape
    out = np.empty((2 * ny - 1, 2 * nx - 1))
    for ty in range(-(ny - 1), ny):
        a = z[max(0, ty):ny + min(0, ty)]
        b = z[max(0, -ty):ny + min(0, -ty)]
        for tx in range(-(nx - 1), nx):
            u = a[:, max(0, tx):nx + min(0, tx)]
            v = b[:, max(0, -tx):nx + min(0, -tx)]
            out[ty + ny - 1, tx + nx - 1] = np.mean(u * v)
    return out


def component(mask, y, x):
    """4-connected component of mask that contains (y, x), by flood fill."""
    out = np.zeros_like(mask)
    if not mask[y, x]:
        return out
    stack = [(y, x)]
    out[y, x] = True
    ny, nx = mask.shape
    while stack:
        i, j = stack.pop()
        for a, b in ((i + 1, j), (i - 1, j), (i, j + 1), (i, j - 1)):
            if 0 <= a < ny and 0 <= b < nx and mask[a, b] and not out[a, b]:
                out[a, b] = True
                stack.append((a, b))
    return out


def rim(region):
    """Points next to the region (4-neighbourhood) that do not belong to it."""
    d = region.copy()
    d[1:] |= region[:-1]
    d[:-1] |= region[1:]
    d[:, 1:] |= region[:, :-1]
    d[:, :-1] |= region[:, 1:]
    return d & ~region
