"""Very long histories of fixed shape in symbolic units: everything but the
units is a number, so the documented formulas are evaluated in floating point
and multiplied by the units."""
from .lib import *


def table(h, name, T, n):
    """(numbers, units, table of numbers times units)"""
    base = h.shaped(name, T, n, units=False)
    unit = [h.real(f"{name}_unit{i}", sgn="+") for i in range(n)]
    y = [[unit[i] * base[t, i] for i in range(n)] for t in range(T)]
    return np.array(base, dtype=float), unit, y


def average(x, hl):
    """normalised exponentially weighted averages of the rows of x up to each row"""
    b = 2.0 ** (-1.0 / hl)
    num, den, out = 0.0, 0.0, []
    for row in x:
        num, den = b * num + row, b * den + 1.0
        out.append(num / den)
    return np.array(out)


def clipped(x, hl, clip, warm):
    """the same for squares, winsorised at clip**2 times the previous value"""
    b = 2.0 ** (-1.0 / hl)
    num, den, out = 0.0, 0.0, []
    for k, row in enumerate(x):
        row = row * row
        if clip and k >= warm + 1:
            row = np.minimum(row, clip**2 * out[-1])
        num, den = b * num + row, b * den + 1.0
        out.append(num / den)
    return np.array(out)


def iterated(x, hv, hc, mv=20, mc=20, mean=False, h1=None, h2=None, clip=None):
    """{row: (mean, covariance, volatility)} of the documented two-stage formula"""
    T, n = x.shape
    m1 = average(x, h1 or hv) if mean else np.zeros((T, n))
    r = x - m1
    v = np.sqrt(clipped(r, hv, clip, mv))
    s = max(mv - 1, 0)
    with np.errstate(divide="ignore", invalid="ignore"):
        a = r[s:] / v[s:]
    if clip:
        a = np.clip(a, -clip, clip)
    if mean:
        a = a[1:] if np.isnan(a[0]).all() else a  # the first return is its own mean
        s = T - len(a)
    a = np.where(np.isnan(a), 0.0, a)  # no volatility, no information
    m2 = average(a, h2 or hc) if mean else np.zeros(a.shape)
    a = a - m2
    C = average(np.einsum("ti,tj->tij", a, a), hc)
    out = {}
    for q in range(max(mc - 1, 0), len(a)):
        d = np.sqrt(np.diag(C[q]))
        V = v[s + q]
        out[s + q] = (m1[s + q] + V * m2[q], np.outer(V / d, V / d) * C[q], V)
    return out


def same(h, label, o, ref, unit):
    """an estimate equals numbers times units"""
    m, C, v = ref
    n = len(unit)
    for i in range(n):
        h.eq(f"{label} mean {i}", o.mean.iloc[i] / unit[i], float(m[i]))
        h.eq(f"{label} volatility {i}", o.volatility.iloc[i] / unit[i], float(v[i]))
        for j in range(n):
            h.eq(f"{label} covariance {i}{j}", o.covariance.iloc[i, j] / (unit[i] * unit[j]), float(C[i, j]))
