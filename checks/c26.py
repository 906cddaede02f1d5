"""Covariances in packed rows, and diagonal loading."""
from .lib import *

BOUNDS = "n=1..4 assets, up to 3 matrices; entries and loading symbolic; 12 assets, 5 dates of fixed shape in a symbolic unit; matrices of whole numbers"
EU = "experiments.utils.experiment_utils"


def unpack(h):
    """row-wise upper triangle <-> symmetric matrix"""
    m = h.mod(EU)
    n = h.int("n", 1, h.p["n"])
    T = h.int("T", 1, 3)
    K = n * (n + 1) // 2
    M = h.reals("x", (T, K))
    out = m.from_row_matrix_to_covariance(h.array(M), n)
    h.same("shape", tuple(np.shape(out)), (T, n, n))
    pos = [(i, j) for i in range(n) for j in range(i, n)]
    for t in range(T):
        one = m.from_row_to_covariance(h.array(M[t]), n)
        for k, (i, j) in enumerate(pos):
            for X in (out[t], one):
                h.eq(f"{t} {i}{j}", X[i][j], M[t][k])
                h.eq(f"{t} {j}{i}", X[j][i], M[t][k])


def loading(h):
    """lamda * diag added on the diagonal of every date's covariance only"""
    m = h.mod(EU)
    n = h.int("n", 1, h.p["n"] - 1)
    u = h.choice("labels", [names(n), list(range(5, 5 + n))])
    d = days(2) if h.bool("ascending") else days(2)[::-1]
    S = {t: h.reals(f"s{k}", (n, n)) for k, t in enumerate(d)}
    lam = h.real("lam", sgn="0+")
    frames = {t: h.frame(S[t], u, u) for t in d}
    kept = {t: v.copy() for t, v in frames.items()}
    before = dict(frames)
    out = m.add_to_diagonal(frames, lam)
    h.same("dates", list(out), d)
    for t in d:
        h.eq(f"{t}", out[t], h.frame([[S[t][i][j] * (1 + lam) if i == j else S[t][i][j] for j in range(n)] for i in range(n)], u, u))
        h.eq("matrix itself unchanged", before[t], kept[t])


def large(h):
    """many assets and dates, matrices of whole numbers"""
    m = h.mod(EU)
    n, T = h.p["n"], h.p["T"]
    K = n * (n + 1) // 2
    unit = h.real("unit", nz=True)
    M = h.shaped("x", T, K, units=[unit] * K)
    out = m.from_row_matrix_to_covariance(h.array(M), n)
    h.same("shape", tuple(np.shape(out)), (T, n, n))
    pos = [(i, j) for i in range(n) for j in range(i, n)]
    for t in range(T):
        one = m.from_row_to_covariance(h.array(M[t]), n)
        for k, (i, j) in enumerate(pos):
            for X in (out[t], one):
                h.eq(f"{t} {i}{j}", X[i][j], M[t][k])
                h.eq(f"{t} {j}{i}", X[j][i], M[t][k])
    A, B = whole(h, "z", 3, K, columns=list(range(K)))
    h.eq("whole numbers", m.from_row_matrix_to_covariance(A.values, n), m.from_row_matrix_to_covariance(B.values, n))
    lam = h.real("lam", sgn="0+")
    u, d = names(n), days(T)
    S = {t: h.frame(out[q], u, u) for q, t in enumerate(d)}
    O = m.add_to_diagonal(dict(S), lam)
    h.same("dates", list(O), d)
    for q, t in enumerate(d):
        h.eq("loaded", O[t], h.frame([[out[q][i][j] * (1 + lam if i == j else 1) for j in range(n)] for i in range(n)], u, u))
    W = m.add_to_diagonal({d[0]: pd.DataFrame([[2, 1], [1, 3]], names(2), names(2))}, 0.5)[d[0]]
    h.eq("whole numbers", W, h.frame([[3.0, 1], [1, 4.5]], names(2), names(2)))


CASES = [
    dict(name="unpack", also=[dict(n=1), dict(n=2)], fn=unpack, params=dict(n=4), thorough=dict(n=7), rtol=1e-12, atol=1e-14),
    dict(name="loading", also=[dict(n=2), dict(n=3)], fn=loading, params=dict(n=4)),
    dict(name="large", fn=large, params=dict(n=12, T=5), rtol=1e-12, atol=1e-14),
]
