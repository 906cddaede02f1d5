"""Repeating, interleaving or abandoning runs changes no result and no input."""
from .c12 import *

BOUNDS = "T=4..5 dates, 1 asset, 2 experts; every interleaving of two iterators over one combination object (schedule symbolic); solver an arbitrary deterministic function of its problem; 14 dates, 2 assets and four iterators at a time with fixed shapes and symbolic units; three or four objects built one after the other over exchanged data"


def interleaved(h):
    """two live iterators over the same combination object"""
    m = h.mod(CO)
    T, K = h.p["T"], 2
    X = Experts(h, T, 1, K, means=True)
    w1, w2 = 2, h.choice("second window", h.p["second"])
    for w in {w1, w2}:
        for t in range(w, T):
            X.regular(range(t - w + 1, t + 1))
    with solver(h, K):
        c = X.build(m)
        ref = [list(c.solve(window=w1)), list(c.solve(window=w2))]
        its = [c.solve(window=w1), c.solve(window=w2)]
        got = [[], []]
        done = [False, False]
        step = 0
        while not all(done):
            if any(done):
                which = 0 if done[1] else 1
            else:
                which = h.int(f"step{step}", 0, 1)
                step += 1
            try:
                got[which].append(next(its[which]))
            except StopIteration:
                done[which] = True
    for r, g in zip(ref, got):
        h.same("count", len(r), len(g))
        for a, b in zip(r, g):
            same_result(h, "interleaved", a, b)


def abandoned(h):
    """an iterator left half-way does not disturb the next run; results already
    handed out keep their values"""
    m = h.mod(CO)
    T, K = 5, 2
    X = Experts(h, T, 1, K, means=True)
    for t in range(2, T):
        X.regular(range(t - 1, t + 1))
    k = h.int("abandoned after", 0, 2)
    with solver(h, K):
        ref = list(X.build(m).solve(window=2))
        c = X.build(m)
        it = c.solve(window=2)
        first = [next(it) for _ in range(k)]
        if h.bool("closed"):
            it.close()
        second = list(c.solve(window=2))
    for a, b in zip(first, ref):
        same_result(h, "first", a, b)
    h.same("count", len(second), len(ref))
    for a, b in zip(second, ref):
        same_result(h, "second", a, b)


def sequence(h):
    """a sequence of solve calls with arbitrary windows and requested dates on
    one object; each answers as a fresh object would"""
    m = h.mod(CO)
    T, K = h.p["T"], 2
    X = Experts(h, T, 1, K, means=True)
    for w in range(2, T):
        for t in range(w, T):
            X.regular(range(t - w + 1, t + 1))
    calls = []
    for q in range(h.p["calls"]):
        kw = dict(window=h.choice(f"window{q}", h.p["windows"]))
        if h.bool(f"dates{q}"):
            lo = h.int(f"from{q}", 1, T - 1)
            hi = h.int(f"to{q}", 1, T - 1)
            if hi < lo:
                h.assume(False)
            kw["times"] = days(T)[lo : hi + 1]
        calls.append((kw, h.int(f"taken{q}", 0, 1) if q < h.p["calls"] - 1 else 1))
    with solver(h, K):
        c = X.build(m)
        for kw, all_ in calls:
            it = c.solve(**kw)
            got = list(it) if all_ else [next(it, None)]
            ref = list(X.build(m).solve(**kw))
            if all_:
                h.same("count", len(got), len(ref))
            for a, b in zip(got, ref):
                if a is not None:
                    same_result(h, "call", a, b)


def inputs(h):
    """experts' dictionaries, matrices, means and the returns are not modified,
    and results do not share memory with them"""
    m = h.mod(CO)
    T, n, K = 3, 2, 2
    X = Experts(h, T, n, K, means=True)
    X.regular([1, 2])
    if h.bool("first return missing"):  # it enters no window
        X.r[0] = [NAN] + list(X.r[0][1:])
    S, M, R = X.sigmas(), X.mean_dict(), X.returns()
    S0 = {k: {t: v.copy(deep=True) for t, v in d.items()} for k, d in S.items()}
    M0 = {k: {t: v.copy(deep=True) for t, v in d.items()} for k, d in M.items()}
    R0 = R.copy(deep=True)
    z = h.real("z")
    e = h.int("vertex", 0, 1)
    with cvxs.standin(h, lambda p, i, kw: cvxs.assign(weight_var(h, p, K), [1 - e, e])):
        c = m.from_sigmas(S, R, means=M)
        for o in c.solve(window=2):
            o.covariance.iloc[:, :] = z
            o.mean.iloc[:] = z
            o.weights.iloc[:] = z
    h.same("keys", [list(S), [list(d) for d in S.values()], list(M)], [list(S0), [list(d) for d in S0.values()], list(M0)])
    for k in S:
        for t in S[k]:
            h.eq("sigma", S[k][t], S0[k][t])
            h.eq("mean", M[k][t], M0[k][t])
    h.eq("returns", R, R0)


def mismatch(h):
    """means that do not cover the same dates as the covariances are refused"""
    m = h.mod(CO)
    X = Experts(h, 3, 1, 2, means=True)
    S, M = X.sigmas(), X.mean_dict()
    k = h.choice("expert", X.keys)
    if h.bool("extra"):
        M[k][pd.Timestamp("1999-01-01")] = M[k][X.dates[0]]
    else:
        del M[k][X.dates[h.int("date", 0, 2)]]
    h.raises("mismatch", lambda: m.from_sigmas(S, X.returns(), means=M))


def long(h):
    """longer runs: several iterators in turn, out of step"""
    m = h.mod(CO)
    T, K = 14, 2
    X = Experts.shaped(h, T, 2, K)
    kws = [dict(window=4), dict(window=9), dict(), dict(window=3, times=days(T)[5:9])]
    order = h.choice("order", [(0, 1, 2, 3), (3, 2, 1, 0), (1, 1, 0, 3), (2, 0, 0, 3)])
    S, M, R = X.sigmas(), X.mean_dict(), X.returns()
    with solver(h, K):
        ref = [list(X.build(m).solve(**k)) for k in kws]
        c = m.from_sigmas(S, R, means=M)
        its = [(q, c.solve(**kws[q])) for q in order]
        for q, it in its[1:]:
            next(it)  # some are ahead, one is left behind
        got = [[] for _ in its]
        live = set(range(1, len(its)))
        while live:
            for p in sorted(live):
                o = next(its[p][1], None)
                if o is None:
                    live.discard(p)
                else:
                    got[p].append(o)
        got[0] = list(its[0][1])
    for p, (q, _) in enumerate(its):
        want = ref[q][1:] if p else ref[q]
        h.same("count", len(got[p]), len(want))
        for a, b in zip(got[p], want):
            same_result(h, "iterator", a, b)
    for k, key in enumerate(X.keys):
        for t in range(T):
            h.eq("sigma", S[key][X.dates[t]], h.frame(X.cov(k, t), X.assets, X.assets))
            h.eq("mean", M[key][X.dates[t]], h.series(X.mu[k, t], X.assets))
    h.eq("returns", R, X.returns())


def others(h):
    """objects built one after the other over related predictions (assets
    exchanged, experts exchanged, dates reversed, units changed) do not share
    anything"""
    m = h.mod(CO)
    T, n, K, window = 6, 2, 2, 3
    X = Experts.shaped(h, T, n, K)
    for k in range(K):
        for t in range(T):
            X.L[k, t][1][0] = 0 * X.L[k, t][1][0]

    def assets(Y):
        for k, t in Y.L:
            Y.L[k, t] = [r[::-1] for r in Y.L[k, t][::-1]]
            Y.mu[k, t] = Y.mu[k, t][::-1]
        Y.r = [x[::-1] for x in Y.r]

    def experts(Y):
        for t in range(T):
            for D in (Y.L, Y.mu):
                D[0, t], D[1, t] = D[1, t], D[0, t]

    def dates(Y):
        for k in range(K):
            for D in (Y.L, Y.mu):
                for t in range(T // 2):
                    D[k, t], D[k, T - 1 - t] = D[k, T - 1 - t], D[k, t]
        Y.r = Y.r[::-1]

    def names_(Y):
        Y.keys = Y.keys[::-1]

    W = [h.real("w", sgn="+", nz=True)]
    h.assume(W[0] < 1)
    w = [W[0], 1 - W[0]]
    change = h.choice("changes", [[assets, experts], [dates, names_], [experts, dates, assets]])
    Y = X.copy()
    for f in [None, *change]:
        if f:
            Y = Y.copy()
            f(Y)
        with cvxs.standin(h, lambda prob, i, kw: cvxs.assign(weight_var(h, prob, K), w)):
            out = list(Y.build(m).solve(window=window))
        h.same("dates", [o.time for o in out], Y.dates[window:])
        for i, o in enumerate(out):
            L, mu = Y.blend(w, i + window)
            C = o.covariance.to_numpy()
            for a in range(n):
                h.eq("mean", o.mean.iloc[a], mu[a])
                for b in range(n):
                    h.eq("covariance", C[a, b] * L[a][a] * L[b][b], 1 if a == b else 0)


CASES = [
    dict(name="others", fn=others, params=dict()),
    dict(name="interleaved", fn=interleaved, params=dict(T=4, second=[2, 3]), thorough=dict(T=5), max_paths=2000),
    dict(name="abandoned", fn=abandoned, params=dict()),
    dict(name="sequence", fn=sequence, params=dict(T=4, calls=2, windows=[2, 3]), max_paths=4000),
    dict(name="inputs", fn=inputs, params=dict()),
    dict(name="mismatch", fn=mismatch, params=dict()),
    dict(name="long", fn=long, params=dict()),
]
