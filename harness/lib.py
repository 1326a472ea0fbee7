"""Oracles and generators shared by the checks. Nothing here uses the code under test except the model table."""
import json
import numpy as np
from scipy import stats
from scipy.linalg import expm
from scipy.special import ndtr, ndtri
from hypothesis import strategies as st

from core import Bad, note

# ---------------------------------------------------------------- generators


def grid(lo, hi, step=0.01):
    """Floats on a decimal grid: exact in JSON, shrink towards lo, hit round and equal values often."""
    a, b, d = int(round(lo / step)), int(round(hi / step)), int(round(1 / step))
    return st.integers(a, b).map(lambda k: k / d)


def sgrid(hi, step=0.01):
    """Signed grid on [-hi, hi], shrinking to 0."""
    b, d = int(round(hi / step)), int(round(1 / step))
    return st.integers(-b, b).map(lambda k: k / d)


def fracs(lo, hi):
    """Sorted distinct fractions in (0, 1), on a 1/1000 grid."""
    return st.lists(st.integers(1, 999), min_size=lo, max_size=hi, unique=True).map(lambda l: [k / 1000 for k in sorted(l)])


seeds = st.integers(0, 2 ** 31 - 1)


def rng_of(case, *extra):
    """A generator that is a function of the case's recorded seed only."""
    return np.random.default_rng([case['seed'], *extra])


# ---------------------------------------------------------------- assertions

def need(cond, msg):
    if not cond:
        raise Bad(msg() if callable(msg) else msg)


def close(a, b, rtol=1e-8, atol=1e-10):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))))


def need_close(a, b, what, rtol=1e-8, atol=1e-10):
    if not close(a, b, rtol, atol):
        raise Bad('%s: %r != %r' % (what, np.asarray(a).tolist(), np.asarray(b).tolist()))


A1, A2 = 3e-3, 1e-6


def two_stage(case, f, n, mult=6, a1=A1, a2=A2, what=''):
    """f(n, rng) -> {label: p-value}. A violation needs p < a1 on n draws and p < a2 on mult*n fresh draws."""
    p1 = f(n, rng_of(case, 1))
    note('draws', n)
    sus = [k for k, p in p1.items() if not p >= a1]
    if not sus:
        return p1
    note('second_stages')
    note('draws', n * mult)
    p2 = f(n * mult, rng_of(case, 2))
    bad = {k: (p1[k], p2[k]) for k in sus if k in p2 and not p2[k] >= a2}
    if bad:
        raise Bad('%s law violated: p-values (n=%d, n=%d): %s' % (what, n, mult * n, json.dumps({k: [float(a), float(b)] for k, (a, b) in bad.items()})))
    return p1


def ks_u(u):
    """Kolmogorov-Smirnov p-value against the uniform law (nan or out-of-range values fail)."""
    u = np.asarray(u, float)
    if not np.all((u >= -1e-9) & (u <= 1 + 1e-9)):
        return 0.0
    return stats.kstest(np.clip(u, 0, 1), 'uniform', method='asymp' if len(u) > 500 else 'auto').pvalue


def chi2_p(counts, probs):
    """Chi-square goodness of fit; cells with small expectation are pooled."""
    counts, probs = np.asarray(counts, float).ravel(), np.asarray(probs, float).ravel()
    n = counts.sum()
    if np.any(counts[probs <= 1e-15] > 0):
        return 0.0
    order = np.argsort(-probs)
    c, e = counts[order], n * probs[order]
    big = e >= 10
    if np.sum(~big):
        cs, es = c[~big].sum(), e[~big].sum()
        c, e = c[big], e[big]
        if es >= 10:
            c, e = np.append(c, cs), np.append(e, es)
        elif len(e):
            c[-1] += cs; e[-1] += es
    if len(e) < 2:
        return 1.0
    return stats.chi2.sf(np.sum((c - e) ** 2 / e), len(e) - 1)


def binom_p(k, n, p):
    p = min(max(float(p), 0.0), 1.0)
    if p <= 1e-14:
        return 1.0 if k == 0 else 0.0
    if p >= 1 - 1e-14:
        return 1.0 if k == n else 0.0
    return stats.binomtest(int(k), int(n), p).pvalue


def mean_p(x, mu=0.0):
    """Two-sided p-value of mean(x) == mu (t statistic; used with large n and light tails)."""
    x = np.asarray(x, float)
    if not np.all(np.isfinite(x)):
        return 0.0
    s = x.std(ddof=1) / np.sqrt(len(x))
    d = abs(x.mean() - mu)
    if s < 1e-13 * (1 + abs(mu)):
        return 1.0 if d <= 1e-9 * (1 + abs(mu)) else 0.0
    return 2 * stats.t.sf(d / s, len(x) - 1)


def bounded_mean_p(x, top, mu, rng):
    """Exact p-value of mean(x) == mu for 0 <= x <= top: each x/top is turned into a coin flip (binomial test)."""
    x = np.asarray(x, float)
    if not np.all(np.isfinite(x)):
        return 0.0
    return binom_p(np.sum(rng.uniform(size=len(x)) * top < x), len(x), mu / top)


def gauss_ps(Z, lag=True):
    """p-values for rows of Z being iid N(0, I)."""
    Z = np.asarray(Z, float)
    n, d = Z.shape
    if not np.all(np.isfinite(Z)):
        return {'finite': 0.0}
    out = {'mean': stats.chi2.sf(n * np.sum(Z.mean(0) ** 2), d)}
    C = Z.T @ Z / n - np.eye(d)
    s = sum(n * C[i, i] ** 2 / 2 for i in range(d)) + sum(n * C[i, j] ** 2 for i in range(d) for j in range(i))
    out['cov'] = stats.chi2.sf(s, d * (d + 1) // 2)
    for i in range(d):
        out['ks%d' % i] = ks_u(ndtr(Z[:, i]))
    if d > 1:
        out['maha'] = ks_u(stats.chi2.cdf(np.sum(Z ** 2, 1), d))
    if lag and n > 100:
        out['lag'] = stats.chi2.sf(sum((np.sum(Z[1:, i] * Z[:-1, i])) ** 2 / (n - 1) for i in range(d)), d)
    return out


def unif_ps(U, lag=True):
    """p-values for rows of U being iid uniform on the cube."""
    U = np.asarray(U, float)
    if not np.all((U >= -1e-9) & (U <= 1 + 1e-9)):
        return {'range': 0.0}
    return gauss_ps(ndtri(np.clip(U, 1e-12, 1 - 1e-12)), lag)


def whiten(X, mean, cov):
    L = np.linalg.cholesky(cov)
    return np.linalg.solve(L, (np.asarray(X) - mean).T).T


# ---------------------------------------------------------------- diffusion references

def ou_trans(rate, vol, dt, x0):
    """Mean and variance of dX = -rate X dt + vol dW after dt."""
    return x0 * np.exp(-rate * dt), vol ** 2 * -np.expm1(-2 * rate * dt) / (2 * rate)


def ou_rosenblatt(rate, vol, t, x0, X):
    """Whitened innovations of rows of X observed at times t."""
    Z, prev, tp = [], np.full(len(X), float(x0)) if np.ndim(x0) == 0 else np.asarray(x0, float), 0.0
    for j, tj in enumerate(t):
        m, v = ou_trans(rate, vol, tj - tp, prev)
        Z.append((X[:, j] - m) / np.sqrt(v))
        prev, tp = X[:, j], tj
    return np.array(Z).T


def ou_bridge_next(rate, vol, dt, rem, x, xT):
    """Law of X at dt from x given X at rem (> dt) equals xT."""
    m, v = ou_trans(rate, vol, dt, x)
    e = np.exp(-rate * (rem - dt))
    _, w = ou_trans(rate, vol, rem - dt, 0.0)
    k = v * e / (v * e ** 2 + w)
    return m + k * (xT - e * m), v - k * e * v


def ou_bridge_white(rate, vol, t, T, x0, xT, X):
    Z, prev, tp = [], np.broadcast_to(np.asarray(x0, float), (len(X),)), 0.0
    for j, tj in enumerate(t):
        m, v = ou_bridge_next(rate, vol, tj - tp, T - tp, prev, xT)
        Z.append((X[:, j] - m) / np.sqrt(v))
        prev, tp = X[:, j], tj
    return np.array(Z).T


def ou_loglik(rate, vol, t, v):
    m, s2 = ou_trans(rate, vol, np.diff(t), np.asarray(v)[:-1])
    return float(np.sum(stats.norm.logpdf(np.asarray(v)[1:], m, np.sqrt(s2))))


def cir_dist(thi, dt, v0):
    """Law of dV = thi0 (thi1 - V) dt + thi2 sqrt(V) dW after dt."""
    c = 2 * thi[0] / (thi[2] ** 2 * -np.expm1(-thi[0] * dt))
    return stats.ncx2(4 * thi[0] * thi[1] / thi[2] ** 2, 2 * c * v0 * np.exp(-thi[0] * dt), scale=1 / (2 * c))


def cir_pdf(thi, dt, v0, v1):
    return cir_dist(thi, dt, v0).pdf(v1)


def bb_white(t, T, a, b, X):
    """Whitened Brownian bridge values (rows of X at sorted times t inside (0, T))."""
    t = np.asarray(t, float)
    mean = a + (b - a) * t / T
    cov = np.minimum.outer(t, t) * (T - np.maximum.outer(t, t)) / T
    return whiten(X, mean, cov)


def cdf_grid(dens, x, xs):
    """Values of the cdf of an unnormalised density, given on grid xs (rows of dens), at points x."""
    d = np.asarray(dens, float)
    c = np.concatenate([np.zeros(d.shape[:-1] + (1,)), np.cumsum((d[..., 1:] + d[..., :-1]) / 2 * np.diff(xs), -1)], -1)
    c = c / c[..., -1:]
    if d.ndim == 1:
        return np.interp(x, xs, c)
    return np.array([np.interp(x_, xs if np.ndim(xs) == 1 else xs_, c_) for x_, c_, xs_ in
                     zip(x, c, xs if np.ndim(xs) == 2 else [xs] * len(c))])


def bb_pos_cdf(x, dt, rem, a, b):
    """P(X_dt <= x) for a Brownian bridge from a > 0 to b > 0 over rem, conditioned to stay positive; vectorised."""
    x, a, b = np.broadcast_arrays(np.asarray(x, float), np.asarray(a, float), np.asarray(b, float))
    s2 = dt * (rem - dt) / rem
    s, m = np.sqrt(s2), a + (b - a) * dt / rem
    ka, kb = 2 * a / dt, 2 * b / (rem - dt)

    def term(k):  # int_0^x phi(y; m, s) exp(-k y) dy
        mk = m - k * s2
        return np.exp(-k * m + k * k * s2 / 2) * (ndtr((x - mk) / s) - ndtr(-mk / s))

    def tot(k):
        mk = m - k * s2
        return np.exp(-k * m + k * k * s2 / 2) * ndtr(mk / s)
    num = term(0 * ka) - term(ka) - term(kb) + term(ka + kb)
    den = tot(0 * ka) - tot(ka) - tot(kb) + tot(ka + kb)
    return num / den


def pr_stay(T, a, b, lo, hi):
    """P(Brownian bridge a -> b over T stays inside (lo, hi)); lo/hi may be infinite. High accuracy."""
    if min(a, b) <= lo or max(a, b) >= hi:
        return 0.0
    if np.isinf(lo) and np.isinf(hi):
        return 1.0
    if np.isinf(hi):
        return -np.expm1(-2 * (a - lo) * (b - lo) / T)
    if np.isinf(lo):
        return -np.expm1(-2 * (hi - a) * (hi - b) / T)
    w = hi - lo
    if T / w ** 2 < 1.0:  # images, grouped around the direct path
        p = 0.0
        x, y = a - lo, b - lo
        for k in range(-12, 13):
            p += np.exp(((y - x) ** 2 - (y - x + 2 * k * w) ** 2) / (2 * T)) - np.exp(((y - x) ** 2 - (y + x + 2 * k * w) ** 2) / (2 * T))
        return float(min(max(p, 0.0), 1.0))
    x, y = (a - lo) / w, (b - lo) / w
    n = np.arange(1, 60)
    ser = 2 / w * np.sum(np.sin(n * np.pi * x) * np.sin(n * np.pi * y) * np.exp(-n ** 2 * np.pi ** 2 * T / (2 * w ** 2)))
    return float(ser / (np.exp(-(b - a) ** 2 / (2 * T)) / np.sqrt(2 * np.pi * T)))


def kill_dens(T, a, b, lo, hi):
    """Transition density of Brownian motion a -> b over T killed at lo and hi (arrays broadcast)."""
    a, b = np.broadcast_arrays(np.asarray(a, float), np.asarray(b, float))
    phi = lambda d: np.exp(-d ** 2 / (2 * T)) / np.sqrt(2 * np.pi * T)
    if np.isinf(lo) and np.isinf(hi):
        p = phi(b - a)
    elif np.isinf(hi):
        p = phi(b - a) - phi(a + b - 2 * lo)
    elif np.isinf(lo):
        p = phi(b - a) - phi(2 * hi - a - b)
    else:
        w = hi - lo
        x, y = a - lo, b - lo
        if T / w ** 2 < 1.5:
            p = sum(phi(y - x + 2 * k * w) - phi(y + x + 2 * k * w) for k in range(-10, 11))
        else:
            p = sum(2 / w * np.sin(n * np.pi * x / w) * np.sin(n * np.pi * y / w) * np.exp(-n ** 2 * np.pi ** 2 * T / (2 * w ** 2)) for n in range(1, 40))
    return np.where((a > lo) & (a < hi) & (b > lo) & (b < hi), np.maximum(p, 0), 0.0)


def bes_stay(T, b, w):
    """P(Bessel-3 bridge 0 -> b over T stays below w)."""
    if b >= w:
        return 0.0
    if T / w ** 2 < 1.0:
        j = np.arange(-12, 13)
        return float(min(1.0, max(0.0, np.sum((b + 2 * j * w) / b * np.exp(-2 * j * w * (j * w + b) / T)))))
    n = np.arange(1, 60)
    num = 2 / w * np.sum(n * np.pi / w * np.sin(n * np.pi * b / w) * np.exp(-n ** 2 * np.pi ** 2 * T / (2 * w ** 2)))
    den = 2 * b / T * np.exp(-b ** 2 / (2 * T)) / np.sqrt(2 * np.pi * T)  # d/da of phi(b-a)-phi(b+a) at 0
    return float(num / den)


# ---------------------------------------------------------------- jump process references

def mjp_sim(rng, T, x0, gen):
    """Own forward simulation -> (times, states), times[0] == 0."""
    t, x, ts, xs = 0.0, x0, [0.0], [x0]
    while True:
        t += rng.exponential(1 / -gen[x, x])
        if t >= T:
            return np.array(ts), np.array(xs)
        p = np.maximum(gen[x], 0); p[x] = 0
        x = int(rng.choice(len(p), p=p / p.sum()))
        ts.append(t); xs.append(x)


def stat_law(gen):
    """Stationary law via the null space (least squares)."""
    n = len(gen)
    A = np.vstack([gen.T, np.ones(n)])
    return np.linalg.lstsq(A, np.append(np.zeros(n), 1.0), rcond=None)[0]


def count_trans(T, gen, nmax):
    """N[n] = matrix of P(X_T = j, n jumps | X_0 = i) for n = 0..nmax-1, N[nmax] = the rest."""
    k = len(gen)
    D, J = np.diag(np.diag(gen)), gen - np.diag(np.diag(gen))
    B = np.zeros((k * nmax, k * nmax))
    for m in range(nmax):
        B[m * k:(m + 1) * k, m * k:(m + 1) * k] = D
        if m + 1 < nmax:
            B[m * k:(m + 1) * k, (m + 1) * k:(m + 2) * k] = J
    E = expm(B * T)
    out = [E[:k, m * k:(m + 1) * k] for m in range(nmax)]
    return np.array(out + [expm(gen * T) - sum(out)])


def dense_gen(rates, n):
    """Generator with positive off-diagonal rates taken row by row from the list."""
    g = np.zeros((n, n))
    it = iter(rates)
    for i in range(n):
        for j in range(n):
            if i != j:
                g[i, j] = next(it)
    np.fill_diagonal(g, -g.sum(1))
    return g


def gen_strategy(nmin=2, nmax=3, lo=0.1, hi=3.0):
    return st.integers(nmin, nmax).flatmap(lambda n: st.lists(grid(lo, hi), min_size=n * (n - 1), max_size=n * (n - 1)).map(lambda r: [n, r]))


class SeqPool:
    """Stand-in for a joblib pool: runs delayed calls in order."""
    def __call__(self, calls):
        return [f(*a, **k) for f, a, k in calls]
