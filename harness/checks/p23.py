"""P23: Gaussian and Bessel path primitives have the law their moments state; transforms are the maps they claim to be."""
import numpy as np
from hypothesis import strategies as st
from scipy import stats
from scipy.special import ive
from core import Sub, note
from lib import *
from ctbayes.sdelib import paths, moments, transforms, interpolators
from ctbayes.misc import testing

TITLE = "Gaussian and Bessel primitives"

scale = st.sampled_from([1.0, 0.01, 0.1, 10.0, 100.0])


@st.composite
def wiener_case(draw):
    d = draw(st.integers(1, 3))
    T = draw(scale) * draw(grid(0.5, 2, 0.1))
    return dict(t=sorted(set(round(f * T, 6) for f in draw(fracs(1, 4)))), x=draw(st.lists(sgrid(3, 0.1), min_size=d, max_size=d)),
                mu=draw(st.one_of(st.none(), st.lists(sgrid(2, 0.1), min_size=d, max_size=d))), seed=draw(seeds))


def run_wiener(case):
    t, x = np.array(case['t']), np.array(case['x'])
    mu = None if case['mu'] is None else np.array(case['mu'])

    def f(n, rng):
        X = np.array([paths.sample_wiener(t, x, mu, rng) for _ in range(n)])
        need(X.shape == (n, len(t), len(x)), 'wrong shape %r' % (X.shape,))
        Z = []
        for j in range(len(x)):
            m = x[j] + (0 if mu is None else mu[j]) * t
            Z.append(whiten(X[:, :, j], m, np.minimum.outer(t, t)))
        return gauss_ps(np.hstack(Z))
    two_stage(case, f, 1500, what='Wiener process')
    note('wiener_drift' if mu is not None else 'wiener_plain')
    return len(t) > 1


@st.composite
def bb_case(draw):
    d = draw(st.integers(0, 3))
    T = draw(scale) * draw(grid(0.5, 2, 0.1))
    v = (lambda: draw(sgrid(3, 0.1))) if d == 0 else (lambda: draw(st.lists(sgrid(3, 0.1), min_size=d, max_size=d)))
    return dict(T=T, t=[f * T for f in draw(fracs(1, 4))], a=v(), b=v(), seed=draw(seeds))


def run_bb(case):
    t, T = np.array(case['t']), case['T']
    a, b = (np.array(case[k]) if np.ndim(case[k]) else case[k] for k in 'ab')

    def f(n, rng):
        X = np.array([paths.sample_brownbr(t, T, a, b, rng) for _ in range(n)])
        need(X.shape == ((n, len(t)) if np.ndim(a) == 0 else (n, len(t), len(a))), 'wrong shape %r' % (X.shape,))
        if np.ndim(a) == 0:
            X, A, B = X[:, :, None], [a], [b]
        else:
            A, B = a, b
        return gauss_ps(np.hstack([bb_white(t, T, A[j], B[j], X[:, :, j]) for j in range(len(A))]))
    two_stage(case, f, 1500, what='Brownian bridge')
    note('bb_dim%d' % np.size(a))
    return len(t) > 1


@st.composite
def bes_case(draw):
    T = draw(scale) * draw(grid(0.5, 2, 0.1))
    return dict(T=T, t=[f * T for f in draw(fracs(1, 3))], dim=draw(st.integers(1, 5)),
                x=draw(grid(0, 3, 0.1)) * T ** .5, mu=draw(st.one_of(st.none(), sgrid(2, 0.1))), seed=draw(seeds))


def run_bes(case):
    t, dim, x0, mu = np.array(case['t']), case['dim'], case['x'], case['mu']

    def f(n, rng):
        X = np.array([paths.sample_bessel(t, x0, dim, mu, rng) for _ in range(n)])
        need(X.shape == (n, len(t)) and np.all(X >= 0), 'wrong shape or negative value')
        if mu:  # norm of a drifted Wiener process: marginals, and the first time
            U = [stats.ncx2.cdf(X[:, j] ** 2 / t[j], dim, max((x0 + mu * t[j]) ** 2 / t[j], 1e-12)) for j in range(len(t))]
            return {'m%d' % j: ks_u(u) for j, u in enumerate(U)}
        prev, tp, U = np.full(n, float(x0)), 0.0, []
        for j, tj in enumerate(t):
            dt = tj - tp
            U.append(stats.ncx2.cdf(X[:, j] ** 2 / dt, dim, np.maximum(prev ** 2 / dt, 1e-12)))
            prev, tp = X[:, j], tj
        return unif_ps(np.array(U).T)
    two_stage(case, f, 1000, what='Bessel process')
    return True


@st.composite
def besbr_case(draw):
    T = draw(scale) * draw(grid(0.5, 2, 0.1))
    return dict(T=T, t=[f * T for f in draw(fracs(1, 3))], dim=draw(st.integers(1, 5)), x=draw(grid(0.1, 3, 0.1)) * T ** .5,
                seed=draw(seeds))


def bes_dens(x, dt, a, dim):
    """Log transition density of the Bessel process a -> x, up to terms free of x and a."""
    nu = dim / 2 - 1
    z = a * x / dt
    return -(x - a) ** 2 / 2 / dt + np.log(ive(nu, z)) - nu * np.log(z) + (dim - 1) * np.log(x)


def run_besbr(case):
    t, T, dim, fx = np.array(case['t']), case['T'], case['dim'], case['x']

    def f(n, rng):
        X = np.array([paths.sample_besselbr(t, T, fx, dim, rng) for _ in range(n)])
        need(X.shape == (n, len(t)) and np.all(X >= 0), 'wrong shape or negative value')
        v = t[0] * (T - t[0]) / T
        U = [stats.ncx2.cdf(X[:, 0] ** 2 / v, dim, (fx * t[0] / T) ** 2 / v)]
        for j in range(1, len(t)):
            dt, rem = t[j] - t[j - 1], T - t[j]
            k = min(n, 400)
            u = np.empty(n)
            for s in range(0, n, k):
                a = X[s:s + k, j - 1][:, None]
                m, sd = a + (fx - a) * dt / (dt + rem), np.sqrt(dt * rem / (dt + rem))
                hi = np.maximum(m, sd * dim) + 9 * sd
                lo = np.maximum(m - 9 * sd, 1e-9 * sd)
                xs = lo + (hi - lo) * np.linspace(0, 1, 800) ** 1.0
                # h-transform: p(a -> x) p(x -> fx), with the reference measure of x counted once
                lg = bes_dens(xs, dt, a, dim) + bes_dens(fx, rem, xs, dim)
                u[s:s + k] = cdf_grid(np.exp(lg - lg.max(1, keepdims=True)), X[s:s + k, j], xs)
            U.append(u)
        return unif_ps(np.array(U).T)
    two_stage(case, f, 800, what='Bessel bridge')
    note('besbr_dim%d' % dim)
    return len(t) > 1


def run_moments(case):
    t, T = np.array(case['t']), case['T']
    a, b, mu = case['a'], case['b'], case['mu']
    m, c = moments.moments_wiener(t, a, mu)
    need_close(m, [a + mu * u for u in t], 'Wiener mean', 1e-10, 1e-10)
    need_close(c, [[min(u, w) for u in t] for w in t], 'Wiener covariance', 1e-12, 0)
    m, c = moments.moments_brownbr(t, T, a, b)
    need_close(m, [a * (T - u) / T + b * u / T for u in t], 'bridge mean', 1e-10, 1e-10)
    need_close(c, [[min(u, w) - u * w / T for u in t] for w in t], 'bridge covariance', 1e-9, 1e-12 * T)
    um, uc = moments.moments_wiener(np.append(t, T), a, mu)
    m2, c2 = moments.moments_gaussian_bridge(b, um, uc)
    need_close(m2, m, 'Wiener conditioned on its end is the bridge (mean)', 1e-9, 1e-9)
    need_close(c2, c, 'Wiener conditioned on its end is the bridge (covariance)', 1e-9, 1e-9 * T)
    # a general covariance: conditioning on the last value = regression
    rng = rng_of(case)
    k = len(t) + 1
    A = rng.standard_normal((k, k)); C = A @ A.T + 0.1 * np.eye(k); mean = rng.standard_normal(k)
    P = np.linalg.inv(C)
    m3, c3 = moments.moments_gaussian_bridge(b, mean, C)
    cov = np.linalg.inv(P[:-1, :-1])
    need_close(c3, cov, 'conditional covariance', 1e-6, 1e-7)
    need_close(m3, mean[:-1] - cov @ P[:-1, -1] * (b - mean[-1]), 'conditional mean', 1e-6, 1e-7)
    return len(t) > 1 and a != b


@st.composite
def mom_case(draw):
    T = draw(scale) * draw(grid(0.5, 2, 0.1))
    return dict(T=T, t=[f * T for f in draw(fracs(1, 6))], a=draw(sgrid(5, 0.1)), b=draw(sgrid(5, 0.1)), mu=draw(sgrid(3, 0.1)),
                r=draw(sgrid(5, 0.1)), ends=draw(st.integers(0, 3)), seed=draw(seeds))


def run_maps(case):
    T, a, b, r = case['T'], case['a'], case['b'], case['r']
    fr = ([0.0] if case['ends'] & 1 else []) + [u / T for u in case['t']] + ([1.0] if case['ends'] & 2 else [])
    s = np.array(fr); t = s * T
    t = np.minimum(t, T)
    rng = rng_of(case)
    z = rng.standard_normal(len(s))
    keep = t.copy(), z.copy()
    rt, rx = transforms.reverse(t, z, T)
    need_close(rt, [T - u for u in t[::-1]], 'reversed times', 1e-12, 1e-12)
    need(np.array_equal(rx, z[::-1]), 'reversed values')
    ft, fx = transforms.reflect(t, z, r)
    need(np.array_equal(ft, keep[0]), 'reflection changed the times')
    need_close(fx - r, r - z, 'reflected values', 1e-12, 1e-12)
    need(transforms.reflect(None, z, r)[0] is None, 'reflection of a path without times')
    pt, px = transforms.pivot_brownbr(s, z, T, a, b)
    need_close(pt, t, 'pivoted times', 1e-12, 1e-12 * T)
    need_close(px, a * (1 - s) + b * s + np.sqrt(T) * z, 'pivoted values', 1e-10, 1e-10)
    # with a clock: internal time is norm_time, the path lives on denorm_time
    k = 1 + abs(r)
    nt, dn = (lambda u: np.expm1(k * u / T)), (lambda w: np.log1p(w) * T / k)
    pt, px = transforms.pivot_brownbr(s, z, T, a, b, nt, dn)
    amp = np.expm1(k)
    need_close(pt, np.log1p(s * amp) * T / k, 'pivoted times under a clock', 1e-9, 1e-9 * T)
    need_close(px, a * (1 - s) + b * s + np.sqrt(amp) * z, 'pivoted values under a clock', 1e-9, 1e-9)
    si = s[(s > 0) & (s < 1)]
    zz = rng.standard_normal((len(si), 3))
    bt, bx = transforms.gen_seeded_bessel3br(si, zz, T, abs(b))
    need_close(bt, si * T, 'Bessel times', 1e-12, 1e-12 * T)
    ref = np.sqrt((np.sqrt(T) * zz[:, 0] + abs(b) * si) ** 2 + T * zz[:, 1] ** 2 + T * zz[:, 2] ** 2)
    need_close(bx, ref, 'Bessel bridge from three bridges', 1e-9, 1e-9)
    need(np.array_equal(t, keep[0]) and np.array_equal(z, keep[1]), 'inputs were modified')
    return len(s) > 1


@st.composite
def euler_case(draw):
    res = draw(st.sampled_from([0.1, 0.01, 0.125, 0.003, 1 / 3]))
    k = draw(st.integers(1, 40))
    return dict(n=draw(st.integers(1, 6)), res=res, T=k * res + draw(st.sampled_from([0.0, 0.5])) * res,
                x=draw(sgrid(2, 0.1)), a=draw(sgrid(2, 0.1)), b=draw(grid(0.2, 2, 0.1)), seed=draw(seeds))


def run_euler(case):
    n, res, T, x0, a, b = (case[k] for k in ('n', 'res', 'T', 'x', 'a', 'b'))
    dfunc, vfunc = (lambda x: a - 0.5 * x), (lambda x: b + 0.1 * np.cos(x))
    def inc(m, rng):
        E = []
        while sum(len(e) for e in E) < m:
            t, X = testing.euler_simulate(n, T, x0, dfunc, vfunc, res, rng)
            need(X.shape == (n, len(t)), 'as many points as times')
            need_close(t, res * np.arange(len(t)), 'times', 1e-9, 1e-9)
            need(T - res - 1e-9 <= t[-1] <= T + 1e-9 * T + 1e-12, 'last time %r against the horizon %r' % (t[-1], T))
            need(np.all(X[:, 0] == x0), 'start')
            E.append(((np.diff(X, axis=1) - dfunc(X[:, :-1]) * res) / vfunc(X[:, :-1]) / np.sqrt(res)).ravel())
        return np.concatenate(E)

    def f(m, rng):
        return gauss_ps(inc(m, rng)[:, None])
    two_stage(case, f, 600, what='Euler increments')
    return len(np.arange(0, T, res)) > 2


@st.composite
def fill_case(draw):
    d = draw(st.integers(1, 3))
    T = draw(scale) * draw(grid(0.5, 2, 0.1))
    fr = draw(fracs(2, 7))
    known = draw(st.sets(st.integers(0, len(fr) - 1), max_size=len(fr) - 1))
    return dict(T=T, known=[fr[i] for i in sorted(known)], new=[fr[i] for i in range(len(fr)) if i not in known], d=d, seed=draw(seeds))


def run_fill(case):
    T, d = case['T'], case['d']
    t = np.array([0.0] + case['known'] + [1.0]) * T
    new = np.array(case['new']) * T
    x = rng_of(case, 7).standard_normal((len(t), d)) * np.sqrt(T)
    keep = t.copy(), x.copy(), new.copy()

    def f(n, rng):
        X = []
        for _ in range(n):
            tt, xx, idx = interpolators.fill_wiener_vector(t, x, new, rng)
            idx = np.asarray(idx)
            need(np.array_equal(tt, np.sort(np.concatenate([t, new]))) and xx.shape == (len(tt), d), 'times of the filled path')
            need(np.array_equal(tt[idx], new), 'reported positions of the new times')
            old = ~np.isin(np.arange(len(tt)), idx)
            need(np.array_equal(xx[old], x), 'a known point was changed')
            X.append(xx[idx])
        X = np.array(X)
        Z = []
        for a, b, xa, xb in zip(t, t[1:], x, x[1:]):
            sel = (new > a) & (new < b)
            if sel.any():
                Z += [bb_white(new[sel] - a, b - a, xa[j], xb[j], X[:, sel, j]) for j in range(d)]
        return gauss_ps(np.hstack(Z))
    two_stage(case, f, 600, what='values inserted into a vector path')
    need(all(np.array_equal(u, v) for u, v in zip(keep, (t, x, new))), 'inputs were modified')
    return d > 1 and len(t) > 2


SUBS = [
    Sub('moments', mom_case(), run_moments, 2000, 30000, 'moments against textbook formulas, conditioning against precision matrices; non-trivial: several times, distinct ends', cap=20, shards=8),
    Sub('maps', mom_case(), run_maps, 2000, 30000, 'reversal, reflection, pivot (with and without clock), three-bridge construction; non-trivial: several points', cap=20, shards=8),
    Sub('wiener', wiener_case(), run_wiener, 64, 600, '1-3 dimensions, with and without drift, whitened; non-trivial: several times', cap=120),
    Sub('brownbr', bb_case(), run_bb, 64, 600, 'scalar and vector bridges, whitened; non-trivial: several times', cap=120),
    Sub('bessel', bes_case(), run_bes, 64, 600, 'dimension 1-5, sequential non-central chi-square transforms (marginals under drift)', cap=120),
    Sub('besselbr', besbr_case(), run_besbr, 48, 480, 'dimension 1-5, sequential transforms from Bessel transition densities; non-trivial: several times', cap=120),
    Sub('euler', euler_case(), run_euler, 96, 960, 'standardised increments are standard normal, shapes and times; non-trivial: more than two steps', cap=60),
    Sub('fill', fill_case(), run_fill, 48, 480, 'known points kept, new ones have the exact bridge law; non-trivial: vector path with inner known points', cap=120),
]
