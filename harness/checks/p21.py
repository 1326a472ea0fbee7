"""P21: minimum and exit probabilities of Brownian and Bessel bridges are exact."""
import numpy as np
from scipy.special import expit
from hypothesis import strategies as st
from core import Sub, note
from lib import *
from ctbayes.sdelib import hitting, transforms

TITLE = "minima and exits of bridges"

times = st.one_of(grid(0.05, 3, 0.05), st.sampled_from([0.001, 0.01, 10.0, 40.0]))


@st.composite
def min_case(draw, restrict=None):
    """End values, horizon and an optional restriction of the minimum (in units of the root of the horizon)."""
    T = draw(times)
    s = float(np.sqrt(T))
    a = draw(sgrid(3, 0.1))
    d = draw(st.one_of(st.just(0.0), sgrid(3, 0.1)))
    kind = draw(st.sampled_from(['none', 'lower', 'upper', 'both'])) if restrict is None else restrict
    x, y = draw(grid(0, 1.5)), draw(grid(0.02, 1.5))
    if kind in ('none', 'lower'):
        x = 0.0
    return dict(T=T, a=a, b=round(a + d * s, 6), ub=x if kind in ('upper', 'both') else None,
                lb=round(x + y, 4) if kind in ('lower', 'both') else None, seed=draw(seeds))


def unpack(c):
    s, m = np.sqrt(c['T']), min(c['a'], c['b'])
    return c['T'], c['a'], c['b'], None if c['lb'] is None else m - c['lb'] * s, None if c['ub'] is None else m - c['ub'] * s


def min_cdf(x, T, a, b, lb=None, ub=None):
    g = lambda m: np.where(m < min(a, b), np.exp(-2 * (a - np.minimum(m, min(a, b))) * (b - np.minimum(m, min(a, b))) / T), 1.0)
    lo = 0.0 if lb is None else g(lb)
    hi = 1.0 if ub is None else g(ub)
    return (g(x) - lo) / (hi - lo)


def run_cdf(case):
    T, a, b, lb, ub = unpack(case)
    s, top = np.sqrt(T), min(a, b) if ub is None else ub
    if -2 * (a - top) * (b - top) / T < -25:
        return False
    rng = rng_of(case)
    lo = lb if lb is not None else top - 4 * s
    last = -1.0
    for q in np.linspace(0, 1, 9):
        x = lo + (top - lo) * q
        p = hitting.cdf_brownbr_min(x, T, a, b, lb, ub)
        need_close(p, min_cdf(x, T, a, b, lb, ub), 'distribution function of the minimum', 1e-8, 1e-9)
        need(p >= last - 1e-12, 'distribution function not monotone')
        last = p
        back = hitting.ppf_brownbr_min(min(max(p, 0), 1), T, a, b, lb, ub)
        if 1e-6 < p < 1 - 1e-9:
            need_close(back, x, 'quantile of the distribution function', 1e-6, 1e-6 * s)
        pr = float(rng.uniform())
        x = hitting.ppf_brownbr_min(pr, T, a, b, lb, ub)
        need(lo - 1e-9 * s <= x <= top + 1e-9 * s or lb is None and x <= top + 1e-9 * s, 'quantile outside of the range')
        need_close(hitting.cdf_brownbr_min(min(x, top), T, a, b, lb, ub), pr, 'distribution function of the quantile', 1e-7, 1e-7)
    need_close(hitting.cdf_brownbr_min(top, T, a, b, lb, ub), 1.0, 'distribution function at the top')
    need_close(hitting.cdf_brownbr_min(lb if lb is not None else -np.inf, T, a, b, lb, ub), 0.0, 'distribution function at the bottom', 0, 1e-12)
    # symmetric in the two ends
    x = lo + 0.4 * (top - lo)
    need_close(hitting.cdf_brownbr_min(x, T, a, b, lb, ub), hitting.cdf_brownbr_min(x, T, b, a, lb, ub), 'time reversal')
    return lb is not None or ub is not None


# ------------------------------------------------------------------ minima and their times

def stay3(S, x, w):
    """bes_stay over arrays: P(Bessel-3 bridge from 0 to x over S stays below w)."""
    S, x, w = np.broadcast_arrays(np.asarray(S, float), np.asarray(x, float), np.asarray(w, float))
    out = np.ones(S.shape)
    r = S / w ** 2
    A = (r < 1.0) & (r > 0.02)
    j = np.arange(-9, 10)[:, None]
    out[A] = np.sum((x[A] + 2 * j * w[A]) / x[A] * np.exp(-2 * j * w[A] * (j * w[A] + x[A]) / S[A]), 0)
    A = r >= 1.0
    n = np.arange(1, 12)[:, None]
    num = 2 / w[A] * np.sum(n * np.pi / w[A] * np.sin(n * np.pi * x[A] / w[A]) * np.exp(-n ** 2 * np.pi ** 2 * r[A] / 2), 0)
    out[A] = num / (2 * x[A] / S[A] * np.exp(-x[A] ** 2 / (2 * S[A])) / np.sqrt(2 * np.pi * S[A]))
    A = r <= 0.02  # the wall matters only if the end point is close to it
    out[A] = -np.expm1(-2 * w[A] * (w[A] - x[A]) / S[A])
    return np.clip(out, 0, 1)


U = np.linspace(-22, 22, 1201)
SU = expit(U)


def time_pit(t, T, x, y, w=None):
    """cdf at t of the time of the minimum of bridges ending x, y above their minimum (staying below w above it)."""
    out = []
    for t_, x_, y_, w_ in zip(t, x, y, w if w is not None else [None] * len(t)):
        s = T * SU
        r = T * expit(-U)
        ld = np.log(x_ * y_) - 1.5 * np.log(s) - 1.5 * np.log(r) - x_ ** 2 / (2 * s) - y_ ** 2 / (2 * r) + np.log(SU) + np.log(expit(-U))
        d = np.exp(ld - ld.max())
        if w_ is not None:
            d = d * stay3(s, x_, w_) * stay3(r, y_, w_)
        c = np.concatenate([[0], np.cumsum((d[1:] + d[:-1]) / 2)])
        out.append(np.interp(np.log(t_ / (T - t_)), U, c / c[-1]))
    return np.array(out)


def run_min(case):
    T, a, b, lb, ub = unpack(case)
    top = min(a, b) if ub is None else ub
    if -2 * (a - top) * (b - top) / T < -15 or abs(a - b) > 3.5 * np.sqrt(T):
        return False

    def f(n, rng):
        t, m = np.array([hitting.sample_brownbr_min(T, a, b, lb, ub, rng) for _ in range(n)]).T
        need(np.all((t > 0) & (t < T)) and np.all((m <= top) & (m >= (-np.inf if lb is None else lb - 1e-9))), 'minimum or its time out of range')
        return unif_ps(np.array([min_cdf(m, T, a, b, lb, ub), time_pit(t, T, a - m, b - m)]).T)
    two_stage(case, f, 400, what='minimum of a Brownian bridge')
    return True


def run_seeded(case):
    T, a, b, _, _ = unpack(case)
    if abs(a - b) > 3.5 * np.sqrt(T):
        return False

    def f(n, rng):
        out = []
        for _ in range(n):
            u, r2 = rng.uniform(size=3), float(rng.chisquare(1))
            t, m = transforms.gen_seeded_brownbr_min(u, r2, T, a, b)
            need((t, m) == transforms.gen_seeded_brownbr_min(u, r2, T, a, b), 'seeded minimum not a function of its seed')
            need_close(min_cdf(m, T, a, b), u[0], 'seeded minimum is not the quantile of its seed', 1e-7, 1e-9)
            out.append((t, m))
        t, m = np.array(out).T
        need(np.all((t > 0) & (t < T)), 'time of the minimum out of range')
        return unif_ps(np.array([min_cdf(m, T, a, b), time_pit(t, T, a - m, b - m)]).T)
    two_stage(case, f, 400, what='seeded minimum')
    return True


@st.composite
def layer_min_case(draw):
    c = draw(min_case())
    c['up'] = draw(st.one_of(st.just(None), grid(0.3, 1.5, 0.05)))
    return c


def run_layer_min(case):
    T, a, b, lb, ub = unpack(case)
    top = min(a, b) if ub is None else ub
    s = np.sqrt(T)
    up = None if case['up'] is None else max(a, b) + case['up'] * s
    U_ = np.inf if up is None else up
    if -2 * (a - top) * (b - top) / T < -8 or abs(a - b) > 2 * s:
        return False
    base = lambda m: pr_stay(T, a, b, m, U_)
    g = lambda m: 0.0 if m >= min(a, b) else base(m)   # P(min > m, max < up)
    lo, hi = (g(lb) if lb is not None else base(-np.inf)), g(top)
    # probability that a proposal restricted to the interval is accepted
    full = pr_stay(T, a, b, lb if lb is not None else -np.inf, np.inf) - pr_stay(T, a, b, top, np.inf)
    if (lo - hi) / full < 0.03 or lo - hi < 1e-8:
        return False

    def f(n, rng):
        t, m = np.array([hitting.sample_layerbr_min(T, a, b, up, lb, ub, rng) for _ in range(n)]).T
        need(np.all((t > 0) & (t < T)) and np.all((m <= top) & (m >= (-np.inf if lb is None else lb - 1e-9))), 'minimum or its time out of range')
        u = np.array([(lo - g(m_)) / (lo - hi) for m_ in m])
        return unif_ps(np.array([u, time_pit(t, T, a - m, b - m, None if up is None else up - m)]).T)
    two_stage(case, f, 400, what='minimum of a bridge below a level')
    return up is not None


# ------------------------------------------------------------------ exits

@st.composite
def esc_case(draw):
    """Width of the band relative to the horizon from very wide to T = 3 width^2."""
    w = draw(st.one_of(grid(0.2, 4, 0.05), st.sampled_from([0.02, 30.0])))
    r = draw(st.one_of(grid(0.05, 1.2, 0.01), grid(0.5, 3, 0.05)))
    return dict(w=w, r=r, a=draw(grid(0.02, 0.98)), b=draw(grid(0.02, 0.98)), out=draw(st.one_of(st.just(None), grid(1.02, 2, 0.02))),
                kind=draw(st.sampled_from(['brown', 'bessel', 'bessel0'])), us=draw(st.lists(grid(0, 1, 0.001), min_size=1, max_size=4)))


def stay_pr(kind, T, a, b, w):
    """P(stay below w / inside (0, w)) of the bridge with ends a, b measured from the lower edge."""
    if kind == 'brown':
        return pr_stay(T, a, b, 0, w)
    if kind == 'bessel0':
        return bes_stay(T, b, w)
    return pr_stay(T, a, b, 0, w) / pr_stay(T, a, b, 0, np.inf)


def run_esc(case):
    w, kind = case['w'], case['kind']
    T, a, b = case['r'] * w ** 2, case['a'] * w, case['b'] * w
    W = None if case['out'] is None else case['out'] * w
    if kind == 'brown':  # symmetric bands around 0
        call = lambda e, o, u: hitting.sample_brownbr_esc(T, a - w / 2, b - w / 2, e / 2, None if o is None else o / 2, u)
        p_in = stay_pr(kind, T, a, b, w)
        p_out = 1.0 if W is None else pr_stay(T, a, b, w / 2 - W / 2, w / 2 + W / 2)
    else:
        x = 0.0 if kind == 'bessel0' else a
        call = lambda e, o, u: hitting.sample_bessel3br_esc(T, x, b, e, o, u)
        p_in = stay_pr(kind, T, a, b, w)
        p_out = 1.0 if W is None else stay_pr(kind, T, a, b, W)
    if p_out < 1e-7 or p_in < 1e-10:
        return False
    p = 1 - p_in / p_out
    m = max(1e-6, 1e-11 / p_out)
    if p < 1e-7:
        return False
    for u, want in ((p * (1 - m) - 1e-12, True), (p + (1 - p) * m + 1e-12, False), (p / 2, True), ((1 + p) / 2, False)):
        if 0 <= u < 1 and (want or 1 - p > 1e-7):
            got = call(w, W, u)
            need(got is want or got == want, lambda: '%s bridge: exit probability %.12g, but seed %.12g gives %r' % (kind, p, u, got))
    for u in case['us']:
        if abs(u - p) > 1e-6 and 0 < u < 1:
            need(call(w, W, u) == (u < p), lambda: '%s bridge: exit probability %.12g, seed %r' % (kind, p, u))
            # monotone in the level
            r = [call(w * k, None if W is None else W * 1.6, u) for k in (1, 1.1, 1.3, 1.5)]
            need(all(x >= y for x, y in zip(r, r[1:])), 'exit not monotone in the level for one seed')
    # levels the end points already reach, and levels beyond the bound
    top = max(a, b)
    lvl = (2 * max(abs(a - w / 2), abs(b - w / 2)) if kind == 'brown' else max(b, a if kind == 'bessel' else 0))
    if lvl > 0:
        need(call(lvl, None, 0.999) == True, 'level touched by an end point is not an exit')
    need(call(w * 1.01, w, 0.3) == False, 'exit beyond the outer bound')
    note(kind + (' bounded' if W else ''))
    if W and p_out < 0.3:
        note('narrow outer bound')
    return 1e-4 < p < 1 - 1e-4


def run_series(case):
    """The partial sums really enclose the probability and converge to it."""
    w, kind = case['w'], case['kind']
    T, a, b = case['r'] * w ** 2, case['a'] * w, case['b'] * w
    p = 1 - stay_pr(kind, T, a, b, w)
    if kind == 'brown':
        g = hitting.series_brownbr_esc(T, a - w / 2, b - w / 2, w / 2)
    else:
        g = hitting.series_bessel3br_esc(T, 0.0 if kind == 'bessel0' else a, b, w)
    s = [next(g) for _ in range(40)]
    need_close(s[-1], p, 'limit of the series', 1e-7, 1e-10)
    return p > 1e-6


@st.composite
def freq_case(draw):
    c = draw(esc_case())
    c['seed'] = draw(seeds)
    c['r'] = min(c['r'], 1.0)
    return c


def run_freq(case):
    """Without a seed, the generator decides: frequencies, and independence of successive calls."""
    w, kind = case['w'], case['kind']
    T, a, b = case['r'] * w ** 2, case['a'] * w, case['b'] * w
    W = None if case['out'] is None else case['out'] * w
    if kind == 'brown':
        call = lambda rng: hitting.sample_brownbr_esc(T, a - w / 2, b - w / 2, w / 2, None if W is None else W / 2, ome=rng)
        p = 1 - stay_pr(kind, T, a, b, w) / (1.0 if W is None else pr_stay(T, a, b, w / 2 - W / 2, w / 2 + W / 2))
    else:
        call = lambda rng: hitting.sample_bessel3br_esc(T, 0.0 if kind == 'bessel0' else a, b, w, W, ome=rng)
        p = 1 - stay_pr(kind, T, a, b, w) / (1.0 if W is None else stay_pr(kind, T, a, b, W))

    def f(n, rng):
        x = np.array([call(rng) for _ in range(n)])
        return {'freq': binom_p(x.sum(), n, p), 'pairs': binom_p(np.sum(x[::2] & x[1::2]), n // 2, p * p)}
    two_stage(case, f, 600, what='exit of a %s bridge' % kind)
    return 0.05 < p < 0.95


SUBS = [
    Sub('cdf', min_case(), run_cdf, 1500, 40000, 'minimum restricted below or above', shards=8),
    Sub('min', min_case(), run_min, 240, 1500, 'end values within 3.5 standard deviations', cap=100),
    Sub('layer_min', layer_min_case(), run_layer_min, 480, 2000, 'with an upper level', cap=150),
    Sub('seeded', min_case('none'), run_seeded, 160, 1000, 'end values within 3.5 standard deviations', cap=100),
    Sub('exit', esc_case(), run_esc, 2500, 80000, 'exit probability inside (1e-4, 1 - 1e-4)', shards=8),
    Sub('series', esc_case(), run_series, 1500, 40000, 'exit probability above 1e-6', shards=8),
    Sub('frequency', freq_case(), run_freq, 150, 4000, 'exit probability inside (0.05, 0.95)', cap=60),
]
