"""P20: adaptive rejection sampling is exact for log-concave targets."""
import itertools
import numpy as np
from scipy.special import expit
from hypothesis import strategies as st
from core import Sub, note
from lib import *
from ctbayes.misc import ars

TITLE = "adaptive rejection sampling"


def target(case):
    """-> f, df, lb, ub, frozen distribution, mode, typical width"""
    fam, a, b, m, s = case['fam'], case['a'], case['b'], case['m'], case['s']
    if fam == 'normal':
        return lambda x: -((x - m) / s) ** 2 / 2, lambda x: -(x - m) / s ** 2, -np.inf, np.inf, stats.norm(m, s), m, s
    if fam == 'truncnorm':
        lb, ub = {0: (m - a * s, m + b * s), 1: (m - a * s, np.inf), 2: (-np.inf, m + b * s)}[case['side']]
        return lambda x: -((x - m) / s) ** 2 / 2, lambda x: -(x - m) / s ** 2, lb, ub, stats.truncnorm((lb - m) / s, (ub - m) / s, m, s), m, s
    if fam == 'gamma':
        return lambda x: a * np.log(x) - x / s, lambda x: a / x - 1 / s, 0, np.inf, stats.gamma(a + 1, scale=s), a * s, s * np.sqrt(a + 1)
    if fam == 'neggamma':  # support (-inf, m)
        return lambda x: a * np.log(m - x) - (m - x) / s, lambda x: -a / (m - x) + 1 / s, -np.inf, m, RevGamma(a + 1, s, m), m - a * s, s * np.sqrt(a + 1)
    if fam == 'beta':  # on (m, m + s)
        return (lambda x: a * np.log(x - m) + b * np.log(m + s - x), lambda x: a / (x - m) - b / (m + s - x), m, m + s,
                stats.beta(a + 1, b + 1, m, s), m + s * a / (a + b), s / (2 + np.sqrt(a + b)))
    if fam == 'logistic':
        return lambda x: -(x - m) / s - 2 * np.logaddexp(0, -(x - m) / s), lambda x: -np.tanh((x - m) / s / 2) / s, -np.inf, np.inf, stats.logistic(m, s), m, s
    if fam == 'gumbel':
        return lambda x: -(x - m) / s - np.exp(-(x - m) / s), lambda x: (-1 + np.exp(-(x - m) / s)) / s, -np.inf, np.inf, stats.gumbel_r(m, s), m, s
    if fam == 'quartic':
        return lambda x: -((x - m) / s) ** 4 - ((x - m) / s) ** 2 / 2, lambda x: (-4 * ((x - m) / s) ** 3 - (x - m) / s) / s, -np.inf, np.inf, Quartic(m, s), m, s / 2


class RevGamma:
    def __init__(self, a, s, m):
        self.d, self.m = stats.gamma(a, scale=s), m

    def cdf(self, x):
        return self.d.sf(self.m - np.asarray(x))


class Quartic:
    xs = np.linspace(-5, 5, 20001)

    def __init__(self, m, s):
        self.m, self.s = m, s

    def cdf(self, x):
        return cdf_grid(np.exp(-self.xs ** 4 - self.xs ** 2 / 2), (np.asarray(x) - self.m) / self.s, self.xs)


FAMS = ['normal', 'truncnorm', 'gamma', 'neggamma', 'beta', 'logistic', 'gumbel', 'quartic']


@st.composite
def ars_case(draw):
    fam = draw(st.sampled_from(FAMS))
    # default starting points are one unit from the mode: keep the log density finite there
    s = draw(st.sampled_from([0.05, 0.3, 1.0, 1.0, 4.0, 30.0])) if fam in ('normal', 'truncnorm', 'gamma', 'neggamma', 'beta') else draw(grid(0.3, 5, 0.1))
    init = draw(st.one_of(st.just(None), st.lists(st.integers(-30, 30), min_size=2, max_size=7, unique=True)))
    if init is not None and not (min(init) < 0 < max(init)):
        init = sorted(set([-10, 10] + init))
    cap = draw(st.sampled_from([100, 100, 2, 5, 10]))
    if init is None and s < 1:  # a hull of two supports many standard deviations out never accepts
        cap = 100
    return dict(fam=fam, a=draw(grid(0.1, 6, 0.1)), b=draw(grid(0.1, 6, 0.1)), m=draw(sgrid(10 if s >= 0.3 else 3, 0.1)), s=s, side=draw(st.integers(0, 2)),
                init=init, order=draw(st.booleans()), cap=cap, seed=draw(seeds))


def points(case):
    """Starting points bracing the mode (one of them may be the mode itself), inside the support."""
    f, df, lb, ub, d, mode, w = target(case)
    if case['init'] is None:
        return None
    x = []
    for k in case['init']:
        v = mode + w * k / 10
        if v <= lb + 0.02 * (mode - lb) or v >= ub - 0.02 * (ub - mode):  # k / 31 of the way to the bound
            v = mode + (ub - mode) * abs(k) / 31 if k > 0 else mode + (lb - mode) * abs(k) / 31
        x.append(v)
    x = np.array(sorted(set(x)))
    return x[::-1].copy() if case['order'] else x


def run_law(case):
    f, df, lb, ub, d, mode, w = target(case)
    init = points(case)
    few = case['cap'] <= 5  # poor hulls: do not ask for wide starting points with a tiny hull
    cap = max(case['cap'], 20) if few and init is not None and len(init) > 5 else case['cap']

    def g(n, rng):
        keep = None if init is None else init.copy()
        X = np.array(list(ars.sample(f, df, lb, ub, init, cap, rng, n)), float)
        need(len(X) == n, lambda: '%d draws instead of %d' % (len(X), n))
        need(init is None or np.array_equal(init, keep), 'starting points modified')
        need(np.all((X > lb) & (X < ub)), 'draw outside of the support')
        # many short runs: the first draws, from the poorest hull, are exact as well
        Y = np.array([next(ars.sample(f, df, lb, ub, init, cap, rng)) for _ in range(n // 4)], float)
        u = d.cdf(X)
        return {**{'run_' + k: v for k, v in unif_ps(u[:, None]).items()}, **{'first_' + k: v for k, v in unif_ps(d.cdf(Y)[:, None]).items()}}
    two_stage(case, g, 400, what='%s target' % case['fam'])
    note('default start' if init is None else 'given start')
    return True


@st.composite
def hull_case(draw):
    c = draw(ars_case())
    c['init'] = sorted(set([-draw(st.integers(1, 30)), draw(st.integers(1, 30))] + draw(st.lists(st.integers(-30, 30), max_size=5))))
    c['order'] = False
    c['at'] = draw(fracs(1, 5))
    return c


def run_hull(case):
    f, df, lb, ub, d, mode, w = target(case)
    x = points(case)
    fx, dfx = f(x), df(x)
    if np.any(np.abs(np.diff(dfx)) * w < 1e-6):
        return False
    z = ars.gen_upper(x, fx, dfx)
    need(np.all((z >= x[:-1] - 1e-9 * w) & (z <= x[1:] + 1e-9 * w)), lambda: 'hull corners %r not between the supports %r' % (z.tolist(), x.tolist()))
    left, right = fx[:-1] + dfx[:-1] * (z - x[:-1]), fx[1:] + dfx[1:] * (z - x[1:])
    need_close(left, right, 'tangents do not meet at the corner', 1e-7, 1e-7 * (1 + np.max(np.abs(fx))))
    y = np.array([lb, *z, ub])
    lo_, hi_ = max(lb, x[0] - 3 * w), min(ub, x[-1] + 3 * w)
    for q in [lo_ + (hi_ - lo_) * a for a in case['at']] + list(x[:-1] + np.diff(x) * case['at'][0]):
        up, lo = ars.eval_upper(x, fx, dfx, y, q), ars.eval_lower(x, fx, q)
        tol = 1e-7 * (1 + abs(f(q)) + np.max(np.abs(fx)))
        need(up >= f(q) - tol, lambda: 'upper hull %r below the target %r at %r' % (up, f(q), q))
        need(lo <= f(q) + tol, lambda: 'lower hull %r above the target %r at %r' % (lo, f(q), q))
        need_close(up, np.min(fx + dfx * (q - x)), 'upper hull is not the lowest tangent', 1e-7, tol)
        if x[0] < q < x[-1]:
            need_close(lo, np.interp(q, x, fx), 'lower hull is not the chord', 1e-7, tol)
        elif q < x[0] or q > x[-1]:
            need(lo == -np.inf, 'lower hull finite outside of the supports')
    return len(x) > 2


def hull_cdf(x, fx, dfx, y, q):
    """cdf of exp(upper hull), segment by segment, by numerical integration."""
    a, b = np.array(y[:-1]), np.array(y[1:])
    if np.isinf(a[0]):
        a[0] = x[0] - 60 / dfx[0] if x[0] - 60 / dfx[0] < b[0] else b[0] - 60 / dfx[0]
    if np.isinf(b[-1]):
        b[-1] = max(x[-1], a[-1]) + 60 / -dfx[-1]
    g = np.concatenate([np.linspace(a_, b_, 4001) for a_, b_ in zip(a, b)])
    h = np.concatenate([f_ + s_ * (np.linspace(a_, b_, 4001) - x_) for a_, b_, x_, f_, s_ in zip(a, b, x, fx, dfx)])
    e = np.exp(h - h.max())
    c = np.concatenate([[0], np.cumsum((e[1:] + e[:-1]) / 2 * np.diff(g))])
    return np.interp(q, g, c / c[-1])


def run_env(case):
    f, df, lb, ub, d, mode, w = target(case)
    x = points(case)
    fx, dfx = f(x), df(x)
    if np.any(np.abs(np.diff(dfx)) * w < 1e-3) or np.max(np.abs(fx - np.max(fx))) > 40 or (np.isinf(lb) and dfx[0] <= 0) or (np.isinf(ub) and dfx[-1] >= 0):
        return False
    y = np.array([lb, *ars.gen_upper(x, fx, dfx), ub])

    def g(n, rng):
        Y = np.array([ars.sample_envelope(x, fx, dfx, y, rng) for _ in range(n)])
        need(np.all((Y >= lb) & (Y <= ub)), 'draw from the hull outside of the support')
        return unif_ps(hull_cdf(x, fx, dfx, y, Y)[:, None])
    two_stage(case, g, 400, what='upper hull')
    return len(x) > 2


def run_brace(case):
    f, df, lb, ub, d, mode, w = target(case)
    b = ars.brace(f, lb, ub)
    need(len(b) == 2 and lb < b[0] < b[1] < ub, lambda: 'starting points %r outside of (%r, %r)' % (b.tolist(), lb, ub))
    need(df(b[0]) > 0 > df(b[1]), lambda: 'starting points %r do not brace the mode %r' % (b.tolist(), mode))
    return True


SUBS = [
    Sub('law', ars_case(), run_law, 320, 8000, 'all: random family, scale, support, start and hull size', cap=60),
    Sub('hull', hull_case(), run_hull, 2000, 40000, 'hulls with more than two supports', shards=8),
    Sub('envelope', hull_case(), run_env, 160, 4000, 'hulls with more than two supports', cap=60),
    Sub('brace', ars_case(), run_brace, 800, 20000, 'all', shards=8),
]
