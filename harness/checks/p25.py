"""P25: adaptive proposals are valid Metropolis proposals."""
import numpy as np
from hypothesis import strategies as st
from core import Sub, note
from lib import *
from ctbayes.misc import adapt
from ctbayes.mjplib import skeleton as mjp

TITLE = "adaptive proposals"

INF = float('inf')


@st.composite
def bound(draw):
    k = draw(st.sampled_from(['pos', 'low', 'up', 'free']))
    if k == 'pos':
        return [0.0, 'inf'], draw(st.sampled_from([1.0, 1e-3, 0.1, 10.0, 1e4])) * draw(grid(0.5, 2, 0.1))
    if k == 'low':
        lb = draw(sgrid(5, 0.5))
        return [lb, 'inf'], lb + draw(grid(0.1, 4, 0.1))
    if k == 'up':
        ub = draw(sgrid(5, 0.5))
        return ['-inf', ub], ub - draw(grid(0.1, 4, 0.1))
    return ['-inf', 'inf'], draw(sgrid(5, 0.5))


@st.composite
def prop_case(draw, dmax=4):
    bs = draw(st.lists(bound(), min_size=1, max_size=dmax))
    return dict(bounds=[b for b, _ in bs], state=[x for _, x in bs], hist=draw(st.lists(st.sampled_from([0.0, 0.1, 0.3, 1.0]), max_size=12)),
                scalar=len(bs) == 1 and draw(st.booleans()), opt=draw(st.sampled_from([0.234, 0.2, 0.44])), seed=draw(seeds))


def lohi(case):
    b = [[float(x) for x in p] for p in case['bounds']]
    return np.array([p[0] for p in b]), np.array([p[1] for p in b])


def real(x, lo, hi):
    """Own map to the line and log |d real / d x|, component by component."""
    y, g = [], []
    for v, a, b in zip(np.atleast_1d(x), lo, hi):
        if a > -INF and b == INF:
            y.append(np.log(v - a)); g.append(-np.log(v - a))
        elif a == -INF and b < INF:
            y.append(np.log(b - v)); g.append(-np.log(b - v))
        else:
            y.append(v); g.append(0.0)
    return np.array(y), np.array(g)


def make(case, state=None):
    lo, hi = lohi(case)
    x = np.array(case['state'] if state is None else state, float)
    if case['scalar']:
        return adapt.MyopicRwSampler(float(x[0]), (lo[0], hi[0]), case['opt'])
    return adapt.MyopicMvRwSampler(x, (lo, hi), case['opt'])


def feed(s, case, probs, rng, spread=0.3):
    """Feeds an acceptance history together with a wandering state inside the bounds; ends at the case's state."""
    lo, hi = lohi(case)
    y0, _ = real(case['state'], lo, hi)
    for k, p in enumerate(probs):
        y = y0 + (0 if k == len(probs) - 1 else spread * rng.standard_normal(len(y0)))
        x = np.array([a + np.exp(v) if a > -INF and b == INF else b - np.exp(v) if b < INF and a == -INF else v for v, a, b in zip(y, lo, hi)])
        s.adapt(float(x[0]) if case['scalar'] else x, p)


def run_dens(case):
    """Forward and backward densities and bounds, after an arbitrary history."""
    lo, hi = lohi(case)
    rng = rng_of(case)
    s = make(case)
    feed(s, case, case['hist'], rng)
    cur = np.atleast_1d(np.array(s.state, float)).copy()
    _, gx = real(cur, lo, hi)
    far = 0
    for _ in range(6):
        p, fw, bw = s.propose(rng)
        p = np.atleast_1d(np.asarray(p, float))
        need(p.shape == cur.shape and np.all(np.isfinite(p)), 'malformed proposal %r' % p)
        need(np.all(p > lo) and np.all(p < hi), 'proposal %r outside the bounds' % p)
        _, gp = real(p, lo, hi)
        # q(p|x)/q(x|p) = exp(sum gp - sum gx), as the walk is symmetric on the line
        need(np.ndim(fw) == 0 and np.ndim(bw) == 0, 'densities are not scalars')
        need_close(fw - bw, np.sum(gp) - np.sum(gx), 'difference of the log densities', 1e-6, 1e-6)
        need(np.array_equal(np.atleast_1d(s.state), cur), 'proposing changed the state')
        far += np.any(p != cur)
    need(far == 6, 'proposal equal to the state')
    return any(a > -INF or b < INF for a, b in zip(lo, hi))


def run_sym(case):
    """The walk is centred, Gaussian and symmetric on the line."""
    lo, hi = lohi(case)
    d = len(lo)

    def f(n, rng):
        s = make(case)
        feed(s, case, case['hist'], rng_of(case, 9))
        y0, _ = real(np.atleast_1d(s.state), lo, hi)
        Y = np.array([real(s.propose(rng)[0], lo, hi)[0] for _ in range(n)]) - y0
        C = np.cov(Y[:n // 2].T).reshape(d, d)
        Z = np.linalg.solve(np.linalg.cholesky(C), Y[n // 2:].T).T
        out = {'mean': float(stats.f.sf((n // 2) * np.sum(Z.mean(0) ** 2) / d, d, n // 2 - d))}
        for i in range(d):
            out['sym%d' % i] = binom_p(np.sum(Y[:, i] > 0), n, 0.5)
            out['ks%d' % i] = stats.ks_2samp(Y[:, i], -Y[:, i]).pvalue
            z = Y[:, i] / np.sqrt(np.mean(Y[:, i] ** 2))
            out['kurt%d' % i] = float(2 * stats.norm.sf(abs(np.mean(z ** 4) - 3) / np.sqrt(24 / n)))
        return out
    two_stage(case, f, 1500, what='random walk on the line')
    return True


def step(s, case, k):
    """Size of the move on the line under a fixed generator."""
    lo, hi = lohi(case)
    y0, _ = real(np.atleast_1d(s.state), lo, hi)
    p = np.atleast_1d(s.propose(np.random.default_rng([case['seed'], 77, k]))[0])
    return float(np.linalg.norm(real(p, lo, hi)[0] - y0))


@st.composite
def adapt_case(draw):
    c = draw(prop_case(3))
    c['m'] = draw(st.integers(25, 60))
    c['lowhigh'] = [draw(st.sampled_from([0.0, 0.05, 0.1])), draw(st.sampled_from([1.0, 0.7, 0.5]))]
    return c


def run_adapt(case):
    """Same samples, different acceptance: higher acceptance gives larger steps, the target acceptance none, in vanishing amounts."""
    opt = case['opt']
    size = {}
    for key, p in (('low', case['lowhigh'][0]), ('opt', opt), ('high', max(case['lowhigh'][1], opt + 0.05))):
        s = make(case)
        feed(s, case, case['hist'], rng_of(case, 3))
        feed(s, case, [p] * case['m'], rng_of(case, 4))
        size[key] = np.array([step(s, case, k) for k in range(3)])
    need(np.all(size['low'] < size['opt'] * (1 - 1e-9)), 'steps after acceptance %r (%r) not below those at the target (%r)' % (case['lowhigh'][0], size['low'], size['opt']))
    need(np.all(size['high'] > size['opt'] * (1 + 1e-9)), 'steps after high acceptance (%r) not above those at the target (%r)' % (size['high'], size['opt']))
    if case['scalar']:
        s = make(case)
        before = step(s, case, 0)
        feed(s, case, [opt] * case['m'], rng_of(case, 4), 0.0)
        need_close(step(s, case, 0), before, 'step size under the target acceptance', 1e-9, 1e-12)
    return bool(case['hist'])


def run_vanish(case):
    """Movements of the scale die out, whatever the acceptance history."""
    rng = rng_of(case, 5)
    lo, hi = lohi(case)
    y0, _ = real(case['state'], lo, hi)
    X = [np.array([a + np.exp(v) if a > -INF and b == INF else b - np.exp(v) if b < INF and a == -INF else v for v, a, b in zip(y, lo, hi)])
         for y in y0 + 0.5 * rng.standard_normal((3000, len(y0)))]
    s = make(case)
    prev, inc = step(s, case, 0), []
    for k, x in enumerate(X):
        s.adapt(float(x[0]) if case['scalar'] else x, 1.0 if rng.uniform() < 0.5 else 0.0)
        if k < 60 or k >= 2500:
            cur = step(s, case, 0)
            if k != 2500:
                inc.append(abs(np.log(cur / prev)))
            prev = cur
    early, late = max(inc[:60]), max(inc[60:])
    need(late < 0.15, 'late adaptation still moves the step size by %r' % late)
    need(early > 1e-3, 'no early adaptation')
    return True


def run_shape(case):
    """Proposals take the shape of the samples fed in."""
    d = len(case['state'])
    if d < 2:
        return False
    lo, hi = lohi(case)
    rng = rng_of(case, 6)
    y0 = np.clip(real(case['state'], lo, hi)[0], -2, 2)
    s = make(dict(case, scalar=False), [a + np.exp(v) if a > -INF and b == INF else b - np.exp(v) if b < INF and a == -INF else v for v, a, b in zip(y0, lo, hi)])
    A = np.linalg.cholesky(0.7 * np.ones((d, d)) + 0.3 * np.eye(d)) * 0.6
    A = np.diag(np.where(rng.uniform(size=d) < 0.5, -1, 1) * rng.uniform(0.4, 2, d)) @ A
    Y = y0 + rng.standard_normal((1500, d)) @ A.T
    for y in Y:
        x = np.array([a + np.exp(v) if a > -INF and b == INF else b - np.exp(v) if b < INF and a == -INF else v for v, a, b in zip(y, lo, hi)])
        s.adapt(x, case['opt'])
    y1, _ = real(s.state, lo, hi)
    M = np.array([real(s.propose(rng)[0], lo, hi)[0] for _ in range(2500)]) - y1
    C, R = np.cov(M.T), np.cov(Y[:-100].T)
    need(np.max(np.abs(np.corrcoef(M.T) - np.corrcoef(Y.T))) < 0.25, 'correlation of the proposals %r, of the samples %r' % (np.corrcoef(M.T).tolist(), np.corrcoef(Y.T).tolist()))
    r = np.diag(C) / np.diag(R)
    need(r.max() / r.min() < 2, 'relative spread of the proposals %r' % r.tolist())
    return True


@st.composite
def seq_case(draw):
    return dict(d=draw(st.integers(1, 4)), n0=draw(st.integers(2, 6)), n=draw(st.integers(1, 30)), loc=draw(sgrid(50, 1)),
                scale=draw(st.sampled_from([1.0, 1e-3, 1e3])), seed=draw(seeds))


def run_seq(case):
    d, n0, n = case['d'], case['n0'], case['n']
    rng = rng_of(case)
    y = case['loc'] + case['scale'] * rng.standard_t(3, (n0 + n, d))
    mean, cov = y[:n0].mean(0), np.cov(y[:n0].T).reshape(d, d)
    for i in range(n0, n0 + n):
        mean, cov = adapt.seq_update_normal(y[i], i, mean, cov)
        if i in (n0, n0 + n - 1):
            need_close(mean, y[:i + 1].mean(0), 'running mean', 1e-8, 1e-9 * case['scale'])
            need_close(cov, np.cov(y[:i + 1].T).reshape(d, d), 'running covariance', 1e-6, 1e-6 * case['scale'] ** 2)
    return n > 1


@st.composite
def mjp_case(draw):
    n, r = draw(gen_strategy(2, 4))
    T = draw(grid(0.5, 6, 0.1))
    return dict(n=n, r=r, T=T, obs=draw(fracs(0, 8)), hist=draw(st.lists(st.sampled_from([0.0, 1.0, 0.3]), max_size=10)), seed=draw(seeds))


def run_mjp(case):
    gen = dense_gen(case['r'], case['n'])
    T = case['T']
    rng = rng_of(case)
    ts, xs = mjp_sim(rng, T, int(rng.integers(case['n'])), gen)
    y = mjp.Skeleton(ts, xs, T)
    keep = ts.copy(), xs.copy()
    t = np.array([0.0] + case['obs'] + [1.0]) * T
    s = adapt.MyopicMjpSampler(y)
    for p in case['hist']:
        s.adapt(y, p)
    at = lambda sk, u: np.asarray(sk.xt)[np.searchsorted(np.asarray(sk.t), u, 'right') - 1]
    used = 0
    for _ in range(8):
        prop, tc = s.propose(gen, t, rng)
        tc = np.asarray(tc)
        need(np.all(np.isin(tc, t[1:-1])) and np.all(np.diff(tc) > 0), 'conditioning times %r' % tc)
        need(np.array_equal(at(prop, tc), at(y, tc)), 'regimes at the conditioning times changed')
        pt, px = np.asarray(prop.t), np.asarray(prop.xt)
        need(pt[0] == 0 and np.all(np.diff(pt) > 0) and pt[-1] < T and abs(prop.fin_t - T) < 1e-9 * T, 'malformed proposal')
        need(len(pt) == len(px) and np.all(np.diff(px) != 0) and np.all((px >= 0) & (px < case['n'])), 'malformed regimes')
        used += len(tc)
    need(np.array_equal(y.t, keep[0]) and np.array_equal(y.xt, keep[1]), 'the current path was modified')
    return used > 0


def run_sect(case):
    """Every inner time is used with one common probability, independently; more often after low acceptance."""
    gen = dense_gen(case['r'], case['n'])
    T = case['T']
    t = np.array([0.0] + case['obs'] + [1.0]) * T
    k = len(t) - 2
    if k < 2:
        return False
    y = mjp.Skeleton(np.array([0.0]), np.array([0]), T)

    def incl(hist, n, rng):
        s = adapt.MyopicMjpSampler(y)
        for p in hist:
            s.adapt(y, p)
        return np.array([np.isin(t[1:-1], s.propose(gen, t, rng)[1]) for _ in range(n)])

    def f(n, rng):
        B = incl(case['hist'], n, rng)
        tot, each = B.sum(), B.sum(0)
        out = {'common': stats.chi2_contingency(np.array([each + .5, n - each + .5])).pvalue if 0 < tot < n * k else 1.0}
        p = tot / n / k
        cnt = np.bincount(B.sum(1), minlength=k + 1)
        if 0.02 < p < 0.98:
            out['count'] = chi2_p(cnt, stats.binom.pmf(np.arange(k + 1), k, p))
        lo, hi = incl([0.0] * 10, n, rng).mean(), incl([1.0] * 10, n, rng).mean()
        need(lo > hi, 'share of boundaries after low acceptance %r, after high acceptance %r' % (lo, hi))
        return out
    two_stage(case, f, 300, what='choice of the conditioning times')
    return True


SUBS = [
    Sub('density', prop_case(), run_dens, 1500, 30000, 'bounds of all kinds, 0-12 adaptations before; log density difference against the map to the line; non-trivial: a bounded component', cap=20, shards=8),
    Sub('symmetry', prop_case(3), run_sym, 48, 480, 'proposals on the line are centred, symmetric, Gaussian', cap=60),
    Sub('adapt', adapt_case(), run_adapt, 400, 6000, 'same samples under low, target and high acceptance; non-trivial: after a history', cap=30, shards=8),
    Sub('vanish', prop_case(2), run_vanish, 32, 320, '3000 adaptations under random acceptance', cap=60),
    Sub('shape', prop_case(4), run_shape, 32, 320, 'covariance of the proposals after 1500 correlated samples; non-trivial: several components', cap=60),
    Sub('running', seq_case(), run_seq, 600, 10000, 'running mean and covariance against numpy; non-trivial: several updates', cap=20, shards=8),
    Sub('regimes', mjp_case(), run_mjp, 600, 10000, 'regime proposals after a history; non-trivial: conditioning times used', cap=30, shards=8),
    Sub('sections', mjp_case(), run_sect, 32, 320, 'law of the conditioning times; non-trivial: at least two candidates', cap=60),
]
