"""P09: parameter updates of the diffusion sampler leave the joint law of parameter, data and path invariant.

Parameter from the prior, data and paths from the model (exactly), then m updates: every functional keeps its law.
"""
import numpy as np
from hypothesis import strategies as st
from core import Sub, note
from lib import *
from ctbayes.ito import mcmc
from ctbayes.ito.models import ou
from ctbayes.ea3lib import seed as sde_seed
from ctbayes.misc.adapt import MyopicRwSampler

TITLE = "diffusion parameter updates"


@st.composite
def controls(draw):
    return dict(pr_portkey=draw(st.sampled_from([0.01, 0.0, 0.3, 0.9])), ea_batch_size=draw(st.sampled_from([10, 1, 2, 100])),
                precoin=draw(st.booleans()), opt_acc_prob=draw(st.sampled_from([0.2, 0.5])))


@st.composite
def case_(draw):
    k = draw(st.integers(1, 3))
    dt = draw(st.lists(grid(0.1, 1.2, 0.1), min_size=k, max_size=k))
    own = draw(st.booleans())
    if own:  # the model's own prior is wide: short intervals keep the coins affordable
        dt = [round(d * 0.2, 3) for d in dt]
    mid = [draw(grid(0.3, 0.9, 0.1)), draw(grid(0.3, 2, 0.1))]
    return dict(dt=dt, v0=0.0 if own else round(draw(sgrid(1, 0.1)) * mid[1], 3), own=own, mid=mid,
                sd=[draw(grid(0.1, 0.4, 0.1)), draw(grid(0.1, 0.4, 0.1))], scale=draw(st.sampled_from([-1.0, -0.5, -1.5])),
                ctrl=draw(controls()), m=draw(st.integers(1, 4)), joint=draw(st.booleans()), seed=draw(seeds))


def prior_of(case):
    """(mean, sd) of the independent normal laws of log thi, and the log prior on the parameter scale."""
    if case['own']:  # -(log bet + log rho + log(bet)^2 / 2 + (2 log rho)^2 / 2)
        return np.zeros(2), np.array([1.0, 0.5]), ou.eval_log_prior
    mu, sd = np.log(case['mid']), np.array(case['sd'])
    return mu, sd, lambda th: float(np.sum(stats.norm.logpdf(np.log(th), mu, sd) - np.log(th))) if np.all(th > 0) else -np.inf


def model(t, v, log_prior):
    return mcmc.Model(t, v, ou.bounds_thi, log_prior, ou.sample_aug, ou.gen_normops, ou.eval_biased_log_lik,
                      ou.eval_disc, ou.eval_bounds_disc, ou.eval_bounds_grad)


def path(thi, t, v, rng):
    """One exact seed per interval."""
    return [next(sde_seed.sample_bridge(ou.bounds_x, no, de, ou.eval_disc(thi), ou.eval_bounds_disc(thi), rng))
            for no, de in ou.gen_normops(thi, t, v)]


def white_path(thi, t, v, z, fr, rng):
    out = []
    for (no, de), dt, v0, v1, z_ in zip(ou.gen_normops(thi, t, v), np.diff(t), v, v[1:], z):
        q = np.array(fr) * dt
        x = ou.dereduce(thi, sde_seed.interpolate_seed(z_, q, no, de, rng)[1])
        out.append(ou_bridge_white(*thi, q, dt, v0, v1, x[None])[0])
    return np.concatenate(out)


def data_stats(t, v):
    """Bounded summaries of the data."""
    dt, dv = np.diff(t), np.diff(v)
    return np.tanh(np.array([np.mean(dv ** 2 / dt), v[-1], np.mean(v[1:] * v[:-1])]))


def paired_p(d, least=60):
    """p-value of mean zero for paired differences, if enough pairs differ."""
    d = np.asarray(d, float)
    if not np.all(np.isfinite(d)):
        return 0.0
    return mean_p(d) if np.sum(np.abs(d) > 1e-12) >= least else 1.0


def chain(case, rng, m=None):
    """-> (u before, u after, data, whitened path after, moved)"""
    mu, sd, lp = prior_of(case)
    t = np.concatenate([[0], np.cumsum(case['dt'])])
    ctrl = mcmc.Controls(**case['ctrl'])
    while True:
        u = rng.standard_normal(2)
        thi = np.exp(mu + sd * u)
        if not case['own'] or thi[0] * t[-1] < 3:
            break
    v = [case['v0']]
    for d in case['dt']:
        mean, var = ou_trans(*thi, d, v[-1])
        v.append(mean + np.sqrt(var) * rng.standard_normal())
    v = np.array(v)
    if case['own']:
        full = lp
        lp = lambda th: full(th) if th[0] * t[-1] < 3 else -np.inf
    mod = model(t, v, lp)
    z = path(thi, t, v, rng)
    th = thi
    for _ in range(case['m']):
        samplers = [MyopicRwSampler(float(x), (0.0, np.inf), ctrl.opt_acc_prob) for x in th]
        for s in samplers:
            s.log_prop_scale = [case['scale']]
        th, z = mcmc.update_params(th, z, mod, ctrl, samplers, rng)
        if case['joint']:
            z = mcmc.update_sde(th, z, mod, ctrl, rng, SeqPool())
    th = np.asarray(th, float)
    return u, (np.log(th) - mu) / sd, data_stats(t, v), white_path(th, t, v, z, [0.3, 0.7], rng), loglik(th, t, v) - loglik(thi, t, v)


def loglik(thi, t, v):
    return ou_loglik(*thi, t, v)


def run_case(case):
    def f(n, rng):
        U0, U1, S, Z, dl = (np.array(x) for x in zip(*[chain(case, rng) for _ in range(n)]))
        need(np.all(np.isfinite(U1)), 'parameter outside its bounds')
        out = {'path_' + k: p for k, p in gauss_ps(Z).items()}
        T = sum(case['dt'])
        cap = (np.log(3 / T) - prior_of(case)[0][0]) / prior_of(case)[1][0]
        W = np.column_stack([ndtri(np.clip(ndtr(U1[:, 0]) / ndtr(cap), 1e-12, 1 - 1e-12)) if case['own'] else U1[:, 0], U1[:, 1]])
        out.update({'prior_' + k: p for k, p in gauss_ps(W).items()})
        g0, g1 = np.tanh(U0), np.tanh(U1)
        for i in range(2):
            out['mean%d' % i] = paired_p(g1[:, i] - g0[:, i])
            out['spread%d' % i] = paired_p(g1[:, i] ** 2 - g0[:, i] ** 2)
            for j in range(S.shape[1]):
                out['data%d%d' % (i, j)] = paired_p((g1[:, i] - g0[:, i]) * S[:, j])
        out['cross'] = paired_p(g1[:, 0] * g1[:, 1] - g0[:, 0] * g0[:, 1])
        moved = np.mean(np.any(np.abs(U1 - U0) > 1e-9, 1))
        need(moved > 0.01, 'no parameter update was ever accepted')
        note('moved_above_20_percent', moved > 0.2)
        return out
    two_stage(case, f, 1000, mult=6, what='joint law of parameter, data and path')
    note('precoin' if case['ctrl']['precoin'] else 'no_precoin')
    note('own_prior' if case['own'] else 'other_prior')
    return True


class Stub:
    """A proposal with a given value and given densities."""

    def __init__(self, value, fw, bw):
        self.out = value, fw, bw

    def propose(self, ome):
        return self.out

    def adapt(self, sample, prob):
        pass


def ou_cost(bet, T, a, b):
    return bet ** 2 * T * (a * a + a * b + b * b) / 6 + bet ** 2 * T ** 2 / 12


@st.composite
def bal_case(draw):
    k = draw(st.integers(1, 2))
    dt = draw(st.lists(grid(0.2, 2, 0.1), min_size=k, max_size=k))
    return dict(dt=dt, bet=draw(grid(0.3, 2.5, 0.1)), sig=draw(grid(0.3, 2, 0.1)), x=draw(st.lists(sgrid(2, 0.1), min_size=k + 1, max_size=k + 1)),
                j=draw(st.integers(0, 1)), d=draw(st.sampled_from([0.5, 1.0, -0.5, -1.0])), tilt=draw(sgrid(1, 0.5)), fw=draw(sgrid(3, 0.5)),
                ctrl=draw(controls()), seed=draw(seeds))


def balance_p(x, y, r, least=40):
    """p-value of mean(x) == r mean(y) for small-valued arrays, if both have enough non-zeros."""
    if np.sum(x != 0) < least or np.sum(y != 0) < least:
        return 1.0
    s = np.sqrt(x.var() / len(x) + r * r * y.var() / len(y))
    return float(2 * stats.norm.sf(abs(x.mean() - r * y.mean()) / max(s, 1e-12)))


def run_balance(case):
    """Two parameters A and B: the flows A -> B and B -> A under the posterior are equal, also split by the path."""
    t = np.concatenate([[0], np.cumsum(case['dt'])])
    A = np.array([case['bet'], case['sig']])
    f = case['d']
    B = A.copy(); B[case['j']] *= np.exp(f)
    sc = 1.0  # shrink data and rates until the coins are affordable
    for _ in range(60):
        v = np.array(case['x']) * min(A[1], B[1]) * sc
        bet = max(A[0], B[0])
        if sum(ou_cost(bet, d, a / min(A[1], B[1]), b / min(A[1], B[1])) for d, a, b in zip(case['dt'], v, v[1:])) < 2.5:
            break
        sc *= 0.85
        A[0] *= 0.95; B[0] *= 0.95
    mu, sd = np.log([1.0, 1.0]), np.array([1.0, 1.0])
    lp = lambda th: float(np.sum(stats.norm.logpdf(np.log(th), mu, sd) - np.log(th)))
    mod, ctrl = model(t, v, lp), mcmc.Controls(**case['ctrl'])
    post = lambda th: lp(th) + ou_loglik(*th, t, v)
    gap = post(B) - post(A)
    fw, bw = case['fw'], case['fw'] - gap + case['tilt']  # flow A -> B over flow B -> A is then exp(tilt)

    def flow(start, end, fw, bw, n, rng):
        acc, half = np.zeros(n), np.zeros(n)
        for i in range(n):
            z = path(start, t, v, rng)
            th, z = mcmc.update_params(start, z, mod, ctrl, [Stub(float(end[c]), fw if c == case['j'] else 0., bw if c == case['j'] else 0.) for c in range(2)], rng)
            if np.asarray(th)[case['j']] != start[case['j']]:
                need(np.array_equal(th, end), 'an accepted proposal was altered')
                acc[i] = 1
                no, de = mod.gen_normops(start, t, v)[0]
                q = np.array([0.35, 0.65]) * t[1]
                x = sde_seed.interpolate_seed(z[0], q, no, de, rng)[1]
                half[i] = np.abs(no(q, x)[1]).sum() < 0.7
        return acc, acc * half

    def g(n, rng):
        (a, ah), (b, bh) = flow(A, B, fw, bw, n, rng), flow(B, A, bw, fw, n, rng)
        note('accepted', a.sum() + b.sum())
        need(a.sum() + b.sum() > 0 or n < 500, 'no proposal was ever accepted')
        # the densities tilt the acceptance odds: pi(A) a exp(fw) = pi(B) b exp(bw)
        r = np.exp(gap + bw - fw)
        return {'flow': balance_p(a, b, r), 'low': balance_p(ah, bh, r), 'high': balance_p(a - ah, b - bh, r)}
    two_stage(case, g, 800, mult=6, what='detailed balance between two parameters')
    note('component_%d' % case['j'])
    return True


def recorder(mod):
    """The model with its discount wrapped so that every value it is evaluated at is written down."""
    log = []

    def eval_disc(*a):
        def g(x):
            log.append(np.array(x, float).ravel())
            return mod.eval_disc(*a)(x)
        return g
    return mod._replace(eval_disc=eval_disc), log


def forgotten(xs, known):
    """Values in xs which are not among the known ones."""
    xs = np.concatenate(xs) if xs else np.zeros(0)
    known = np.sort(known)
    if not len(xs):
        return xs
    if not len(known):
        return xs
    k = np.clip(np.searchsorted(known, xs), 1, max(len(known) - 1, 1))
    near = np.minimum(np.abs(known[np.minimum(k, len(known) - 1)] - xs), np.abs(known[k - 1] - xs))
    return xs[near > 1e-7 * (1 + np.abs(xs))]


def keeps(z_, s0, x0):
    """Every point (s0, x0) is on the path (stored times may move by rounding)."""
    if len(s0) == 0:
        return True
    if len(z_.s) < len(s0):
        return False
    k = np.searchsorted(z_.s, s0 - 1e-9)
    for _ in range(50):  # the first stored time near s0 with the same value
        j = np.minimum(k, len(z_.s) - 1)
        miss = (np.abs(z_.z[j] - x0) > 1e-7 * (1 + np.abs(x0))) & (z_.s[np.minimum(j + 1, len(z_.s) - 1)] < s0 + 1e-9) & (k < len(z_.s) - 1)
        if not miss.any():
            break
        k = k + miss
    j = np.minimum(k, len(z_.s) - 1)
    return bool(np.all(np.abs(z_.s[j] - s0) < 1e-9) and np.all(np.abs(z_.z[j] - x0) < 1e-7 * (1 + np.abs(x0))))


def run_memory(case):
    """Whatever the update has looked at stays part of the path it returns."""
    rng = rng_of(case)
    t = np.concatenate([[0], np.cumsum(case['dt'])])
    A = np.array([case['bet'], case['sig']])
    B = A.copy(); B[case['j']] *= np.exp(case['d'])
    v = np.array(case['x']) * A[1] * min(1.0, 0.7 / A[0])
    mod0, ctrl = model(t, v, lambda th: 0.0), mcmc.Controls(**case['ctrl'])
    mod, log = recorder(mod0)
    gap = ou_loglik(*B, t, v) - ou_loglik(*A, t, v)
    z = mod0.sample_aug(A, t, v, rng)
    old = [(z_.s, z_.z) for z_ in z]
    th = A
    seen = 0
    for _ in range(4):
        st_ = [Stub(float((A[c] + B[c]) - th[c]), 0., (-gap if th[case['j']] == A[case['j']] else gap) if c == case['j'] else 0.) for c in range(2)]
        th, z = mcmc.update_params(th, z, mod, ctrl, st_, rng)
        for z_, (s0, x0) in zip(z, old):
            need(keeps(z_, s0, x0), 'a known point of the path was lost or altered')
        old = [(z_.s, z_.z) for z_ in z]
        known = np.concatenate([mod0.gen_normops(q, t, v)[i][1](z_.s, z_.z)[1] for i, z_ in enumerate(z) for q in (A, B) if len(z_.s)] or [np.zeros(0)])
        lost = forgotten(log, known)
        need(len(lost) == 0, lambda: 'the discount was evaluated at %r, which is not on the returned path' % lost[:5].tolist())
        seen += sum(len(x) for x in log)
        log.clear()
    return seen > 0


SUBS = [
    Sub('memory', bal_case(), run_memory, 2400, 40000, 'up to 4 updates between two parameters; every point looked at stays on the path; non-trivial: something was looked at', cap=60),
    Sub('balance', bal_case(), run_balance, 28, 400, 'two parameters far apart, any densities reported by the proposal: posterior flows in both directions agree, also given the path', cap=400),
    Sub('invariance', case_(), run_case, 28, 400, '1-3 intervals, random controls, proposal scales, 1-4 updates with or without path updates in between, 1000 exact joint draws each', cap=400),
]
