"""P17: Poisson process samplers are exact, in one go or in batches."""
import numpy as np
from hypothesis import strategies as st
from core import Sub, note
from lib import *
from ctbayes.mjplib import skeleton as mjp

TITLE = "Poisson process samplers"


@st.composite
def ppp_case(draw, mean=(0.1, 40)):
    d = draw(st.integers(1, 3))
    box = draw(st.lists(st.one_of(grid(0.1, 5, 0.1), st.sampled_from([0.001, 50.0])), min_size=d, max_size=d))
    m = draw(st.one_of(grid(mean[0], 6, 0.1), grid(6, mean[1], 1)))
    return dict(box=box, mean=m, batch=draw(st.one_of(st.integers(1, 6), st.integers(7, 60), st.just(None))), seed=draw(seeds))


def realise(case, rng):
    """One realisation, checked for shape, order, box and batch sizes."""
    box, b = np.array(case['box']), case['batch']
    lam = case['mean'] / np.prod(box)
    if b is None:
        y = mjp.sample_ppp(lam, tuple(case['box']), rng)
    else:
        L = list(mjp.sample_batch_ppp(lam, tuple(case['box']), b, rng))
        need(all(len(l) == b for l in L[:-1]) and (not L or 0 < len(L[-1]) <= b), lambda: 'batch sizes %r' % [len(l) for l in L])
        y = np.vstack(L) if L else np.zeros((0, len(box)))
    need(y.ndim == 2 and y.shape[1] == len(box), lambda: 'shape %r' % (y.shape,))
    need(np.all(y >= 0) and np.all(y <= box), 'point outside of the box')
    need(np.all(np.diff(y[:, 0]) >= 0), 'points not sorted by the first coordinate')
    return y


def run_valid(case):
    rng = rng_of(case)
    n = [len(realise(case, rng)) for _ in range(5)]
    return max(n) > (case['batch'] or 1)


def run_law(case):
    box, b = np.array(case['box']), case['batch']

    def f(n, rng):
        N, G, GB, GL, O, H, W = [], [], [], [], [], [], []
        for _ in range(n):
            y = realise(case, rng) / box
            m = len(y)
            N.append(m)
            if m:
                # ratios of successive order statistics are independent powers of uniforms
                g = (y[:, 0] / np.append(y[1:, 0], 1.0)) ** np.arange(1, m + 1)
                G.append(g)
                i = np.arange(1, m + 1)
                if b:
                    GB.append(g[(i % b == 0) & (i < m)])
                GL.append(g[-1:])
                O.append(y[:, 1:])
                W.append(g)
            # counts in a sub-box given by halves of the first coordinate and thirds of the last
            c = y[(y[:, 0] < 0.5)]
            H.append([len(c), m - len(c)])
        H = np.array(H)
        ks = np.arange(0, int(case['mean'] + 6 * np.sqrt(case['mean']) + 5))
        pm = lambda mu: np.append(stats.poisson.pmf(ks, mu), stats.poisson.sf(ks[-1], mu))
        cnt = lambda x: np.bincount(np.minimum(x, ks[-1] + 1), minlength=len(ks) + 1)
        out = {'count': chi2_p(cnt(np.array(N)), pm(case['mean'])), 'left half': chi2_p(cnt(H[:, 0]), pm(case['mean'] / 2)),
               'right half': chi2_p(cnt(H[:, 1]), pm(case['mean'] / 2))}
        z = (H - case['mean'] / 2) / np.sqrt(case['mean'] / 2)
        if case['mean'] > 3:
            out['halves independent'] = mean_p(z[:, 0] * z[:, 1])
        cat = lambda L: np.concatenate(L) if L else np.zeros(0)
        for k, L in (('spacings', G), ('batch edges', GB), ('last', GL)):
            x = cat(L)
            if len(x) > 30:
                out[k] = ks_u(x)
        g = cat(G)
        if O and len(g) > 30:
            o = np.vstack(O)
            for c in range(o.shape[1]):
                out['coordinate %d' % (c + 1)] = ks_u(o[:, c])
                out['dependence %d' % (c + 1)] = mean_p(12 * (o[:, c] - .5) * (g - .5))
                out['serial %d' % (c + 1)] = mean_p(12 * (o[1:, c] - .5) * (o[:-1, c] - .5))
            if o.shape[1] == 2:
                out['cross'] = mean_p(12 * (o[:, 0] - .5) * (o[:, 1] - .5))
        if len(g) > 30:
            out['spacing serial'] = mean_p(12 * (g[1:] - .5) * (g[:-1] - .5))
        return out
    two_stage(case, f, 400, what='Poisson process')
    note('direct' if b is None else 'batched')
    return case['mean'] >= 0.5


SUBS = [
    Sub('valid', ppp_case((0.1, 200)), run_valid, 800, 20000, 'more points than one batch', shards=8),
    Sub('law', ppp_case(), run_law, 400, 8000, 'at least half a point expected', cap=120),
]
