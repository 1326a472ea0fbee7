"""P02: conditioned diffusion bridges (data-scale sampler and seed sampler) have exactly the model's law."""
import numpy as np
from hypothesis import strategies as st
from core import Sub, note
from lib import *
import coins
from ctbayes.ea3lib import seed as sde_seed
from ctbayes.ito.models import ou, cir

TITLE = "conditioned diffusion bridges"


def ou_br_cost(bet, T, a, b):
    return bet ** 2 * T * (a * a + a * b + b * b) / 6 + bet ** 2 * T ** 2 / 12


@st.composite
def ou_case(draw):
    T = draw(st.sampled_from([1.0, 0.1, 0.5, 2.0, 4.0])) * draw(grid(0.5, 1.5, 0.05))
    bet = min(draw(grid(0.05, 4, 0.05)), round(3.0 / T, 2))
    sig = draw(grid(0.1, 3, 0.1))
    xm = 0.0
    while xm < 6 and ou_br_cost(bet, T, xm + 0.1, xm + 0.1) < 1.8:
        xm += 0.1
    fa, fb = draw(sgrid(1, 0.1)), draw(sgrid(1, 0.1))
    return dict(thi=[bet, sig], T=T, v0=round(fa * xm * sig, 4), v1=round(fb * xm * sig, 4), fr=draw(fracs(1, 3)),
                api=draw(st.sampled_from(['seed', 'data'])), seed=draw(seeds))


def seed_paths(mod, thi, T, v0, v1, t, n, rng):
    """n paths from the seed sampler, revealed at t on the data scale."""
    no, de = mod.gen_normops(thi, np.array([0.0, T]), np.array([v0, v1]))[0]
    gen = sde_seed.sample_bridge(mod.bounds_x, no, de, mod.eval_disc(thi), mod.eval_bounds_disc(thi), rng)
    out = []
    for _ in range(n):
        s = next(gen)
        out.append(mod.dereduce(thi, s(t, no, de, rng)))
    return np.array(out)


def draw_paths(mod, case, n, rng):
    thi, T = np.array(case['thi']), case['T']
    t = np.array(case['fr']) * T
    if case['api'] == 'data':
        gen = mod.sample_sde(thi, t, T, case['v0'], case['v1'], rng)
        X = np.array([next(gen) for _ in range(n)])
    else:
        X = seed_paths(mod, thi, T, case['v0'], case['v1'], t, n, rng)
    need(X.shape == (n, len(t)), 'a draw has not one value per query time')
    need(np.all(np.isfinite(X)), 'non-finite path value')
    return t, X


def run_ou(case):
    bet, sig = case['thi']

    def f(n, rng):
        t, X = draw_paths(ou, case, n, rng)
        return gauss_ps(ou_bridge_white(bet, sig, t, case['T'], case['v0'], case['v1'], X))
    two_stage(case, f, 1000, mult=6, what='OU bridge')
    note('api_' + case['api'])
    return True


@st.composite
def mixed_case(draw):
    return dict(parts=draw(st.lists(ou_case(), min_size=2, max_size=12)), seed=draw(seeds))


def run_mixed(case):
    def f(n, rng):
        Z = []
        for p in case['parts']:
            t, X = draw_paths(ou, p, max(20, n // len(case['parts'])), rng)
            Z.append(ou_bridge_white(*p['thi'], t, p['T'], p['v0'], p['v1'], X).ravel())
        return {k: v for k, v in gauss_ps(np.concatenate(Z)[:, None]).items() if k != 'lag'}
    two_stage(case, f, 1000, mult=6, what='pooled OU bridges')
    return len({tuple(p['thi']) for p in case['parts']}) > 1


@st.composite
def cir_case(draw):
    thi = [draw(grid(0.3, 2, 0.1)), draw(grid(0.7, 3, 0.1)), draw(grid(0.3, 0.8, 0.05))]
    T = draw(grid(0.05, 0.5, 0.05))
    v0, v1 = draw(grid(0.7, 3, 0.1)), draw(grid(0.7, 3, 0.1))
    x0, x1 = 2 * v0 ** .5 / thi[2], 2 * v1 ** .5 / thi[2]
    api = 'data'
    if 2 * min(x0, x1) ** 2 / T > 14 and abs(x1 - x0) < 6 * T ** .5:
        api = draw(st.sampled_from(['seed', 'data']))  # elsewhere the seed law is known finding F14
    if abs(x1 - x0) > 3 * T ** .5:  # keep the end values reachable
        v1 = round(((x0 + np.sign(x1 - x0) * 3 * T ** .5) * thi[2] / 2) ** 2, 4)
    return dict(thi=thi, T=T, v0=v0, v1=v1, fr=draw(fracs(1, 2)), api=api, seed=draw(seeds))


def cir_rosenblatt(case, t, X):
    thi, T, v1 = case['thi'], case['T'], case['v1']
    U, prev, tp = [], np.full(len(X), case['v0']), 0.0
    for j, tj in enumerate(t):
        lo, hi = X[:, j].min() * 0.5, X[:, j].max() * 1.5
        sd = thi[2] * np.sqrt(max(case['v0'], v1, hi) * T)
        xs = np.linspace(max(1e-6, min(lo, min(case['v0'], v1) - 5 * sd)), max(hi, max(case['v0'], v1) + 5 * sd), 1500)
        back = cir_pdf(thi, T - tj, xs, v1)
        if j == 0:
            U.append(cdf_grid(cir_pdf(thi, tj - tp, prev[0], xs) * back, X[:, 0], xs))
        else:
            d = cir_pdf(thi, tj - tp, prev[:, None], xs[None]) * back
            U.append(cdf_grid(d, X[:, j], xs))
        prev, tp = X[:, j], tj
    return np.array(U).T


def run_cir(case):
    def f(n, rng):
        t, X = draw_paths(cir, case, n, rng)
        need(np.all(X > 0), 'CIR value outside the domain')
        return unif_ps(cir_rosenblatt(case, t, X))
    two_stage(case, f, 500, mult=4, what='CIR bridge')
    note('cir_api_' + case['api'])
    return True


@st.composite
def coin_case(draw):
    c = draw(ou_case())
    c['batch'] = draw(st.sampled_from([None, 1, 2, 10, 100]))
    c['first'] = draw(st.integers(0, 2))
    return c


def run_coin(case):
    """Chance of the Poisson coin times its weight, averaged over plain bridges, is the exact density ratio."""
    bet, sig = case['thi']
    thi, T = np.array(case['thi']), case['T']
    a, b = case['v0'] / sig, case['v1'] / sig
    (no, de), = ou.gen_normops(thi, np.array([0., T]), np.array([case['v0'], case['v1']]))
    m, v = ou_trans(bet, 1.0, T, a)
    ex = np.exp(stats.norm.logpdf(b, m, np.sqrt(v)) - stats.norm.logpdf(b, a, np.sqrt(T)) + bet * (b * b - a * a) / 2 - bet * T / 2)
    args = () if case['batch'] is None else (case['batch'],)

    def f(n, rng):
        w = np.zeros(n)
        for i in range(n):
            z = sde_seed.sample_raw_seed(ou.bounds_x, no, de, rng)
            if case['first']:  # revealing some of the path beforehand makes no difference
                z, _ = sde_seed.interpolate_seed(z, np.sort(rng.uniform(0, T, case['first'])), no, de, rng)
            ok, lw, _ = sde_seed.flip_poisson_coin(z, no, de, ou.eval_disc(thi), ou.eval_bounds_disc(thi), rng, *args)
            w[i] = ok * np.exp(lw - bet * T / 2)
        need(w.max() <= 1 + 1e-9, 'weight above the supremum')
        return dict(coin=bounded_mean_p(w, 1.0, ex, rng))
    two_stage(case, f, 2500, mult=6, what='Poisson coin')
    return ex < 0.9


SUBS = [
    Sub('known', coins.known_case(), lambda c: coins.run_known(c, 'seed'), 64, 640, 'success frequency of the coin on a densely known normalised bridge, all batch sizes; non-trivial: explicit batch size', cap=100),
    Sub('kept', coins.kept_case(), lambda c: coins.run_kept(c, 'seed'), 1500, 20000, 'values the coin has tested are values of the bridge it returns; non-trivial: more than one batch', cap=20, shards=8),
    Sub('coin', coin_case(), run_coin, 48, 480, 'mean of success times weight of the Poisson coin over plain bridges against the exact ratio, all batch sizes; non-trivial: ratio below 0.9', cap=200),
    Sub('ou', ou_case(), run_ou, 24, 200, 'random parameters and end values of both signs, 1-3 interior times, data-scale or seed sampler, whitened by the exact conditional law', cap=200),
    Sub('ou_mixed', mixed_case(), run_mixed, 16, 96, '2-12 parameter sets pooled', cap=200),
    Sub('cir', cir_case(), run_cir, 16, 96, 'CIR bridges against the ratio of non-central chi-square densities', cap=240),
]
