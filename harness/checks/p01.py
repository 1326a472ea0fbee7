"""P01: unconditional diffusion paths have exactly the model's law (Rosenblatt transforms of exact transitions)."""
import numpy as np
from hypothesis import strategies as st
from scipy.special import ndtr
from core import Sub, note
from lib import *
import coins
from ctbayes.ito.models import ou, cir

TITLE = "unconditional diffusion law"


def ou_acc(bet, T, x0):
    """Upper bound on minus the log acceptance probability of one proposal."""
    x1 = x0 / (1 + bet * T)
    return bet ** 2 * T * (x0 ** 2 + x0 * x1 + x1 ** 2) / 6 + bet * T / 2


@st.composite
def ou_case(draw):
    T = draw(st.sampled_from([1.0, 0.1, 0.5, 2.0, 4.0])) * draw(grid(0.5, 1.5, 0.05))
    bet = draw(grid(0.05, 4, 0.05))
    bet = min(bet, round(2.0 / T, 2))
    sig = draw(grid(0.1, 3, 0.1))
    f = draw(sgrid(1, 0.1))
    xm = 0.0
    while xm < 6 and ou_acc(bet, T, xm + 0.1) < 1.8:
        xm += 0.1
    fr = draw(fracs(1, 3))
    if draw(st.booleans()):
        fr = fr + [1.0]
    return dict(thi=[bet, sig], T=T, v0=round(f * xm * sig, 4), fr=fr, seed=draw(seeds))


def draws(mod, case, n, rng, fin_v=None):
    thi, T = np.array(case['thi']), case['T']
    t = np.array(case['fr']) * T
    gen = mod.sample_sde(thi, t, T, case['v0'], fin_v, rng)
    out = [np.asarray(next(gen), float) for _ in range(n)]
    need(all(o.shape == t.shape for o in out), 'a draw has not one value per query time')
    X = np.array(out)
    need(np.all(np.isfinite(X)), 'non-finite path value')
    return t, X


def run_ou(case):
    bet, sig = case['thi']

    def f(n, rng):
        t, X = draws(ou, case, n, rng)
        return gauss_ps(ou_rosenblatt(bet, sig, t, case['v0'], X))
    two_stage(case, f, 1500, mult=5, what='OU path')
    note('ou_v0_zero' if case['v0'] == 0 else 'ou_v0_nonzero')
    return True


@st.composite
def cir_case(draw):
    # away from the boundary: the cost of one draw grows without bound as the path gets near zero
    sig = draw(grid(0.3, 0.8, 0.05))
    thi = [draw(grid(0.3, 2, 0.1)), draw(grid(0.7, 3, 0.1)), sig]
    T = draw(grid(0.05, 0.5, 0.05))
    fr = draw(fracs(1, 2))
    if draw(st.booleans()):
        fr = fr + [1.0]
    return dict(thi=thi, T=T, v0=draw(grid(0.7, 3, 0.1)), fr=fr, seed=draw(seeds))


def run_cir(case):
    thi = case['thi']

    def f(n, rng):
        t, X = draws(cir, case, n, rng)
        need(np.all(X > 0), 'CIR value outside the domain')
        prev, tp, U = np.full(n, case['v0']), 0.0, []
        for j, tj in enumerate(t):
            U.append(cir_dist(thi, tj - tp, prev).cdf(X[:, j]))
            prev, tp = X[:, j], tj
        return unif_ps(np.array(U).T)
    two_stage(case, f, 800, mult=4, what='CIR path')
    return True


@st.composite
def mixed_case(draw):
    return dict(parts=draw(st.lists(ou_case(), min_size=2, max_size=12)), seed=draw(seeds))


def run_mixed(case):
    """Many parameters, few draws each, pooled through the exact transitions."""
    def f(n, rng):
        Z = []
        for p in case['parts']:
            t, X = draws(ou, p, max(20, n // len(case['parts'])), rng)
            Z.append(ou_rosenblatt(*p['thi'], t, p['v0'], X).ravel())
        Z = np.concatenate(Z)
        return {k: v for k, v in gauss_ps(Z[:, None]).items() if k != 'lag'}
    two_stage(case, f, 1000, mult=6, what='pooled OU paths')
    return len({tuple(p['thi']) for p in case['parts']}) > 1


@st.composite
def cir_near(draw):
    return dict(thi=[draw(grid(0.5, 1.5, 0.1)), draw(grid(0.8, 1.5, 0.1)), draw(grid(0.8, 1.0, 0.1))],
                T=draw(grid(0.1, 0.5, 0.1)), v0=draw(grid(0.3, 0.5, 0.1)), fr=draw(fracs(1, 1)), seed=draw(seeds))


SUBS = [
    Sub('coin', coins.known_case(), lambda c: coins.run_known(c, 'skeleton'), 64, 640, 'success frequency of the path coin on a densely known path, all batch sizes; non-trivial: explicit batch size', cap=100),
    Sub('kept', coins.kept_case(), lambda c: coins.run_kept(c, 'flip'), 1500, 20000, 'values the path coin has tested are values of the path it returns; non-trivial: more than one batch', cap=20, shards=8),
    Sub('ou', ou_case(), run_ou, 24, 160, 'random parameters (both signs of v0, T over two decades), 1-4 query times, 1500 draws whitened by the exact OU transition', cap=200),
    Sub('ou_mixed', mixed_case(), run_mixed, 16, 96, '2-12 different parameter sets pooled; non-trivial if parameters differ', cap=200),
    Sub('cir', cir_case(), run_cir, 16, 96, 'random CIR parameters, 1-3 query times, 800 draws, non-central chi-square transforms', cap=240),
    Sub('cir_near', cir_near(), run_cir, 0, 8, 'CIR started nearer to zero', cap=900),
]
