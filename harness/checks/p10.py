"""P10: path updates of the diffusion sampler leave the conditional law of the path invariant, interval by interval."""
import numpy as np
from hypothesis import strategies as st
from core import Sub, note
from lib import *
from ctbayes.ito import mcmc
from ctbayes.ito.models import ou, cir
from ctbayes.ea3lib import seed as sde_seed
from checks.p02 import cir_rosenblatt, coin_case, run_coin
from checks.p09 import controls, path, white_path, ou_cost, recorder, forgotten, keeps, model

TITLE = "diffusion path updates"


@st.composite
def case_(draw):
    k = draw(st.integers(1, 4))
    dt = draw(st.lists(grid(0.1, 2, 0.1), min_size=k, max_size=k))
    return dict(dt=dt, bet=draw(grid(0.2, 4, 0.1)), sig=draw(grid(0.3, 2, 0.1)), x=draw(st.lists(sgrid(2, 0.1), min_size=k + 1, max_size=k + 1)),
                m=draw(st.integers(1, 4)), fr=draw(fracs(1, 2)), ctrl=draw(controls()), seed=draw(seeds))


def setup(case, most=1.5):
    """Data shrunk until the coins of every interval are affordable."""
    bet, x = case['bet'], np.array(case['x'])
    for _ in range(80):
        if max(ou_cost(bet, d, a, b) for d, a, b in zip(case['dt'], x, x[1:])) < most:
            break
        x = x * 0.9; bet *= 0.97
    return np.array([bet, case['sig']]), np.concatenate([[0], np.cumsum(case['dt'])]), x * case['sig']


def run_ou(case):
    thi, t, v = setup(case)
    mod, ctrl = model(t, v, lambda th: 0.0), mcmc.Controls(**case['ctrl'])
    k = len(v) - 1

    def f(n, rng):
        gens = [sde_seed.sample_bridge(ou.bounds_x, no, de, ou.eval_disc(thi), ou.eval_bounds_disc(thi), rng) for no, de in ou.gen_normops(thi, t, v)]
        Z, moved = [], np.zeros(k)
        for _ in range(n):
            z = [next(g) for g in gens]
            for _ in range(case['m']):
                old = z
                z = mcmc.update_sde(thi, z, mod, ctrl, rng, SeqPool())
                need(len(z) == k, 'number of path sections changed')
                moved += [not keeps(b, a.s, a.z) or (len(a.s) == 0 and (a.loose_z, a.tight_z) != (b.loose_z, b.tight_z)) for a, b in zip(old, z)]
            Z.append(white_path(thi, t, v, z, case['fr'], rng))
        need(np.all(moved > 0) or n * case['m'] < 300, 'some section was never replaced: %r' % moved.tolist())
        return gauss_ps(np.array(Z))
    two_stage(case, f, 400, mult=8, what='path law after updates')
    note('intervals_%d' % k)
    note('portkey_%g' % case['ctrl']['pr_portkey'])
    return True


@st.composite
def start_case(draw):
    c = draw(case_())
    c['far'] = draw(st.sampled_from([2.0, -2.0, 1.0]))
    return c


def run_converge(case):
    """From a wrong start (plain bridges) many updates lead to the right law: the update does move, to the right place."""
    thi, t, v = setup(case, 1.0)
    mod, ctrl = model(t, v, lambda th: 0.0), mcmc.Controls(**dict(case['ctrl'], pr_portkey=min(case['ctrl']['pr_portkey'], 0.3)))

    def f(n, rng):
        Z = []
        for _ in range(n):
            z = mod.sample_aug(thi, t, v, rng)
            for _ in range(25):
                z = mcmc.update_sde(thi, z, mod, ctrl, rng, SeqPool())
            Z.append(white_path(thi, t, v, z, case['fr'], rng))
        return gauss_ps(np.array(Z))
    two_stage(case, f, 150, mult=8, what='path law after 25 updates from plain bridges')
    return True


@st.composite
def cir_case(draw):
    thi = [draw(grid(0.3, 2, 0.1)), draw(grid(0.7, 3, 0.1)), draw(grid(0.3, 0.8, 0.05))]
    T = draw(grid(0.05, 0.5, 0.05))
    v0, v1 = draw(grid(0.7, 3, 0.1)), draw(grid(0.7, 3, 0.1))
    x0, x1 = 2 * v0 ** .5 / thi[2], 2 * v1 ** .5 / thi[2]
    if abs(x1 - x0) > 2 * T ** .5:
        v1 = round(((x0 + np.sign(x1 - x0) * 2 * T ** .5) * thi[2] / 2) ** 2, 4)
    return dict(thi=thi, T=T, v0=v0, v1=v1, fr=draw(fracs(1, 2)), m=draw(st.integers(1, 3)), ctrl=draw(controls()), seed=draw(seeds))


def run_cir(case):
    thi, T = np.array(case['thi']), case['T']
    t, v = np.array([0.0, T]), np.array([case['v0'], case['v1']])
    if 2 * min(2 * np.sqrt(v) / thi[2]) ** 2 / T < 14:  # nearer to zero: known finding
        return False
    mod = mcmc.Model(t, v, cir.bounds_thi, lambda th: 0.0, cir.sample_aug, cir.gen_normops, cir.eval_biased_log_lik,
                     cir.eval_disc, cir.eval_bounds_disc, cir.eval_bounds_grad)
    ctrl = mcmc.Controls(**case['ctrl'])
    no, de = cir.gen_normops(thi, t, v)[0]
    q = np.array(case['fr']) * T

    def f(n, rng):
        g = sde_seed.sample_bridge(cir.bounds_x, no, de, cir.eval_disc(thi), cir.eval_bounds_disc(thi), rng)
        X = []
        for _ in range(n):
            z = [next(g)]
            for _ in range(case['m']):
                z = mcmc.update_sde(thi, z, mod, ctrl, rng, SeqPool())
            X.append(cir.dereduce(thi, sde_seed.interpolate_seed(z[0], q, no, de, rng)[1]))
        return unif_ps(cir_rosenblatt(case, q, np.array(X)))
    two_stage(case, f, 400, mult=6, what='CIR path law after updates')
    return True


def run_memory(case):
    """While the current path is kept, everything the update has looked at on it stays on it."""
    thi, t, v = setup(case, 3.0)
    t, v = t[:2], v[:2]
    rng = rng_of(case)
    mod0, ctrl = model(t, v, lambda th: 0.0), mcmc.Controls(**case['ctrl'])
    mod, log = recorder(mod0)
    (no, de), = ou.gen_normops(thi, t, v)
    z, = mod0.sample_aug(thi, t, v, rng)
    offers = []

    def band(z_):  # bounds of the path of a seed, as handed to the discount bounds
        lo, hi = sorted((z_.tight_z, z_.loose_z))
        return de(np.array([0., 1.]), np.repeat(lo, 2))[1].min(), de(np.array([0., 1.]), np.repeat(hi, 2))[1].max()

    def sample_aug(*a):
        out = mod0.sample_aug(*a)
        offers.append(out[0])
        return out

    def eval_bounds_disc(th):
        def g(lo, hi):
            inf, a, b = mod0.eval_bounds_disc(th)(lo, hi)
            for o in offers:  # make the proposed path hopeless
                if abs(band(o)[0] - lo) + abs(band(o)[1] - hi) < 1e-9:
                    return inf + 1e5, a + 1e5, b + 1e5
            return inf, a, b
        return g
    mod = mod._replace(sample_aug=sample_aug, eval_bounds_disc=eval_bounds_disc)
    seen = 0
    for _ in range(4):
        s0, x0 = z.s, z.z
        z, = mcmc.update_sde(thi, [z], mod, ctrl, rng, SeqPool())
        need(keeps(z, s0, x0), 'a known point of the kept path was lost or altered')
        lost = forgotten(log, de(z.s, z.z)[1] if len(z.s) else np.zeros(0))
        need(len(lost) == 0, lambda: 'the discount was evaluated at %r, which is not on the returned path' % lost[:5].tolist())
        seen += sum(len(x) for x in log)
        log.clear(); offers.clear()
    return seen > 0


SUBS = [
    Sub('coin', coin_case(), run_coin, 32, 320, 'mean of success times weight of the Poisson coin over plain bridges against the exact ratio; non-trivial: ratio below 0.9', cap=200),
    Sub('memory', case_(), run_memory, 1600, 40000, 'a hopeless proposal, so that the current path is kept: every point looked at stays on it; non-trivial: something was looked at', cap=20),
    Sub('invariance', case_(), run_ou, 32, 400, '1-4 intervals, 1-4 updates of exact OU bridges, random controls, whitened at 1-2 times per interval', cap=300),
    Sub('converge', case_(), run_converge, 8, 160, '25 updates from plain bridges', cap=300),
    Sub('cir', cir_case(), run_cir, 16, 160, '1-3 updates of exact CIR bridges away from zero; trivial nearer to zero (known finding)', cap=300),
]
