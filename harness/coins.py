"""Poisson coins on paths which are known so densely that the integral of the discount is known as well."""
import numpy as np
from hypothesis import strategies as st
from core import note
from lib import *
from ctbayes.ea3lib import seed as sde_seed, skeleton as ea_skel
from ctbayes.ito.models import ou

BATCH = st.sampled_from([None, 1, 2, 3, 7, 30])


@st.composite
def known_case(draw):
    """A path that climbs or falls by several standard deviations, a discount, and minus the log of the success chance."""
    return dict(T=draw(st.sampled_from([1.0, 0.05, 0.4, 3.0])), x0=draw(sgrid(2, 0.5)), d=draw(st.sampled_from([1, -1])) * draw(grid(1.5, 8, 0.5)),
                kind=draw(st.sampled_from(['linear', 'falling', 'square'])), m=draw(grid(0, 1, 0.1)), L=draw(grid(0.3, 2.2, 0.1)),
                batch=draw(BATCH), N=draw(st.sampled_from([150, 80])), seed=draw(seeds))


class Disc:
    """c g(x) with g linear or quadratic around a point, and its bounds on an interval."""

    def __init__(self, kind, m):
        self.kind, self.m, self.c, self.seen = kind, m, 1.0, []

    def g(self, x):
        return {'linear': x, 'falling': -x, 'square': (x - self.m) ** 2}[self.kind]

    def slope(self, x):
        return {'linear': 1.0 + 0 * x, 'falling': -1.0 + 0 * x, 'square': 2 * (x - self.m)}[self.kind]

    def __call__(self, x):
        self.seen.append(np.array(x, float).ravel())
        return self.c * self.g(np.asarray(x, float))

    def bounds(self, le, ue):
        e = [self.g(le), self.g(ue)]
        lo = 0.0 if self.kind == 'square' and le < self.m < ue else min(e)
        return self.c * lo, self.c * lo, self.c * max(e)

    def integral(self, t, x):
        """Mean and variance of the integral given the values at the nodes (bridges in between)."""
        dt, a, b = np.diff(t), x[:-1], x[1:]
        if self.kind == 'square':
            a, b = a - self.m, b - self.m
            mean = np.sum(dt * ((a * a + a * b + b * b) / 3 + dt / 6))
        else:
            mean = np.sum(dt * (self.g(a) + self.g(b)) / 2)
        return self.c * mean, self.c ** 2 * np.sum(np.maximum(self.slope(x[1:]) ** 2, self.slope(x[:-1]) ** 2) * dt ** 3) / 12


def known_skeleton(case, rng):
    T, a = case['T'], case['x0']
    s = ea_skel.sample_raw_skeleton(T, a, a + case['d'] * T ** .5, (-np.inf, np.inf), rng)
    s, _ = ea_skel.interpolate_skeleton(s, np.linspace(0, T, case['N'] + 1)[1:-1], rng)
    lo, hi = sorted([s.tight_x, s.loose_x])
    return s, np.asarray(s.t), np.asarray(s.x), lo, hi


def known_seed(case, rng):
    T, a = case['T'], case['x0']
    no, de = ou.gen_normops(np.array([1.0, 1.0]), np.array([0.0, T]), np.array([a, a + case['d'] * T ** .5]))[0]
    s = sde_seed.sample_raw_seed(ou.bounds_x, no, de, rng)
    s, _ = sde_seed.interpolate_seed(s, np.linspace(0, T, case['N'] + 1)[1:-1], no, de, rng)
    t, x = de(s.s, s.z)
    z = sorted([s.tight_z, s.loose_z])
    e = np.array([de(np.array([0.0, 1.0]), np.repeat(z_, 2))[1] for z_ in z])
    return s, np.asarray(t), np.asarray(x), e.min(), e.max(), no, de


def run_known(case, which):
    s, t, x, lo, hi, *ops = (known_skeleton if which == 'skeleton' else known_seed)(case, rng_of(case, 7))
    f = Disc(case['kind'], lo + case['m'] * (hi - lo))
    fl = f.bounds(lo, hi)[0]
    base = f.integral(t, x)[0] - t[-1] * fl
    if base <= 0:
        return False
    f.c = case['L'] / base
    mean, var = f.integral(t, x)
    if var > 0.01:
        return False
    args = () if case['batch'] is None else (case['batch'],)

    def flips(n, rng):
        k, w = 0, None
        for _ in range(n):
            if which == 'skeleton':
                ok, _ = ea_skel.flip_poisson_coin(s, f, f.bounds, rng, *args)
                lw = -t[-1] * f.bounds(lo, hi)[0]
            else:
                ok, lw, _ = sde_seed.flip_poisson_coin(s, *ops, f, f.bounds, rng, *args)
            need(w is None or abs(lw - w) < 1e-9, 'weight of the coin varies although the path does not')
            w, k, f.seen = lw, k + bool(ok), []
        lp = -mean - w
        need(lp <= 1e-6, 'weight of the coin above the path weight')
        ps = [min(1.0, np.exp(lp + e)) for e in (-.02 - var, var + .02)]
        return dict(coin=1.0 if ps[0] <= k / n <= ps[1] else max(binom_p(k, n, p) for p in ps))
    two_stage(case, flips, 1200, mult=6, what='coin on a known path')
    note('known ' + case['kind'])
    return case['batch'] is not None


@st.composite
def kept_case(draw):
    return dict(T=draw(st.sampled_from([1.0, 0.05, 0.4, 3.0])), x0=draw(sgrid(2, 0.5)), d=draw(sgrid(2, 0.5)),
                coin=draw(st.sampled_from(['flip', 'seed', 'dual', 'est', 'seed_est'])), kind=draw(st.sampled_from(['linear', 'falling', 'square'])),
                L=draw(grid(0.5, 12, 0.5)), batch=draw(BATCH), known=draw(st.integers(0, 4)), times=draw(st.integers(1, 3)),
                up=draw(st.booleans()), seed=draw(seeds))


def run_kept(case, only=None):
    """What a coin looks at (or finds already known) is part of the path it returns."""
    rng = rng_of(case)
    coin, T = case['coin'] if only is None else only, case['T']
    c = dict(case, N=case['known'] + 1)
    skel = coin in ('flip', 'est')
    if skel:
        T, a = case['T'], case['x0']
        s = ea_skel.sample_raw_skeleton(T, a, a + case['d'] * T ** .5, (-np.inf, np.inf), rng)
        q = np.sort(rng.uniform(0, T, case['known']))
        s, _ = ea_skel.interpolate_skeleton(s, q, rng)
        path = lambda s_: (np.asarray(s_.t), np.asarray(s_.x))
        lo, hi = sorted([s.tight_x, s.loose_x])
    else:
        no, de = ou.gen_normops(np.array([1.0, 1.0]), np.array([0.0, T]), np.array([case['x0'], case['x0'] + case['d'] * T ** .5]))[0]
        s = sde_seed.sample_raw_seed(ou.bounds_x, no, de, rng)
        s, _ = sde_seed.interpolate_seed(s, np.sort(rng.uniform(0, T, case['known'])), no, de, rng)
        path = lambda s_: de(s_.s, s_.z)
        z = sorted([s.tight_z, s.loose_z])
        e = np.array([de(np.array([0.0, 1.0]), np.repeat(z_, 2))[1] for z_ in z])
        lo, hi = e.min(), e.max()
    f = Disc(case['kind'], (lo + hi) / 2)
    _, gl, gh = f.bounds(lo, hi)
    f.c = case['L'] / T / (gh - gl)
    args = () if case['batch'] is None else (case['batch'],)
    tol = 1e-8 * max(1.0, abs(lo), abs(hi), T)
    most = 0
    for _ in range(case['times']):
        t0, x0 = path(s)
        f.seen = []
        if coin == 'flip':
            _, new = ea_skel.flip_poisson_coin(s, f, f.bounds, rng, *args)
        elif coin == 'est':
            _, new = ea_skel.est_poisson_coin(s, f, f.bounds, rng)
        elif coin == 'seed':
            _, _, new = sde_seed.flip_poisson_coin(s, no, de, f, f.bounds, rng, *args)
        elif coin == 'seed_est':
            _, _, new = sde_seed.est_poisson_coin(s, no, de, f, f.bounds, rng)
        else:
            nil = lambda x: f.c * gl + 0 * np.asarray(x) if case['up'] else f.c * gh + 0 * np.asarray(x)
            _, new = sde_seed.flip_dual_coin(s, f.c * (gh - gl) * 1.001, no, de, nil, no, de, f, case['up'], rng, *args)
        seen = np.concatenate(f.seen) if f.seen else np.empty(0)
        t1, x1 = path(new)
        for u, x in zip(t0, x0):
            j = int(np.argmin(np.abs(t1 - u)))
            need(abs(t1[j] - u) <= tol and abs(x1[j] - x) <= tol, 'a coin lost or changed a known point of the path')
        for x in seen:
            need(np.min(np.abs(x1 - x)) <= tol, lambda: 'a coin (%s, batch %r) looked at the value %r, which the path it returns does not have' % (coin, case['batch'], float(x)))
        most = max(most, len(seen))
        s = new
    note('kept ' + coin)
    return most > (case['batch'] or 2)
