"""P08: model ingredients belong to each other; comparison bounds dominate the difference of two discounts."""
import numpy as np
from hypothesis import strategies as st
from core import Sub, note
from lib import *
from models import *
from ctbayes.ea3lib import seed as sde_seed

TITLE = "model coherence and comparison bounds"
GRAD = ['ou', 'sw_ou', 'sw_ou2', 'sw_ou3']  # cir: known finding F15


def dnum(f, x, h):
    """Fifth-order central difference."""
    return (-f(x + 2 * h) + 8 * f(x + h) - 8 * f(x - h) + f(x - 2 * h)) / (12 * h)


@st.composite
def coh_case(draw):
    name = draw(st.sampled_from(list(ITO) + list(SW)))
    n = draw(st.integers(1, 5))
    c = dict(name=name, ys=draw(st.lists(st.integers(0, 2), min_size=n, max_size=n)), scalar_y=draw(st.booleans()))
    if name == 'cir':
        c['thi'] = draw(cir_thi())
        c['x'] = draw(st.lists(grid(0.2, 8, 0.1), min_size=n, max_size=n))
    else:
        c['thi'] = draw(ou_thi if name == 'ou' else st.integers(1, 3).flatmap(sw_thi))
        c['x'] = draw(st.lists(sgrid(8, 0.1), min_size=n, max_size=n))
    return c


def run_coh(case):
    name, thi, x = case['name'], np.array(case['thi'], float), np.array(case['x'], float)
    h = 1e-3 * np.maximum(1, np.abs(x)) if name != 'cir' else 1e-3 * x
    if name in ITO:
        m = ITO[name]
        A, b, d = m.sx_eval_drift(thi), m.eval_drift(thi), m.dx_eval_drift(thi)
        red, dere, dv = m.reduce(thi), m.dereduce(thi), m.dv_reduce(thi)
        refb = np.array([drift(name, thi, u) for u in x])
        refphi = np.array([float(disc(name, thi, u)) for u in x])
        phi = m.eval_disc(thi)(x)
    else:
        m = SW[name]
        ys = np.array(case['ys']) % len(thi)
        if case['scalar_y']:
            ys = np.repeat(ys[0], len(x))
        y = int(ys[0]) if case['scalar_y'] else ys
        A, b, d = m.sx_eval_drift(thi, y), m.eval_drift(thi, y), m.dx_eval_drift(thi, y)
        red, dere, dv = m.reduce, m.dereduce, m.dv_reduce
        refb = np.array([drift(name, thi[k], u) for k, u in zip(ys, x)])
        refphi = np.array([float(disc(name, thi[k], u)) for k, u in zip(ys, x)])
        vol = np.broadcast_to(m.eval_vol(thi, y), x.shape)
        need_close(vol, [sw_rate_vol(name, thi[k])[1] for k in ys], name + ' volatility')
        phi = m.eval_disc(thi, y)(x)
        note('scalar regime' if case['scalar_y'] else 'vector of regimes')
    sc = 1 + np.max(np.abs(refb))
    need_close(b(x), refb, name + ' drift', 1e-8, 1e-9 * sc)
    need_close(np.broadcast_to(phi, x.shape), refphi, name + ' discount', 1e-8, 1e-9 * (1 + np.max(np.abs(refphi))))
    need_close(dnum(A, x, h), refb, name + ': derivative of the drift antiderivative is not the drift', 1e-5, 1e-5 * sc)
    need_close(np.broadcast_to(d(x), x.shape), dnum(b, x, h), name + ': drift derivative', 1e-5, 1e-5 * sc)
    # data transform
    v = dere(x)
    need_close(red(v), x, name + ': reduce(dereduce(x))', 1e-9, 1e-9)
    if name == 'cir':
        need_close(v, np.square(x * thi[2] / 2), 'cir dereduce')
    elif name == 'ou':
        need_close(v, x * thi[1], 'ou dereduce')
    w = np.abs(x) + .1 if name == 'cir' else x
    need_close(dere(red(w)), w, name + ': dereduce(reduce(v))', 1e-9, 1e-9)
    hw = 1e-3 * w if name == 'cir' else 1e-3 * np.maximum(1, np.abs(w))
    need_close(np.broadcast_to(dv(w), w.shape), dnum(red, w, hw), name + ': derivative of the data transform', 1e-5, 1e-6)
    return len(x) > 1


@st.composite
def norm_case(draw):
    name = draw(st.sampled_from(list(ITO) + list(SW)))
    n = draw(st.integers(2, 6))
    c = dict(name=name, gaps=draw(st.lists(grid(0.01, 3, 0.01), min_size=n - 1, max_size=n - 1)),
             ys=draw(st.lists(st.integers(0, 2), min_size=n, max_size=n)), t0=draw(grid(0, 50, 0.5)),
             s=draw(fracs(1, 5)), z=draw(st.lists(sgrid(3, 0.1), min_size=5, max_size=5)))
    if name == 'cir':
        c['thi'], c['v'] = draw(cir_thi()), draw(st.lists(grid(0.1, 8, 0.1), min_size=n, max_size=n))
    else:
        c['thi'] = draw(ou_thi if name == 'ou' else st.integers(1, 3).flatmap(sw_thi))
        c['v'] = draw(st.lists(sgrid(8, 0.1), min_size=n, max_size=n))
    return c


def run_norm(case):
    name, thi, v = case['name'], np.array(case['thi'], float), np.array(case['v'], float)
    t = case['t0'] + np.concatenate([[0], np.cumsum(case['gaps'])])
    if name in ITO:
        ops = ITO[name].gen_normops(thi, t, v)
        x = ITO[name].reduce(thi, v)
        vol = np.ones(len(t))
    else:
        ys = np.array(case['ys']) % len(thi)
        ops = SW[name].gen_normops(thi, t, ys, v)
        x = SW[name].reduce(v)
        vol = np.array([sw_rate_vol(name, thi[k])[1] for k in ys])
    need(len(ops) == len(t) - 1, 'one pair of maps per interval')
    s, z = np.array(case['s']), np.array(case['z'][:len(case['s'])])
    for i, (no, de) in enumerate(ops):
        dt = t[i + 1] - t[i]
        tt, xe = de(np.array([0.0, 1.0]), np.zeros(2))
        need_close(tt, [0, dt], 'end times of interval %d' % i, 1e-9, 1e-9)
        need_close(xe, x[i:i + 2], 'end points of interval %d' % i, 1e-9, 1e-9)
        u, xx = de(s, z)
        need_close(u, s * dt, 'denormalised times', 1e-9, 1e-9)
        need_close(xx, x[i] + s * (x[i + 1] - x[i]) + z * np.sqrt(dt) * vol[i], 'denormalised values of interval %d' % i, 1e-8, 1e-8)
        s2, z2 = no(u, xx)
        need_close(s2, s, 'normalise(denormalise) times', 1e-8, 1e-9)
        need_close(z2, z, 'normalise(denormalise) values', 1e-6, 1e-7 * (1 + np.max(np.abs(xx)) / (np.sqrt(dt) * vol[i])))
        need_close(no(u, None)[0], s, 'times alone', 1e-8, 1e-9)
        need(no(u, None)[1] is None and de(s, None)[1] is None, 'no values asked, none given')
        need_close(de(s, None)[0], u, 'times alone', 1e-9, 1e-9)
    return len(ops) > 1


@st.composite
def grad_case(draw):
    name = draw(st.sampled_from(GRAD))
    a, b = draw(ou_thi), draw(ou_thi)
    which = draw(st.sampled_from(['both', 'first', 'second', 'small']))
    if which == 'first':
        b[1] = a[1]
    elif which == 'second':
        b[0] = a[0]
    elif which == 'small':
        b = [round(a[0] * 1.01, 6), round(a[1] * 0.99, 6)]
    return dict(name=name, a=a, b=b, T=draw(grid(0.01, 4, 0.01)), v=[draw(sgrid(6, 0.1)), draw(sgrid(6, 0.1))],
                tight=-draw(grid(0.01, 3, 0.01)), loose=draw(grid(0.01, 3, 0.01)), flip=draw(st.booleans()),
                which=which, seed=draw(seeds))


def run_grad(case):
    name, T, v = case['name'], case['T'], np.array(case['v'], float)
    a, b = np.array(case['a'], float), np.array(case['b'], float)
    lz, uz = (case['loose'], case['tight']) if case['flip'] else (case['tight'], case['loose'])
    t = np.array([0.0, T])
    if name in ITO:
        m = ITO[name]
        ub = m.eval_bounds_grad(a, b, T, v[0], v[1], uz, lz)
        ops = [m.gen_normops(th, t, v)[0] for th in (a, b)]
        dis = [lambda x: disc(name, a, x), lambda x: disc(name, b, x)]
        fdis = [m.eval_disc(a), m.eval_disc(b)]
    else:
        m = SW[name]
        ub = m.eval_bounds_grad(a, b, T, v[0], v[1], uz, lz)
        y = np.array([0, 0])
        ops = [m.gen_normops(th[None], t, y, v)[0] for th in (a, b)]
        dis = [lambda x: disc(name, a, x), lambda x: disc(name, b, x)]
        fdis = [m.eval_disc(a[None], 0), m.eval_disc(b[None], 0)]
    upd = a != b
    if not upd.any():
        return False
    ub = np.asarray(ub, float)
    intensity = np.sum(np.abs(a - b)[upd]) * np.sum(np.abs(ub[upd]))
    lo, hi = min(lz, uz), max(lz, uz)
    s = np.linspace(0, 1, 41)
    for q in np.linspace(0, 1, 21):
        z = np.repeat(lo + q * (hi - lo), len(s))
        gap = np.abs(dis[0](ops[0][1](s, z)[1]) - dis[1](ops[1][1](s, z)[1]))
        j = int(np.argmax(gap))
        need(gap[j] <= intensity * (1 + 1e-9) + 1e-9, lambda: '%s: discounts at %r and %r differ by %r at s=%r, z=%r, bound %r'
             % (name, a.tolist(), b.tolist(), gap[j], s[j], z[j], intensity))
    note(case['which'])
    # the comparison itself, on a path (its own assertion must not fire)
    rng = rng_of(case)
    z = sde_seed.sample_raw_seed(m.bounds_x, *ops[0], rng)
    if name in ITO:
        ub = m.eval_bounds_grad(a, b, T, v[0], v[1], z[3], z[2])
    else:
        ub = m.eval_bounds_grad(a, b, T, v[0], v[1], z[3], z[2])
    intensity = np.sum(np.abs(a - b)[upd]) * np.sum(np.abs(np.asarray(ub, float)[upd]))
    if intensity * T < 300:
        for up in (True, False):
            _, z = sde_seed.flip_dual_coin(z, intensity, *ops[0], fdis[0], *ops[1], fdis[1], up, rng, 10)
    return True


@st.composite
def dual_case(draw):
    name = draw(st.sampled_from(GRAD))
    rate, vol = draw(grid(0.3, 2, 0.05)), draw(grid(0.3, 2, 0.05))
    inv = {'ou': lambda r, s: [r, s], 'sw_ou': lambda r, s: [r, 1 / s], 'sw_ou2': lambda r, s: [r, r / s],
           'sw_ou3': lambda r, s: [s, r / s]}[name]
    a = [round(q, 4) for q in inv(rate, vol)]
    f = st.sampled_from([1.0, 0.7, 0.8, 1.25, 1.4])
    b = [round(a[0] * draw(f), 4), round(a[1] * draw(f), 4)]
    x = [draw(sgrid(2, 0.1)), draw(sgrid(2, 0.1))]
    return dict(name=name, a=a, b=b, T=draw(grid(0.2, 1.5, 0.1)), v=[round(q * vol, 4) for q in x],
                bs=draw(st.integers(2, 12)), seed=draw(seeds))


def run_dual(case):
    """For one raw path the coin succeeds with E exp(-int of the positive (negative) part of the discount difference);
    both sides are sampled from the same raw path, independently."""
    name, T, v = case['name'], case['T'], np.array(case['v'], float)
    a, b = np.array(case['a'], float), np.array(case['b'], float)
    t = np.array([0.0, T])
    if name in ITO:
        m = ITO[name]
        ops = [m.gen_normops(th, t, v)[0] for th in (a, b)]
        fdis = [m.eval_disc(a), m.eval_disc(b)]
    else:
        m = SW[name]
        y = np.array([0, 0])
        ops = [m.gen_normops(th[None], t, y, v)[0] for th in (a, b)]
        fdis = [m.eval_disc(a[None], 0), m.eval_disc(b[None], 0)]
    upd = a != b
    if not upd.any():
        return False
    u = (np.arange(40) + .5) / 40 * T
    seen = []

    def f(n, rng):
        out = {True: [], False: []}
        for i in range(n):
            raw = sde_seed.sample_raw_seed(m.bounds_x, *ops[0], rng)
            ub = np.asarray(m.eval_bounds_grad(a, b, T, v[0], v[1], raw[3], raw[2]), float)
            lam = np.sum(np.abs(a - b)[upd]) * np.sum(np.abs(ub[upd]))
            if lam * T > 60:  # too costly; the selection depends on the raw path only
                continue
            up = bool(i % 2)
            ok, _ = sde_seed.flip_dual_coin(raw, lam, *ops[0], fdis[0], *ops[1], fdis[1], up, rng, case['bs'])
            z, x0 = sde_seed.interpolate_seed(raw, u, *ops[0], rng)
            x1 = ops[1][1](u / T, ops[0][0](u, x0)[1])[1]
            d = disc(name, b, x1) - disc(name, a, x0)
            out[up].append((float(ok), np.exp(-np.mean(np.maximum(d if up else -d, 0)) * T)))
        ps = {}
        for k, w in out.items():
            w = np.array(w).reshape(-1, 2)
            if min(np.sum(1 - w[:, 1]), np.sum(w[:, 1])) >= 25:  # enough of either outcome for the normal limit
                ps['up' if k else 'down'] = mean_p(w[:, 0] - w[:, 1])
                seen.append(k)
        return ps
    two_stage(case, f, 800, mult=6, what='dual coin')
    return len(seen) > 0


SUBS = [
    Sub('coherence', coh_case(), run_coh, 4000, 60000, 'model, parameters, states, scalar or per-state regimes; numeric derivatives and independent formulas; non-trivial: several states', cap=20, shards=8),
    Sub('normalise', norm_case(), run_norm, 2000, 30000, 'several intervals, offset clock; non-trivial: more than one interval', cap=20, shards=8),
    Sub('gradient', grad_case(), run_grad, 2500, 40000, 'pairs of parameters (one or both components), levels of either orientation; difference of the discounts on a grid of all reachable values', cap=20, shards=8),
    Sub('dual', dual_case(), run_dual, 24, 200, 'frequency of dual coins against the path integral; non-trivial: at least 25 of either outcome expected', cap=200),
]
