"""P19: Bernoulli factories have exactly the promised success probability."""
import numpy as np
from hypothesis import strategies as st
from core import Sub, note, Bad
from lib import *
from ctbayes.misc import bfactories
from ctbayes.misc.exceptions import BudgetConstraintError

TITLE = "Bernoulli factories"


class Coins:
    """Two coins which record every flip; payloads identify the flip."""

    def __init__(self, p1, p2, rng):
        self.p, self.rng, self.log = (p1, p2), rng, []

    def flip(self, k):
        s = bool(self.rng.uniform() < self.p[k])
        self.log.append((k, s))
        return s, ('flip', len(self.log), k)

    def it(self, k):
        while True:
            yield self.flip(k)

    def joint(self):
        first = yield
        while True:
            first = yield self.flip(0 if first else 1)


@st.composite
def coin_case(draw):
    w = st.one_of(sgrid(3, 0.1), st.sampled_from([-1e4, -750.0, -40.0, 0.0, 40.0, 750.0, 1e4]))
    base = draw(st.one_of(st.just(0.0), st.sampled_from([-2000.0, 2000.0, -700.0, 700.0])))
    p = st.one_of(grid(0, 1, 0.05), st.sampled_from([0.0, 1.0, 0.01]))
    return dict(w1=base + draw(w), w2=base + draw(w), p1=draw(p), p2=draw(p),
                pk=draw(st.one_of(st.just(0.0), grid(0, 1, 0.05), st.just(0.01))), cap=draw(st.one_of(st.integers(1, 6), st.just(100000))),
                joint=draw(st.booleans()), seed=draw(seeds))


def outcome(case, coins, rng):
    """-> 0 heads, 1 tails, 2 escape, 3 budget error; checks the protocol on the way."""
    tag = ('initial',)
    coins.log.clear()
    try:
        if case['joint']:
            r = bfactories.sample_twocoin_joint(case['w1'], case['w2'], coins.joint(), case['pk'], rng, case['cap'])
        else:
            r = bfactories.sample_twocoin(case['w1'], case['w2'], coins.it(0), coins.it(1), case['pk'], tag, rng, case['cap'])
    except BudgetConstraintError:
        need(len(coins.log) == case['cap'] and not any(s for _, s in coins.log),
             lambda: 'budget error after %d flips of a budget of %d' % (len(coins.log), case['cap']))
        return 3
    heads, esc, prop = r
    log = coins.log
    need(1 <= len(log) <= case['cap'], lambda: '%d flips with a budget of %d' % (len(log), case['cap']))
    need(not any(s for _, s in log[:-1]), 'kept flipping after a success')
    if esc:
        need(case['pk'] > 0, 'escaped with zero escape probability')
        need(not heads and not log[-1][1], 'escape reported after a success')
        last = [i + 1 for i, (k, _) in enumerate(log) if k == 1 or case['joint']]
        want = ('flip', last[-1], log[last[-1] - 1][0]) if last else tag
        need(prop == want, lambda: 'escape returned %r, the retained side was last at %r' % (prop, want))
        return 2
    need(log[-1][1], 'outcome without a success')
    need(bool(heads) == (log[-1][0] == 0), 'outcome of the wrong coin')
    need(prop == ('flip', len(log), log[-1][0]), lambda: 'returned proposal %r, last flip %r' % (prop, (len(log), log[-1][0])))
    return 0 if heads else 1


def law(case):
    v = 1 / (1 + np.exp(np.clip(case['w2'] - case['w1'], -800, 700)))
    a, b = v * case['p1'], (1 - v) * case['p2']
    r = (1 - a - b)
    q = r * (1 - case['pk'])
    n = case['cap']
    tot = n if q >= 1 - 1e-15 else (1 - q ** n) / (1 - q)
    return np.array([a * tot, b * tot, r * case['pk'] * tot, q ** n]), q


def run_law(case):
    pr, q = law(case)
    if q > 0.97 and case['cap'] > 1000:
        case = dict(case, cap=40)
        pr, q = law(case)
    pr = np.maximum(pr, 0)

    def f(n, rng):
        coins = Coins(case['p1'], case['p2'], rng)
        c = np.bincount([outcome(case, coins, rng) for _ in range(n)], minlength=4)
        return {'outcome': chi2_p(c, pr / pr.sum()), **{'p%d' % k: binom_p(c[k], n, pr[k]) for k in range(4)}}
    two_stage(case, f, 300, what='two-coin')
    for k, nm in enumerate(['heads', 'tails', 'escapes', 'budget errors']):
        if pr[k] > 0.02:
            note(nm)
    return np.sum(pr > 0.02) > 1


def run_flips(case):
    """Protocol only: many weights, one draw each; also the mean number of coin 1 flips."""
    rng = rng_of(case)
    coins = Coins(case['p1'], case['p2'], rng)
    if law(case)[1] > 0.97:
        case = dict(case, cap=min(case['cap'], 50))
    for _ in range(5):
        outcome(case, coins, rng)
    return True


SUBS = [
    Sub('law', coin_case(), run_law, 1500, 30000, 'more than one outcome with probability above 2%', cap=60),
    Sub('protocol', coin_case(), run_flips, 2000, 50000, 'all', shards=8),
]
