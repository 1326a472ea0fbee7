"""Engine: generated-input search over sub-checks, in parallel, with bounded shrinking and replay files."""
import json, multiprocessing as mp, os, queue, signal, sys, time, traceback, warnings

REPO = os.environ.get('CTB_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if REPO not in sys.path:
    sys.path.insert(0, REPO)
HYP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if HYP not in sys.path:
    sys.path.append(HYP)  # appended: the repository's own numpy/scipy must win
warnings.simplefilter('ignore')

import numpy as np  # noqa: E402
import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, Verbosity, given, settings  # noqa: E402

np.seterr(all='ignore')


class Bad(Exception):
    """The property does not hold on this case."""


class CaseTimeout(BaseException):
    pass


class Sub:
    """One sub-check: a strategy of JSON-able cases and run(case) -> non-trivial?; raises Bad on a violation.

    quick/thorough: number of cases; cap: seconds after which one case is given up as inconclusive.
    """

    def __init__(self, name, strategy, run, quick, thorough, rule, cap=120, shards=None):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough, self.rule, self.cap, self.shards = quick, thorough, rule, cap, shards


def canon(case):
    return json.dumps(case, sort_keys=True)


NOTES = {}


def note(key, n=1):
    """Counter of what the generated cases exercised (read into the evidence)."""
    NOTES[key] = NOTES.get(key, 0) + int(n)


def _alarm(sig, frame):
    raise CaseTimeout()


def in_repo(tb):
    return any(os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + '/ctbayes')
               for f in traceback.extract_tb(tb))


def run_case(sub, case, cap):
    """-> (status, message, nontrivial); status in ok / bad / timeout / error"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, cap, 1.0)  # repeats: a callback may swallow one
    try:
        nontrivial = sub.run(case)
        return 'ok', '', bool(nontrivial)
    except (CaseTimeout, MemoryError):
        return 'timeout', '', False
    except Bad as e:
        return 'bad', str(e), True
    except hypothesis.errors.HypothesisException:
        raise
    except Exception as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        text = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
        if in_repo(e.__traceback__):
            return 'bad', 'unexpected exception on a valid input: ' + text[-1500:], True
        return 'error', text, False
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


class HarnessError(Exception):
    pass


def run_task(sub, shard, n, seed, deadline, shrink_s):
    """One Hypothesis run of n cases. Returns a result dict."""
    NOTES.clear()
    res = dict(sub=sub.name, shard=shard, evals=0, nontrivial=[], samples=[], timeouts=0, skipped=0,
               failure=None, error=None, t=0.0)
    t0 = time.time()
    cache, first, fail = {}, [shard > 0], {}

    def body(case):
        if first[0]:  # Hypothesis always starts from the simplest case; only shard 0 needs it
            first[0] = False
            return
        if res['error']:
            return
        key = canon(case)
        if key in cache:
            st, msg = cache[key]
        else:
            now = time.time()
            if (not fail and now > deadline) or (fail and now > fail['t'] + shrink_s):
                res['skipped'] += 1
                return
            st, msg, nt = run_case(sub, case, min(sub.cap, max(5.0, deadline + 60 - now)))
            cache[key] = st, msg
            if st == 'error':
                res['error'] = msg
                raise HarnessError(msg)
            res['evals'] += 1
            if st == 'timeout':
                res['timeouts'] += 1
                res['samples'] = res['samples'][:1]
                res.setdefault('slow', []).append(case)
            if nt:
                res['nontrivial'].append(key)
                if len(res['samples']) < 2 and not fail:
                    res['samples'].append(case)
        if st == 'bad':
            if not fail:
                fail['t'] = time.time()
            fail['case'], fail['msg'] = case, msg
            raise Bad(msg)

    test = hypothesis.seed(seed)(settings(
        max_examples=n + (1 if shard else 0), database=None, deadline=None, derandomize=False, print_blob=False,
        suppress_health_check=list(HealthCheck), report_multiple_bugs=False, verbosity=Verbosity.quiet,
        phases=[Phase.generate, Phase.shrink])(given(sub.strategy)(body)))
    try:
        test()
    except (HarnessError, Bad):
        pass
    except BaseException as e:
        if not fail and not res['error']:
            res['error'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
    if fail:
        res['failure'] = dict(case=fail['case'], message=fail['msg'])
    res['t'] = time.time() - t0
    res['notes'] = dict(NOTES)
    return res


def _worker(subs, tasks, out, deadline, shrink_s, base_seed):
    import signal as _s
    _s.signal(_s.SIGTERM, _s.SIG_DFL)
    while True:
        try:
            k = tasks.get(timeout=1)
        except queue.Empty:
            continue
        if k is None:
            return
        i, shard, n, s = k
        try:
            out.put(run_task(subs[i], shard, n, s, deadline, shrink_s))
        except BaseException as e:
            out.put(dict(sub=subs[i].name, shard=shard, evals=0, nontrivial=[], samples=[], timeouts=0, skipped=0,
                         failure=None, error='worker: ' + repr(e), t=0, notes={}))


def known_findings(pid):
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('KNOWN-FINDING: property=%s ' % pid):
                out.append(line.strip())
    return out


def run_check(pid, title, subs, tier, seed, nproc=8):
    t0 = time.time()
    quick = tier != 'thorough'
    soft = float(os.environ.get('VERIF_SOFT', '300' if quick else '3000'))
    deadline, hard = t0 + soft, t0 + soft + 240
    shrink_s = 45 if quick else 240
    ctx = mp.get_context('fork')
    tasks, out = ctx.Queue(), ctx.Queue()
    plan = []
    for i, sub in enumerate(subs):
        n = sub.quick if quick else sub.thorough
        if n <= 0:
            continue
        k = min(sub.shards or 4 * nproc, n)
        for shard in range(k):
            m = n // k + (1 if shard < n % k else 0)
            plan.append((i, shard, m, (seed * 1000003 + i * 1009 + shard) % (2 ** 63)))
    # interleave so that every sub-check gets started early
    plan.sort(key=lambda p: (p[1], p[0]))
    for p in plan:
        tasks.put(p)
    procs = [ctx.Process(target=_worker, args=(subs, tasks, out, deadline, shrink_s, seed)) for _ in range(nproc)]
    for _ in procs:
        tasks.put(None)
    for p in procs:
        p.start()
    results, failure, error, hung = [], None, None, 0
    while len(results) < len(plan):
        try:
            r = out.get(timeout=2)
        except queue.Empty:
            if time.time() > hard:
                hung = len(plan) - len(results)
                break
            if not any(p.is_alive() for p in procs):
                time.sleep(0.5)
                if out.empty():
                    error = 'worker processes died'
                    break
            continue
        results.append(r)
        if r['failure']:
            failure = r
            break
        if r['error']:
            error = '%s: %s' % (r['sub'], r['error'])
            break
    for p in procs:
        if p.is_alive() and (failure or error or hung):
            p.terminate()
    for p in procs:
        p.join(5)
        if p.is_alive():
            p.kill()
    out.cancel_join_thread(); tasks.cancel_join_thread()

    evals = sum(r['evals'] for r in results)
    distinct = len({(r['sub'], k) for r in results for k in r['nontrivial']})
    notes, per, samples = {}, {}, []
    for r in results:
        for k, v in r['notes'].items():
            notes[k] = notes.get(k, 0) + v
        d = per.setdefault(r['sub'], dict(cases=0, nontrivial=0, inconclusive=0, seconds=0.0))
        d['cases'] += r['evals']; d['nontrivial'] += len(set(r['nontrivial']))
        d['inconclusive'] += r['timeouts'] + r['skipped']; d['seconds'] = round(d['seconds'] + r['t'], 2)
        if sum(s['sub'] == r['sub'] for s in samples) < 2:
            samples += [dict(sub=r['sub'], case=c) for c in r['samples'][:1]]
    ev = dict(property=pid, tier='quick' if quick else 'thorough', seed=seed, level='exploration',
              coverage=dict(evaluations=evals, distinct_nontrivial=distinct,
                            rule='; '.join('%s: %s' % (s.name, s.rule) for s in subs),
                            samples=samples or [dict(sub=s.name, case=None) for s in subs[:1]],
                            per_sub=per, exercised=notes, not_finished_tasks=hung),
              slow_cases=[dict(sub=r['sub'], case=c) for r in results for c in r.get('slow', [])][:5],
              assumptions=['numpy.random.Generator (PCG64), scipy.stats and scipy.linalg are correct',
                           'statistical sub-checks alarm only after two independent stages (see DESIGN.md)'],
              wall_s=round(time.time() - t0, 2), violations=1 if failure else 0)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for line in known_findings(pid):
        print(line)
    print('%s %s: %d cases, %d distinct non-trivial, %.1f s' % (pid, title, evals, distinct, time.time() - t0))
    for k, d in sorted(per.items()):
        print('   %-28s cases %5d  nontrivial %5d  inconclusive %3d  %7.1f cpu-s'
              % (k, d['cases'], d['nontrivial'], d['inconclusive'], d['seconds']))
    if failure:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s-%s-%d.json' % (pid, failure['sub'], seed))
        with open(path, 'w') as f:
            json.dump(dict(property=pid, sub=failure['sub'], case=failure['failure']['case'],
                           message=failure['failure']['message']), f, indent=1)
        print('sub-check %s failed on %s\n%s' % (failure['sub'], canon(failure['failure']['case'])[:1500],
                                                 failure['failure']['message'][:3000]))
        print('VIOLATION property=%s replay=%s' % (pid, path), flush=True)
        return 1
    if error:
        print('HARNESS ERROR ' + error, file=sys.stderr, flush=True)
        return 3
    return 0
