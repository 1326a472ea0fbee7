import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402


def load(pid):
    return importlib.import_module('checks.' + pid.lower())


def main(argv):
    if argv and argv[0] == 'replay':
        rec = json.load(open(argv[1]))
        sub = {s.name: s for s in load(rec['property']).SUBS}[rec['sub']]
        st, msg, _ = core.run_case(sub, rec['case'], 3600)
        print(st, msg)
        if st == 'bad':
            print('VIOLATION property=%s replay=%s' % (rec['property'], argv[1]))
        return {'ok': 0, 'bad': 1}.get(st, 3)
    if argv and argv[0] == 'selftest':  # setup: everything importable, every strategy constructible
        for f in sorted(os.listdir(os.path.join(core.VERIF, 'harness', 'checks'))):
            if f.startswith('p') and f.endswith('.py'):
                load(f[:-3])
        import ctbayes
        print('ready; code under test:', os.path.dirname(ctbayes.__file__))
        return 0
    pid = argv[0]
    mod = load(pid)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    subs = mod.SUBS
    if len(argv) > 1:
        subs = [s for s in subs if s.name in argv[1:]]
    return core.run_check(pid, mod.TITLE, subs, tier, seed)


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1:])
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
