"""Check runner.

  python3 vp/run.py <property id> [--tier quick|thorough] [--examples N] [--workers N]
  python3 vp/run.py <property id> --replay <file>

Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=<id> replay=<path>".
Any other exit: error of the check itself.
"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import boot  # noqa: E402


def parse():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--examples', type=int)
    ap.add_argument('--workers', type=int)
    ap.add_argument('--budget', type=float)
    ap.add_argument('--stats', action='store_true')
    return ap.parse_args()


ARGS = parse()
if ARGS.replay:
    ARGS.replay = os.path.abspath(ARGS.replay)
SEED = int(os.environ.get('VERIF_SEED') or '1')
if ARGS.replay:
    with open(ARGS.replay) as _f:
        _hs = json.load(_f).get('hashseed', 0)
else:
    _hs = SEED % 4294967295
sys.argv_exec = [os.path.abspath(__file__)] + sys.argv[1:]
boot.reexec(_hs)
boot.paths()

import hashlib  # noqa: E402
import importlib  # noqa: E402
import multiprocessing as mp  # noqa: E402
import resource  # noqa: E402
import shutil  # noqa: E402
import signal  # noqa: E402
import time  # noqa: E402
import traceback  # noqa: E402

SCRATCH = boot.scratch()
BACKEND = os.environ.get('VP_BACKEND', 'm')

from vp import harness as Hn  # noqa: E402


def canon(case):
    return json.dumps(case, sort_keys=True)


class Stop(KeyboardInterrupt):
    pass


def worker(widx, nworkers, tier, examples, budget, conn, mod, devnull):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    os.dup2(devnull, 1)
    if not ARGS.stats:
        os.dup2(devnull, 2)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    os.environ['OPENMDAO_WORKDIR'] = os.path.join(SCRATCH, 'w%d' % widx)
    os.makedirs(os.environ['OPENMDAO_WORKDIR'], exist_ok=True)
    os.chdir(os.environ['OPENMDAO_WORKDIR'])
    st = {'n': 0, 'seen': set(), 'hist': {}, 'samples': [], 'best': None, 'msg': None, 'fail_t': None, 'fails': 0,
          'stopped': False, 'skipped': 0}
    t0 = time.monotonic()
    known = Hn.load_known(mod.ID)

    def body(case):
        now = time.monotonic()
        if st['fail_t'] is not None and now - st['fail_t'] > mod_shrink:
            raise Stop()
        if st['fail_t'] is None and now - t0 > budget:
            st['stopped'] = True
            raise Stop()
        msg = Hn.run_case(mod, case)
        if st['fail_t'] is None:
            st['n'] += 1
            for k in mod.classify(case):
                st['hist'][k] = st['hist'].get(k, 0) + 1
            if mod.nontrivial(case):
                h = hashlib.sha1(canon(case).encode()).digest()[:10]
                if h not in st['seen']:
                    st['seen'].add(h)
                    if len(st['samples']) < 2 and len(st['seen']) % 17 == 3:
                        st['samples'].append(case)
        if msg is not None and not any(Hn.match_known(k, case, msg) for k in known):
            if st['fail_t'] is None:
                st['fail_t'] = time.monotonic()
            st['fails'] += 1
            key = (len(canon(case)), canon(case))
            if st['best'] is None or key < st['best'][0]:
                st['best'] = (key, case, msg)
            raise AssertionError('violation')

    mod_shrink = 25 if tier == 'quick' else 60
    test = given(mod.strategy(tier))(body)
    test = hypothesis.seed(SEED * 1000003 + widx)(test)
    # three workers out of four draw choices evenly, the fourth as hypothesis does
    from vp import uniform
    backend = 'hypothesis' if BACKEND == 'h' or BACKEND == 'm' and widx % 4 == 3 else uniform.install(SEED * 1000003 + widx)
    test = settings(max_examples=examples, backend=backend, database=None, deadline=None, report_multiple_bugs=False,
                    print_blob=False, derandomize=False, phases=[Phase.generate, Phase.shrink],
                    suppress_health_check=list(HealthCheck))(test)
    err = None
    try:
        test()
    except Stop:
        pass
    except AssertionError:
        if st['best'] is None:
            err = traceback.format_exc()
    except BaseException:
        if st['best'] is None:
            err = traceback.format_exc()
    out = {'n': st['n'], 'seen': st['seen'], 'hist': st['hist'], 'samples': st['samples'], 'err': err,
           'stopped': st['stopped'], 'best': st['best'][1:] if st['best'] else None, 'fails': st['fails'],
           't': time.monotonic() - t0}
    conn.send(out)
    conn.close()


def replay(mod):
    with open(ARGS.replay) as f:
        rec = json.load(f)
    os.makedirs(SCRATCH, exist_ok=True)
    os.chdir(SCRATCH)
    msg = Hn.run_case(mod, rec['case'], verbose=True)
    if msg is None:
        print('replay: property held on this case')
        return 0
    print('replay:', msg)
    print('VIOLATION property=%s replay=%s' % (mod.ID, os.path.abspath(ARGS.replay)))
    return 1


def main():
    mod = importlib.import_module('vp.checks.' + ARGS.property.lower())
    Hn.prepare()
    if ARGS.replay:
        return replay(mod)
    tier = ARGS.tier
    nw = ARGS.workers or min(8, os.cpu_count() or 1)
    total = ARGS.examples or mod.EXAMPLES[tier]
    budget = ARGS.budget or (150 if tier == 'quick' else 700)
    per = max(1, -(-total // nw))
    t0 = time.monotonic()
    # fixed regression cases first
    prelim = []
    for case in getattr(mod, 'FIXED', lambda: [])():
        msg = Hn.run_case(mod, case)
        if msg is not None:
            prelim.append((case, msg))
            break
    devnull = os.open(os.devnull, os.O_WRONLY)
    ctx = mp.get_context('fork')
    res, best, errs = [], [], []
    if prelim:
        best = prelim
    else:
        live = []
        for w in range(nw):
            a, b = ctx.Pipe(duplex=False)
            pr = ctx.Process(target=worker, args=(w, nw, tier, per, budget, b, mod, devnull), daemon=True)
            pr.start()
            b.close()
            live.append((pr, a))
        from multiprocessing.connection import wait
        grace = None
        while live:
            ready = wait([a for _, a in live], timeout=1)
            for pr, a in list(live):
                if a in ready:
                    try:
                        r = a.recv()
                        res.append(r)
                        if r['err']:
                            errs.append(r['err'])
                        if r['best']:
                            best.append(r['best'])
                            if grace is None:
                                grace = time.monotonic() + 8
                    except EOFError:
                        errs.append('worker died (exit %s)' % pr.exitcode)
                    live.remove((pr, a))
            if (grace is not None and time.monotonic() > grace) or time.monotonic() - t0 > budget + 120:
                if grace is None:
                    errs.append('workers did not finish in time')
                for pr, _ in live:
                    pr.kill()
                break
        for pr, _ in live:
            pr.join(2)
    seen = set()
    hist, samples, n = {}, [], 0
    for r in res:
        n += r['n']
        seen |= r['seen']
        samples += r['samples']
        for k, v in r['hist'].items():
            hist[k] = hist.get(k, 0) + v
    best.sort(key=lambda b: (len(canon(b[0])), canon(b[0])))
    wall = time.monotonic() - t0
    known = Hn.load_known(mod.ID)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (mod.ID, k['what']))
    ev = {
        'property': mod.ID, 'tier': tier, 'seed': SEED, 'level': 'exploration',
        'coverage': {
            'evaluations': n, 'distinct_nontrivial': len(seen), 'rule': mod.RULE,
            'samples': samples[:4], 'classes': dict(sorted(hist.items())),
            'workers': nw, 'examples_requested': per * nw,
            'budget_hit': any(r['stopped'] for r in res),
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': len(best),
    }
    os.makedirs(os.path.join(boot.VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(boot.VERIF, 'evidence', mod.ID + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(path + '.tmp', path)
    if ARGS.stats:
        print(json.dumps({k: v for k, v in ev['coverage'].items() if k != 'samples'}, indent=1))
    if best:
        case, msg = best[0]
        rd = os.path.join(boot.VERIF, 'replays')
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, '%s-%s.json' % (mod.ID, hashlib.sha1(canon(case).encode()).hexdigest()[:12]))
        with open(rp, 'w') as f:
            json.dump({'property': mod.ID, 'hashseed': int(os.environ['PYTHONHASHSEED']), 'message': msg,
                       'case': case}, f, indent=1)
        print('%s: %s' % (mod.ID, msg.strip()[-1500:]))
        print('VIOLATION property=%s replay=%s' % (mod.ID, rp))
        return 1
    if errs:
        print('ERROR in check %s:\n%s' % (mod.ID, errs[0]), file=sys.stderr)
        return 3
    print('%s: held on %d cases (%d distinct non-trivial) in %.1f s' % (mod.ID, n, len(seen), wall))
    return 0


if __name__ == '__main__':
    code = 4
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
    finally:
        os.chdir('/')
        shutil.rmtree(SCRATCH, ignore_errors=True)
        sys.stdout.flush()
        sys.stderr.flush()
    os._exit(code)
