"""Driver: explores all cases of one property's harness, writes evidence, decides the exit code."""
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get('QSYMM_REPO', '/repo')
if REPO not in sys.path[:2]:
    sys.path.insert(0, REPO)

from mc.core import Recorder, Timeout, Abort  # noqa: E402


def known_findings(prop):
    """{key: text} of recorded, unrepaired defects of this property."""
    out = {}
    try:
        with open(os.path.join(HERE, 'known_findings.txt')) as f:
            for line in f:
                if line.startswith('known: property=%s ' % prop):
                    rest = line.split(' ', 2)[2].strip()
                    key, _, text = rest.partition(' ')
                    assert key.startswith('key=')
                    out[key[4:]] = text
    except FileNotFoundError:
        pass
    return out


def _alarm(signum, frame):
    raise Timeout()


_mod = None
_limit = 120


def _init():
    warnings.simplefilter('ignore')
    signal.signal(signal.SIGPROF, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    lim = 6 << 30
    try:
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except (ValueError, OSError):
        pass


def run_one(desc):
    R = Recorder(desc)
    signal.setitimer(signal.ITIMER_PROF, _limit)      # processor time: independent of the load of the machine
    t0 = time.time()
    try:
        _mod.run_case(desc, R)
    except Abort:
        pass
    except Timeout:
        R.check(False, 'nontermination:%s' % json.dumps(desc, default=str)[:300],
                'no result within %d s of processor time' % _limit)
    except MemoryError:
        R.check(False, 'memory:%s' % json.dumps(desc, default=str)[:300], 'memory limit exceeded')
    except Exception as e:
        R.violations = R.violations[:4]
        R.check(False, 'exception:%s:%s' % (type(e).__name__, json.dumps(desc, default=str)[:300]),
                traceback.format_exc()[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return desc, R.states, R.outcomes, R.transitions, R.traces, R.violations, R.known_seen, R.sample, time.time() - t0


def explore(cases, limit, deadline, jobs, start):
    """Run all cases; returns aggregate and whether the space was completed."""
    agg = dict(states=set(), outcomes=set(), transitions=0, traces=0, viol=[], samples=[], known=set(), done=0, slow=[])
    complete = True

    def absorb(r):
        desc, st, oc, tr, tc, viol, seen, sample, dt = r
        agg['known'] |= seen
        agg['states'] |= st
        agg['outcomes'] |= oc
        agg['transitions'] += tr
        agg['traces'] += tc
        agg['done'] += 1
        agg['slow'].append((round(dt, 2), desc))
        if len(agg['slow']) > 400:
            agg['slow'] = sorted(agg['slow'], key=lambda x: -x[0])[:40]
        for key, msg in viol:
            agg['viol'].append((key, msg, desc))
        if sample is not None and len(agg['samples']) < 6:
            agg['samples'].append(sample)

    ctx = mp.get_context('fork')
    if jobs == 1 or len(cases) == 1:
        _init()
        for c in cases:
            absorb(run_one(c))
        return agg, True
    # worker death (killed for memory) must not hang the run
    import concurrent.futures as cf
    with cf.ProcessPoolExecutor(jobs, mp_context=ctx, initializer=_init) as ex:
        pending = set()
        it = iter(cases)
        exhausted = False
        try:
            while True:
                while not exhausted and len(pending) < 4 * jobs:
                    try:
                        c = next(it)
                    except StopIteration:
                        exhausted = True
                        break
                    pending.add(ex.submit(run_one, c))
                if not pending:
                    break
                done, pending = cf.wait(pending, timeout=5, return_when=cf.FIRST_COMPLETED)
                for f in done:
                    absorb(f.result())
                if len(agg['viol']) >= 25:
                    complete = False
                    break
                if time.time() - start > deadline:
                    complete = False
                    break
        except cf.process.BrokenProcessPool as e:
            agg['viol'].append(('worker-died', 'a worker process ended abnormally: %s' % e, None))
            complete = False
        if not complete:
            for f in pending:
                f.cancel()
            for p in list((ex._processes or {}).values()):
                p.kill()
    return agg, complete


def main():
    global _mod, _limit
    args = sys.argv[1:]
    prop = args[0]
    tier = 'quick'
    replay = None
    if len(args) > 1 and args[1] in ('quick', 'thorough'):
        tier = args[1]
    elif os.environ.get('VERIF_TIER') in ('quick', 'thorough'):
        tier = os.environ['VERIF_TIER']
    if '--replay' in args:
        replay = args[args.index('--replay') + 1]
    start = time.time()
    warnings.simplefilter('ignore')
    evdir = os.path.join(HERE, 'evidence')
    rdir = os.path.join(evdir, 'replays')
    os.makedirs(rdir, exist_ok=True)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)

    def violation(key, msg, desc):
        n = len([x for x in os.listdir(rdir) if x.startswith(prop + '-')])
        path = os.path.join('evidence', 'replays', '%s-%d.json' % (prop, n))
        with open(os.path.join(HERE, path), 'w') as f:
            json.dump(dict(property=prop, tier=tier, key=key, case=desc, message=msg,
                           replay_cmd='./check.sh %s %s --replay %s' % (prop, tier, path)), f, indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  ' + key[:300])
        print('  ' + msg.replace('\n', '\n  ')[:1200])
        sys.stdout.flush()

    try:
        _mod = importlib.import_module('mc.checks.%s' % prop.lower())
    except Exception:
        if replay is None:
            for x in os.listdir(rdir):
                if x.startswith(prop + '-'):
                    os.unlink(os.path.join(rdir, x))
        violation('import-failed', traceback.format_exc()[-1500:], None)
        json.dump(dict(property=prop, tier=tier, seed=seed, level='other', coverage=dict(explanation='import failed'),
                       wall_s=time.time() - start, violations=1),
                  open(os.path.join(evdir, prop + '.json'), 'w'))
        return 1
    _limit = getattr(_mod, 'LIMIT', {}).get(tier, 300 if tier == 'quick' else 900)
    if replay:
        with open(replay if os.path.isabs(replay) else os.path.join(HERE, replay)) as f:
            rec = json.load(f)
        cases = [rec['case']]
        agg, complete = explore(cases, _limit, 1e9, 1, start)
        for key, msg, desc in agg['viol']:
            print('VIOLATION property=%s replay=%s' % (prop, replay))
            print('  ' + key + '\n  ' + msg)
        return 1 if agg['viol'] else 0
    for x in os.listdir(rdir):
        if x.startswith(prop + '-'):
            os.unlink(os.path.join(rdir, x))
    known = known_findings(prop)
    Recorder.known = frozenset(known)
    cases = _mod.cases(tier)
    if not isinstance(cases, list):
        cases = list(cases)
    jobs = int(os.environ.get('VERIF_JOBS', '0') or 0) or min(8, os.cpu_count() or 1)
    deadline = 700 if tier == 'quick' else 6 * 3600
    agg, complete = explore(cases, _limit, deadline, jobs, start)
    new = agg['viol']
    seen_known = {key: known[key] for key in agg['known']}
    for key, text in sorted(seen_known.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    new.sort(key=lambda v: len(json.dumps(v[2], default=str)))
    shown = set()
    for key, msg, desc in new:
        if len(shown) >= 5:
            break
        if key in shown:
            continue
        shown.add(key)
        violation(key, msg, desc)
    wall = time.time() - start
    cov = dict(states=len(agg['states']), transitions=agg['transitions'],
               traces_validated_against_impl=agg['traces'],
               samples=agg['samples'] or [c for c in cases[:3]],
               cases=agg['done'], cases_total=len(cases), distinct_outcomes=len(agg['outcomes']),
               bounds=getattr(_mod, 'BOUNDS', {}).get(tier, ''), known_findings_seen=sorted(seen_known),
               exhaustive=bool(complete))
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=getattr(_mod, 'ASSUMPTIONS', []), wall_s=round(wall, 2), violations=len(new))
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: cases=%d/%d states=%d transitions=%d traces=%d outcomes=%d complete=%s violations=%d wall=%.1fs'
          % (prop, tier, agg['done'], len(cases), cov['states'], cov['transitions'],
             cov['traces_validated_against_impl'], cov['distinct_outcomes'], complete, len(new), wall))
    if os.environ.get('VERIF_SLOW'):
        for dt, d in sorted(agg['slow'], key=lambda x: -x[0])[:10]:
            print('   slow %.2fs %s' % (dt, json.dumps(d, default=str)[:150]))
    if not new and agg['traces'] == 0:
        violation('vacuous', 'no trace was compared with the implementation', None)
        return 1
    return 1 if new else 0


if __name__ == '__main__':
    sys.exit(main())
