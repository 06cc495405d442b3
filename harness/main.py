"""Run one check: drive the workloads of a property, judge, write evidence."""
import faulthandler
import importlib
import json
import os
import pathlib
import pickle
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path('/repo')
sys.path.insert(0, str(REPO / 'src'))

from harness.monitor import Monitor, Stop, where, short  # noqa: E402

CASE_LIMIT = 150          # seconds; cases take well under a second
DEADLINE = {'quick': 420, 'thorough': 3000}
WORKERS = 8


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def case_rng(seed, prop, sub, index):
    return random.Random(f'{seed}:{prop}:{sub}:{index}')


def run_case(mon, mod, prop, seed, sub, index, worker):
    func = mod.SUBS[sub][0]
    mon.begin(sub, index, worker)
    n0 = len(mon.violations)
    rng = case_rng(seed, prop, sub, index)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    try:
        func(mon, rng, index)
    except Stop:
        pass
    except Hang:
        mon.fail('no-progress:' + sub, f'case did not finish within {CASE_LIMIT} s')
    except RecursionError as err:
        mon.fail(f'error:{sub}:RecursionError', short(str(err)))
    except Exception as err:
        # Every workload states where it expects an error; any other error is
        # an observation the model says cannot happen.
        at = where(err) or 'harness'
        tail = ' <- '.join(
            f'{pathlib.Path(f.filename).name}:{f.lineno}:{f.name}'
            for f in reversed(traceback.extract_tb(err.__traceback__)[-6:])
        )
        mon.fail(f'error:{sub}:{type(err).__name__}', f'{type(err).__name__}: {err} at {at}; {tail}')
    finally:
        signal.alarm(0)
    return len(mon.violations) > n0


def plan(mod, tier):
    """All (sub, index) pairs, interleaved so that a deadline cuts fairly."""
    col = 1 if tier == 'quick' else 2
    counts = {s: spec[col] for s, spec in mod.SUBS.items()}
    out = []
    for s, n in counts.items():
        out.extend(((i + 0.5) / n, s, i) for i in range(n))
    out.sort(key=lambda t: (t[0], t[1]))
    return [(s, i) for _, s, i in out]


def work(mod, prop, seed, tier, w, path, t0):
    mon = Monitor(prop)
    cases = plan(mod, tier)[w::WORKERS]
    skipped = 0
    limit = DEADLINE[tier]
    scratch = tempfile.mkdtemp(prefix=f'w{w}-', dir=os.path.dirname(path))
    os.chdir(scratch)
    os.environ['VERIF_SCRATCH'] = scratch
    bad = 0
    for n, (s, i) in enumerate(cases):
        if time.time() - t0 > limit:
            skipped = len(cases) - n
            break
        if run_case(mon, mod, prop, seed, s, i, w):
            bad += 1
            if bad >= 40:       # enough witnesses; stop early
                skipped = len(cases) - n - 1
                break
    d = mon.dump()
    d['skipped'] = skipped
    with open(path + '.part', 'wb') as f:
        pickle.dump(d, f)
    os.rename(path + '.part', path)


def load_known():
    f = HERE / 'known_findings.json'
    return json.loads(f.read_text())['findings'] if f.exists() else []


def replay(path):
    info = json.loads(pathlib.Path(path).read_text())
    prop = info['property']
    if info['sub'] is None:
        return main([prop, info['tier']])
    mod = importlib.import_module(f'harness.props.{prop.lower()}')
    scratch = tempfile.mkdtemp(prefix='replay-')
    os.environ['VERIF_SCRATCH'] = scratch
    status = 0
    try:
        if hasattr(mod, 'prepare'):
            mod.prepare(scratch, info['tier'])
        mon = Monitor(prop)
        run_case(mon, mod, prop, info['seed'], info['sub'], info['index'], info['worker'])
        if not mon.violations:
            # history-dependent: replay what this worker had done before
            for s, i in plan(mod, info['tier'])[info['worker']::WORKERS]:
                run_case(mon, mod, prop, info['seed'], s, i, info['worker'])
                if (s, i) == (info['sub'], info['index']):
                    break
        for v in mon.violations:
            print(f"  [{v['key']}] {v['detail']}")
        status = 1 if mon.violations else 0
        print('reproduced' if status else 'did not reproduce')
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
    return status


def main(argv):
    if argv and argv[0] == 'replay':
        return replay(argv[1])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f'verif-{prop}-')
    os.environ['VERIF_SCRATCH'] = scratch
    try:
        import goats
        origin = pathlib.Path(goats.__file__).resolve()
        if REPO / 'src' not in origin.parents:
            print(f'goats was imported from {origin}, not from /repo/src')
            return 2
        mod = importlib.import_module(f'harness.props.{prop.lower()}')
        if hasattr(mod, 'prepare'):
            mod.prepare(scratch, tier)
    except Exception as err:
        shutil.rmtree(scratch, ignore_errors=True)
        traceback.print_exc()
        if not where(err):
            return 2
        # The package cannot even be brought into use: nothing it promises holds.
        rdir = HERE / 'evidence' / 'replays'
        rdir.mkdir(parents=True, exist_ok=True)
        path = rdir / f'{prop}-start.json'
        path.write_text(json.dumps({'property': prop, 'tier': tier, 'seed': seed, 'sub': None,
                                    'key': 'error:start', 'detail': f'{err!r} at {where(err)}'}) + '\n')
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    mon = Monitor(prop)
    skipped = 0
    try:
        sys.stdout.flush()
        pids = {}
        for w in range(WORKERS):
            out = os.path.join(scratch, f'result-{w}.pkl')
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    work(mod, prop, seed, tier, w, out, t0)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            pids[pid] = (w, out)
        while pids:
            pid, status = os.wait()
            if pid not in pids:
                continue
            w, out = pids.pop(pid)
            if status != 0 or not os.path.exists(out):
                print(f'worker {w} ended with status {status}')
                return 2
            with open(out, 'rb') as f:
                d = pickle.load(f)
            skipped += d.pop('skipped')
            mon.absorb(d)
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)

    known = [k for k in load_known()
             if k['property'] == prop and k['status'] == 'known']
    listed = {k['key']: k for k in known}
    fresh = {}
    seen_known = {}
    for v in mon.violations:
        if v['key'] in listed:
            seen_known.setdefault(v['key'], v)
        else:
            fresh.setdefault(v['key'], []).append(v)

    # A deciding monitor that saw nothing is inconclusive, not held.
    starved = [k for k in getattr(mod, 'MUST_SEE', ()) if not any(
        e == k or e.startswith(k) for e in mon.events)]

    evid = HERE / 'evidence'
    evid.mkdir(exist_ok=True)
    wall = time.time() - t0
    record = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': mon.evaluations,
            'distinct_nontrivial': len(mon.distinct),
            'rule': mod.RULE,
            'samples': [f'{s}: {t}' for s, ts in sorted(mon.samples.items()) for t in ts][:30],
            'cases': mon.cases,
            'cases_skipped': skipped,
            'events': dict(sorted(mon.events.items())),
            'known_findings_reproduced': sorted(seen_known),
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', ())),
        'wall_s': round(wall, 2),
        'violations': sum(map(len, fresh.values())),
    }
    (evid / f'{prop}.json').write_text(json.dumps(record, indent=1, default=str) + '\n')

    for key in listed:
        state = 'reproduced' if key in seen_known else 'not reached in this run'
        print(f"KNOWN-FINDING: property={prop} {listed[key]['what']} [{key}; {state}]")
    print(f'{prop} {tier} seed={seed}: {mon.cases} cases, {mon.evaluations} oracle '
          f'evaluations, {len(mon.distinct)} distinct, {skipped} skipped, {wall:.1f} s')
    if fresh:
        rdir = evid / 'replays'
        rdir.mkdir(exist_ok=True)
        for n, (key, vs) in enumerate(sorted(fresh.items())[:25]):
            v = vs[0]
            path = rdir / f'{prop}-{n}.json'
            path.write_text(json.dumps(
                {'property': prop, 'tier': tier, 'seed': seed, **v}, indent=1) + '\n')
            print(f"  [{key}] x{len(vs)} {v.get('sub')}#{v.get('index')}: {v['detail']}")
            print(f'VIOLATION property={prop} replay={path}')
        return 1
    if starved or not mon.evaluations:
        print(f'INCONCLUSIVE: nothing observed for {starved}')
        return 2
    return 0


if __name__ == '__main__':
    faulthandler.enable()
    sys.exit(main(sys.argv[1:]))
