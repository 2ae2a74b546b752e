import argparse
import fcntl
import importlib
import json
import multiprocessing as mp
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import glob

T0 = time.time()
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
SCRATCH = tempfile.mkdtemp(prefix='vf_')
os.environ['MPLCONFIGDIR'] = os.path.join(SCRATCH, 'mpl')
os.makedirs(os.environ['MPLCONFIGDIR'], exist_ok=True)

WALL = {'quick': 780, 'thorough': 6 * 3600}


def build():
    """Rebuilds the compiled extensions from /repo's working tree (incremental; writes only git-ignored files)."""
    with open('/tmp/.vf_build.lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        p = subprocess.run([sys.executable, '/opt/vp/build_ext.py'], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print(p.stdout[-3000:])
        print('ERROR: the compiled extensions do not build')
        sys.exit(2)


def load(prop):
    files = glob.glob(os.path.join(HERE, 'props', prop.lower() + '_*.py'))
    if len(files) != 1:
        print('ERROR: no module for property', prop)
        sys.exit(2)
    sys.path.insert(0, os.path.join(HERE, 'props'))
    return importlib.import_module(os.path.basename(files[0])[:-3])


def _worker(s, shard, nshards, tier, seed, out, journal, scale):
    import core
    # own scratch cwd: nothing the code under test writes lands in /repo or /verif
    wd = tempfile.mkdtemp(dir=SCRATCH)
    os.chdir(wd)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    t = time.time()
    cov = os.environ.get('VERIF_COV')
    if cov:
        import linecov
        linecov.start()
    r = core.run_task(s, shard, nshards, tier, seed, journal, scale)
    r.wall = time.time() - t
    if cov:
        linecov.save(cov)
    with open(out + '.tmp', 'wb') as f:
        pickle.dump(r, f)
    os.replace(out + '.tmp', out)
    os._exit(0)


def fork(s, shard, nshards, tier, seed, out, journal=None, scale=1.0):
    p = mp.get_context('fork').Process(target=_worker, args=(s, shard, nshards, tier, seed, out, journal, scale))
    p.daemon = True
    p.start()
    return p


def save_replay(prop, s, case, msg):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s_%s.json' % (prop, s))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'sub': s, 'message': msg, 'case': case}, f, indent=1)
    return path


def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith('#'):
                d = json.loads(line)
                if d.get('property') == prop and d.get('status') == 'known':
                    out.append(d)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--sub')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--keep-going', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    build()
    import core
    devnull = os.open(os.devnull, os.O_WRONLY)
    keep = os.dup(1)
    sys.stdout.flush()
    os.dup2(devnull, 1)                 # importing wafo prints
    try:
        load(a.prop)
    finally:
        sys.stdout.flush()
        os.dup2(keep, 1)
    import wafo
    if not os.path.realpath(wafo.__file__).startswith(core.REPO_SRC):
        print('ERROR: wafo is imported from', wafo.__file__)
        return 2
    subs = core.REGISTRY[a.prop]
    core.KNOWN_IDS |= {d['id'] for d in known_findings(a.prop)}

    if a.replay:
        d = json.load(open(a.replay))
        s = subs[d['sub']]
        kind, msg, label = core.run_one(s, d['case'])
        print(d['sub'], kind, msg or '')
        if kind == 'violation':
            print('VIOLATION property=%s replay=%s' % (a.prop, a.replay))
        return {'ok': 0, 'violation': 1}.get(kind, 2)

    tasks = []
    for s in subs.values():
        if a.sub and s.name not in a.sub.split(','):
            continue
        nsh = s.shards if tier == 'quick' else max(8, s.shards)
        for k in range(nsh):
            tasks.append((s, k, nsh))
    total = len(tasks)
    pending = list(tasks)
    running = {}
    results = []
    failure = None
    errors = []
    idx = 0
    ncpu = os.cpu_count() or 8
    deadline = T0 + WALL[tier]
    inconclusive = False
    while pending or running:
        while pending and len(running) < ncpu:
            s, k, nsh = pending.pop(0)
            out = os.path.join(SCRATCH, 'r%d' % idx)
            idx += 1
            running[fork(s, k, nsh, tier, seed, out, None, a.scale)] = (s, k, nsh, out, False)
        time.sleep(0.02)
        for p in list(running):
            if p.is_alive():
                continue
            p.join()
            s, k, nsh, out, journaled = running.pop(p)
            if os.path.exists(out):
                r = pickle.load(open(out, 'rb'))
                results.append(r)
                if a.v:
                    print('  %-34s shard %d: %6d cases %6d non-trivial %6.1f s %s' % (
                        r.sub, k, r.evaluations, len(r.keys), r.wall, r.labels))
                if r.failure is not None:
                    if failure is None:
                        failure = (s, r.failure)
                    if a.keep_going:
                        print('  FAIL', s.name, core.short(r.failure[0], 3000), '\n    ', r.failure[1])
                    else:
                        pending = []
                        for q in running:
                            q.terminate()
                        running = {}
                        break
                if r.error:
                    errors.append((s.name, r.error))
            elif not journaled:
                # the process died (segmentation fault, abort): repeat the task, recording each case before it runs
                jf = out + '.journal'
                running[fork(s, k, nsh, tier, seed, out, jf, a.scale)] = (s, k, nsh, out, jf)
            else:
                sig = -p.exitcode if p.exitcode and p.exitcode < 0 else None
                if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL) \
                        and os.path.exists(journaled):
                    case = json.load(open(journaled))
                    failure = failure or (s, (case, 'the process was killed by signal %d' % sig))
                else:
                    errors.append((s.name, 'worker died, exit code %s' % p.exitcode))
        if time.time() > deadline:
            inconclusive = True
            for q in running:
                q.terminate()
            break

    # ------------------------------------------------------------------ evidence
    per = {}
    for r in results:
        d = per.setdefault(r.sub, {'evaluations': 0, 'keys': set(), 'labels': {}, 'samples': [], 'wall_s': 0.0})
        d['evaluations'] += r.evaluations
        d['keys'] |= r.keys
        d['wall_s'] = round(d['wall_s'] + r.wall, 2)
        for lab, c in r.labels.items():
            d['labels'][lab] = d['labels'].get(lab, 0) + c
        if len(d['samples']) < 3:
            d['samples'] += r.samples[:2]

    def clip(c):
        s = json.dumps(c)
        return c if len(s) < 1500 else s[:1500] + '...'

    samples = []
    for name, d in per.items():
        for c in d['samples'][:2]:
            samples.append({'sub': name, 'case': clip(c)})
    ev = {
        'property': a.prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(d['evaluations'] for d in per.values()),
            'distinct_nontrivial': sum(len(d['keys']) for d in per.values()),
            'rule': 'Each sub-check draws JSON cases from its Hypothesis strategy (seed derived from VERIF_SEED); a '
                    'case is non-trivial when the sub-check returns a label for it, which it does only after the '
                    'oracle of that sub-check has compared a result whose content depends on the case; distinct = '
                    'distinct case contents. Per sub-check rule under "subchecks".',
            'samples': samples,
            'subchecks': {name: {'evaluations': d['evaluations'], 'distinct_nontrivial': len(d['keys']),
                                 'labels': dict(sorted(d['labels'].items())), 'cpu_s': d['wall_s'],
                                 'rule': subs[name].rule} for name, d in sorted(per.items())},
            'tasks_completed': len(results), 'tasks_planned': total,
        },
        'assumptions': ['IEEE double arithmetic of this sandbox; tolerances are stated in the sub-checks',
                        'numpy/scipy/mpmath/numba of /opt/venv are trusted'],
        'wall_s': round(time.time() - T0, 2),
        'violations': 1 if failure else 0,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not a.sub:
        with open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)

    for d in known_findings(a.prop):
        hit = any(d['id'] in r.known for r in results)
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (a.prop, d['what']))
    if failure:
        s, (case, msg) = failure
        path = save_replay(a.prop, s.name, case, msg)
        print('sub-check %s (%s)' % (s.name, s.rule[:200]))
        print('case: ' + core.short(case, 2000))
        print('observed: ' + msg[:3000])
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
        return 1
    if errors:
        for n, e in errors[:3]:
            print('HARNESS ERROR in', n, '\n', e[-4000:])
        return 2
    if inconclusive:
        print('INCONCLUSIVE: wall budget reached')
        return 3
    print('%s held: %d cases, %d distinct non-trivial, %.1f s' % (
        a.prop, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'], time.time() - T0))
    return 0


if __name__ == '__main__':
    rc = 2
    try:
        rc = main()
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else 2
    except BaseException:  # an error of the harness is neither 0 nor 1
        import traceback
        traceback.print_exc()
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)
