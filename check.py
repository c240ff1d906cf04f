"""Run the check of one property; see check.sh."""
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)

from talpbt import core  # noqa: E402


WORKERS = 8


def repo_revision():
    try:
        return subprocess.run(
            ['git', '-C', '/repo', 'rev-parse', '--short', 'HEAD'],
            capture_output=True, text=True, timeout=20).stdout.strip()
    except Exception:
        return ''


def fork(fn, *args):
    """Run fn in a child process; returns its pid."""
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        return pid
    status = 3
    try:
        fn(*args)
        status = 0
    except BaseException:
        traceback.print_exc()
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(status)


def run_workers(prop, seed, total, tmp):
    pids = []
    paths = []
    for w in range(WORKERS):
        path = os.path.join(tmp, 'w%d.json' % w)
        paths.append(path)
        pids.append(fork(core.worker, prop, seed, range(w, total, WORKERS),
                         path))
    for pid in pids:
        os.waitpid(pid, 0)
    out = []
    for path in paths:
        if not os.path.exists(path):
            raise core.HarnessError('a worker died without a result')
        with open(path) as f:
            out.append(json.load(f))
    return out


def shrink(prop, failure, tmp, limit=90):
    """Smaller choices and their message; bounded by wall time."""
    path = os.path.join(tmp, 'shrunk.json')

    def work():
        best, used = core.shrink(prop, failure['choices'])
        ctx, msg = core.replay(prop, best)
        if msg is not None:
            with open(path + '.tmp', 'w') as f:
                json.dump({'choices': best, 'message': msg,
                           'detail': core.jsonable(ctx.detail),
                           'shrink_steps': used}, f)
            os.rename(path + '.tmp', path)

    if failure.get('hang'):
        return failure
    pid = fork(work)
    deadline = time.time() + limit
    while time.time() < deadline:
        if os.waitpid(pid, os.WNOHANG)[0]:
            break
        time.sleep(.05)
    else:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
    if os.path.exists(path):
        with open(path) as f:
            return json.load(f)
    return failure


def known_findings(pid, prop):
    """Print the recorded, unrepaired defects that still show."""
    path = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    lines = []
    if os.path.exists(path):
        with open(path, encoding='utf-8') as f:
            lines = f.read().splitlines()
    n = 0
    for line in lines:
        words = line.split(None, 3)
        if len(words) < 4 or words[0] != 'open:' \
                or words[1] != 'property=' + pid:
            continue
        probe = prop.PROBES[words[2].partition('=')[2]]
        if probe():
            print('KNOWN-FINDING: property=%s %s' % (pid, words[3]))
            n += 1
    return n


def main(argv):
    if not argv:
        print(__doc__)
        return 2
    pid = argv[0]
    prop = importlib.import_module('talpbt.props.' + pid.lower())
    if '--replay' in argv:
        with open(argv[argv.index('--replay') + 1]) as f:
            rec = json.load(f)
        ctx, msg = core.replay(prop, rec['choices'])
        print(json.dumps(core.jsonable(ctx.detail), indent=1,
                         ensure_ascii=False))
        if msg is None:
            print('holds on this input')
            return 0
        print(msg)
        print('VIOLATION property=%s replay=%s'
              % (pid, argv[argv.index('--replay') + 1]))
        return 1
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    total = prop.CASES[tier]
    if len(argv) > 2:
        total = int(argv[2])
    t0 = time.time()
    tmp = tempfile.mkdtemp(dir=os.environ.get('TALPBT_TMP'))
    os.environ['TALPBT_TMP'] = tmp
    known = known_findings(pid, prop)
    results = run_workers(prop, seed, total, tmp)
    failures = sorted((r['failure'] for r in results if r['failure']),
                      key=lambda f: f['index'])
    for r in results:
        # a violation found by one worker stands even if another one failed
        if r['error'] and not failures:
            raise core.HarnessError('case %d:\n%s' % (
                r['error']['index'], r['error']['trace']))
    keys = set()
    labels = {}
    samples = []
    for r in results:
        keys.update(r['keys'])
        samples += r['samples']
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
    evaluations = sum(r['evaluations'] for r in results)
    replay = None
    if failures:
        best = shrink(prop, failures[0], tmp)
        d = os.path.join(ROOT, 'replays')
        os.makedirs(d, exist_ok=True)
        replay = os.path.join(d, '%s-%s-%d.json' % (
            pid, tier, failures[0]['index']))
        rec = {'property': pid, 'seed': seed, 'tier': tier,
               'case': failures[0]['index'],
               'replay_cmd': 'bash check.sh %s --replay %s' % (pid, replay),
               'message': best['message'],
               'detail': core.jsonable(best.get('detail', {})),
               'choices': best['choices']}
        with open(replay, 'w', encoding='utf-8') as f:
            json.dump(rec, f, indent=1, ensure_ascii=True)
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': prop.LEVEL,
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(keys),
            'rule': prop.RULE,
            'samples': core.jsonable(samples[:5]),
            'cases_requested': total,
            'distribution': dict(sorted(labels.items())),
            'known_findings_shown': known,
            'repo': repo_revision(),
        },
        'assumptions': prop.ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(failures),
    }
    d = os.path.join(ROOT, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + '.json.tmp'), 'w') as f:
        json.dump(evidence, f, indent=1)
    os.rename(os.path.join(d, pid + '.json.tmp'),
              os.path.join(d, pid + '.json'))
    if failures:
        print(best['message'][:3000])
        detail = json.dumps(core.jsonable(best.get('detail', {})), indent=1,
                            ensure_ascii=False)
        print(detail[:4000])
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    print('%s %s: held on %d evaluations, %d distinct non-trivial, %.1f s' % (
        pid, tier, evaluations, len(keys), time.time() - t0))
    return 0


if __name__ == '__main__':
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
