#!/usr/bin/env python3
"""check.py PROPERTY: builds what the property needs from /repo, searches, and gives the verdict.

exit 0: held on everything explored; 1: broken (with a VIOLATION line); 2: the check itself failed"""

import json
import os
import re
import signal
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from table import PROPS, COMPONENTS, ASSUMPTIONS

VERIF = build.VERIF
WORKERS = max(1, min(8, os.cpu_count() or 1))


def known_findings(prop):
    """classes of violation listed as known, with what fails"""
    out = {}
    with open(VERIF + '/KNOWN_FINDINGS') as f:
        for line in f:
            m = re.match(r'known: property=(\S+) class="([^"]*)" (.*)', line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def fail(message):
    print('ERROR: ' + message)
    sys.exit(2)


def stop(proc):
    try:
        os.killpg(proc.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


def main():
    prop = sys.argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    info = PROPS[prop]
    seconds = float(os.environ.get('VERIF_TIME', info[tier]))
    start = time.time()
    if not build.build([info['exe']]):
        fail('build failed')
    built = time.time()
    exe = f'{VERIF}/build/{info["exe"]}'
    known = known_findings(prop)
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    os.makedirs(VERIF + '/replays', exist_ok=True)
    env = {k: v for k, v in os.environ.items() if k in ('PATH',)}
    with tempfile.TemporaryDirectory(dir=VERIF + '/build') as tmp:
        procs = []
        for i in range(WORKERS):
            procs.append(subprocess.Popen(
                [exe, 'search', prop, '--seed', str(seed), '--time', str(seconds), '--worker', str(i), '--workers', str(WORKERS),
                 '--out', f'{tmp}/{i}.json', '--replay-out', f'{tmp}/{i}.replay', '--known', '\n'.join(known)],
                env=env, stdout=subprocess.DEVNULL, stderr=open(f'{tmp}/{i}.err', 'wb'), start_new_session=True))
        results, found = [], []
        errors = [b''] * WORKERS
        # the first violation is enough: stop the others once it has been minimised
        waiting = set(range(WORKERS))
        while waiting:
            for i in sorted(waiting):
                if procs[i].poll() is not None:
                    waiting.discard(i)
                    errors[i] = open(f'{tmp}/{i}.err', 'rb').read()
                    if procs[i].returncode == 1 and not found:
                        found.append(i)
                        for j in waiting:
                            stop(procs[j])
            # a run is stopped after a minute, and minimising has its own limit
            if waiting and time.time() - built > seconds + 300:
                for i in waiting:
                    stop(procs[i])
                if not found:
                    fail(f'workers {sorted(waiting)} did not end')
            time.sleep(0.05)
        for i in range(WORKERS):
            code = procs[i].returncode
            path = f'{tmp}/{i}.json'
            if os.path.exists(path):
                r = json.load(open(path))
                results.append(r)
                if code == 2 and not found:
                    fail(f'worker {i}: ' + r['message'] + ' ' + errors[i].decode('utf-8', 'replace')[-2000:])
            elif not found:
                fail(f'worker {i} ended with {code}: ' + errors[i].decode('utf-8', 'replace')[-2000:])
        replay = None
        if found:
            i = found[0]
            replay = f'{VERIF}/replays/{prop}-{seed}.replay'
            with open(f'{tmp}/{i}.replay', 'rb') as f:
                data = f.read()
            with open(replay, 'wb') as f:
                f.write(data)
            message = json.load(open(f'{tmp}/{i}.json'))['message']
            # believed only if fresh processes reproduce it exactly
            for _ in range(2):
                r = subprocess.run([exe, 'replay', prop, '--file', replay], env=env, capture_output=True, text=True, errors='replace')
                if r.returncode != 1:
                    fail(f'the violation did not come back in a fresh process: {message}\n{r.stdout[-2000:]}{r.stderr[-2000:]}')

    counts, signatures, samples = {}, set(), []
    for r in results:
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
        signatures.update(r['signatures'])
        samples += r['samples'][:2]
    runs = sum(r['runs'] for r in results)
    search = max([r['wall_s'] for r in results] or [0.001])
    coverage = {
        'evaluations': runs,
        'distinct_nontrivial': len(signatures),
        'rule': results[0]['rule'] if results else '',
        'samples': samples[:8] or ['none'],
        'nontrivial_runs': sum(r['nontrivial'] for r in results),
        'distinct_traces_per_worker_summed': sum(r['traces'] for r in results),
        'runs_repeated_to_confirm_the_trace': sum(r['rerun'] for r in results),
        'seeds_per_hour': int(runs / max(search, 0.001) * 3600),
        'simulated_seconds': round(sum(r['simulated_s'] for r in results), 3),
        'faults_injected': {k[6:]: v for k, v in sorted(counts.items()) if k.startswith('fault.')},
        'other_counts': {k: v for k, v in sorted(counts.items()) if not k.startswith(('fault.', 'known.'))},
        'known_findings_met': {k[6:]: v for k, v in sorted(counts.items()) if k.startswith('known.')},
        'components': COMPONENTS[info['exe']],
        'build_s': round(built - start, 2),
    }
    evidence = {
        'property': prop,
        'tier': tier,
        'seed': seed,
        'level': info.get('level', 'exploration'),
        'coverage': coverage,
        'wall_s': round(time.time() - start, 2),
        'assumptions': ASSUMPTIONS[info['exe']] + info.get('assumptions', []),
        'violations': 1 if replay else 0,
    }
    with open(f'{VERIF}/evidence/{prop}.json', 'w') as f:
        json.dump(evidence, f, indent=1)
    for cls, what in known.items():
        if counts.get('known.' + cls):
            print(f'KNOWN-FINDING: property={prop} {what}')
    if replay:
        print(message)
        print(f'VIOLATION property={prop} replay={replay}')
        sys.exit(1)
    # a search which explored nothing decides nothing
    if runs < info.get('min_runs', 50) or not signatures:
        fail(f'only {runs} runs')
    print(f'held: {prop}: {runs} runs, {len(signatures)} distinct non-trivial, {sum(v for k, v in counts.items() if k.startswith("fault."))} faults')
    sys.exit(0)


main()
