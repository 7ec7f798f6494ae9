#!/usr/bin/env python3
"""Runs the check of one property: builds what it needs from the working tree of /repo, runs the
harness programs of the property, writes evidence/<id>.json.

usage: check.py ID [--thorough] [--scale X]        (environment: VERIF_SEED, VERIF_TIER)
exit:  0 the property held on everything explored; 1 it was violated (VIOLATION line); 2 error.
"""
import json, os, re, subprocess, sys, tempfile, shutil, time, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'tools'))
from checks import CHECKS

def main():
    pid = sys.argv[1]
    extra = sys.argv[2:]
    conf = CHECKS[pid]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in extra:
        extra.remove('--thorough'); tier = 'thorough'
    if tier not in ('quick', 'thorough'): tier = 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    t0 = time.time()
    replays = f'{VERIF}/replays'
    os.makedirs(replays, exist_ok=True)
    os.makedirs(f'{VERIF}/evidence', exist_ok=True)
    known = f'{VERIF}/known_findings.txt'
    total, violations = [], 0
    bt = 0.0
    for prog in conf['programs']:
        name, config = prog['name'], prog.get('config', 'fast')
        build = os.environ.get('VERIF_BUILD', f'{VERIF}/build') + f'/{config}'
        os.makedirs(build, exist_ok=True)
        b0 = time.time()
        with open(build + '/.lock', 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            r = subprocess.run([sys.executable, f'{VERIF}/tools/genninja.py', build, '--config', config])
            if r.returncode: return 2
            r = subprocess.run(['ninja', '-C', build, name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            if r.returncode:
                print(r.stdout[-6000:])
                print(f'{pid}: cannot build {name}')
                return 2
        bt += time.time() - b0
        work = tempfile.mkdtemp(prefix=f'verif-{pid}-')
        try:
            out = work + '/out.json'
            os.mkdir(work + '/w')
            env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0',
                       TSAN_OPTIONS='halt_on_error=1:exitcode=77:second_deadlock_stack=1:report_signal_unsafe=0',
                       UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1')
            cmd = [f'{build}/{name}', '--out', out, '--work', work + '/w', '--replays', replays, '--seed', str(seed), '--tier', tier]
            cmd += ['--cap', '700' if tier == 'thorough' else '240']
            if os.path.exists(known): cmd += ['--known', known]
            cmd += [str(x) for x in prog.get('args', [])] + extra
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, text=True, errors='replace')
            sys.stdout.write(r.stdout)
            sys.stdout.flush()
            if r.returncode not in (0, 1) or (r.returncode == 1 and 'VIOLATION property=' not in r.stdout):
                print(f'{pid}: {name} ended with {r.returncode}')
                return 2
            if r.returncode == 1: violations += max(1, r.stdout.count('VIOLATION property='))
            total.append((prog, json.load(open(out, errors='replace'))))
        finally:
            shutil.rmtree(work, ignore_errors=True)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(o['evaluations'] for _, o in total),
            'distinct_nontrivial': sum(o['distinct_nontrivial'] for _, o in total),
            'rule': ' / '.join(o['rule'] for _, o in total),
            'samples': [s for _, o in total for s in o['samples']],
            'oracle_checks': sum(o['oracle_checks'] for _, o in total),
            'discarded': sum(o['discarded'] for _, o in total),
            'programs_run': [{'name': p['name'], 'build': p.get('config', 'fast'), 'search_s': round(o['search_s'], 2),
                              'sub_properties': o['sub_properties']} for p, o in total],
        },
        'assumptions': conf.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'build_s': round(bt, 2),
        'violations': violations,
    }
    tmp = f'{VERIF}/evidence/.{pid}.json.tmp'
    with open(tmp, 'w') as f: json.dump(ev, f, indent=1, ensure_ascii=True)
    os.replace(tmp, f'{VERIF}/evidence/{pid}.json')
    c = ev['coverage']
    print(f"{pid}: {c['evaluations']} cases, {c['distinct_nontrivial']} distinct non-trivial, {violations} violations, build {bt:.1f}s, total {ev['wall_s']}s")
    return 1 if violations else 0

sys.exit(main())
