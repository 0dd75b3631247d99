#!/usr/bin/env python3
"""Builds one simulation harness against /repo's working tree, runs it and writes evidence.

usage: check.py P01 [--tier quick|thorough] [--count N] [--secs S] [--build-only] [--replay FILE] [-- harness args]
"""
import argparse
import concurrent.futures
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
from checks import CHECKS, FLAVOURS  # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
JOBS = max(2, min(8, os.cpu_count() or 8))
CXX = os.environ.get('VERIF_CXX', 'g++')


def runtime_sources():
    root = os.path.join(REPO, 'runtime', 'src', 'zserio')
    out = []
    for d, _, files in os.walk(root):
        for f in files:
            if f.endswith('.cpp'):
                out.append(os.path.join(d, f))
    return sorted(out)


def generated_sources(prefixes):
    out = []
    for alloc, names in prefixes:
        d = os.path.join(REPO, 'runtime', 'test', 'test_object', alloc)
        for f in sorted(os.listdir(d)):
            if f.endswith('.cpp') and (names is None or f[:-4] in names):
                out.append(os.path.join(d, f))
    return out


class BuildError(Exception):
    pass


def compile_one(src, flags):
    """Object file of src, from the cache when its preprocessed text and flags were compiled before."""
    inc = ['-I' + os.path.join(REPO, 'runtime', 'src'), '-I' + os.path.join(REPO, 'runtime', 'test'),
           '-I' + os.path.join(VERIF, 'sim'), '-I' + os.path.join(VERIF, 'harness')]
    lang = ['-std=c++17'] if src.endswith('.cpp') else []
    cxx = CXX if src.endswith('.cpp') else 'gcc'
    base = [cxx] + lang + flags + inc
    pre = subprocess.run(base + ['-E', '-o', '-', src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if pre.returncode != 0:
        raise BuildError('%s\n%s' % (src, pre.stderr.decode(errors='replace')))
    key = hashlib.sha256(pre.stdout + '\0'.join(base).encode()).hexdigest()[:32]
    obj = os.path.join(BUILD, 'obj', '%s-%s.o' % (os.path.basename(src)[:-4], key))
    if os.path.exists(obj):
        os.utime(obj)
        return obj
    tmp = '%s.%d.tmp' % (obj, os.getpid())
    res = subprocess.run(base + ['-c', '-o', tmp, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if res.returncode != 0:
        text = res.stdout.decode(errors='replace')
        errors = [line for line in text.splitlines() if ' error: ' in line]
        raise BuildError('%s\n%s' % (src, '\n'.join(errors[:20]) + '\n' + text))
    os.rename(tmp, obj)
    return obj


def prune_cache():
    d = os.path.join(BUILD, 'obj')
    files = sorted((os.path.join(d, f) for f in os.listdir(d)), key=lambda p: os.stat(p).st_mtime)
    total = sum(os.stat(f).st_size for f in files)
    for f in files:
        if total < 1500 << 20:
            break
        total -= os.stat(f).st_size
        os.unlink(f)


def build(spec, pid):
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    prune_cache()
    work = []
    # big files first
    for s in spec['sources']:
        work.append((os.path.join(VERIF, s), FLAVOURS[spec['harness_flavour']] + spec.get('defines', [])))
    for s in generated_sources(spec.get('generated', [])):
        work.append((s, FLAVOURS[spec['generated_flavour']]))
    for s in runtime_sources():
        work.append((s, FLAVOURS[spec['runtime_flavour']]))
    for s in spec.get('plain_sources', []):
        work.append((os.path.join(VERIF, s), FLAVOURS['plain']))
    work.append((os.path.join(VERIF, 'sim', 'sim_main.cpp'), FLAVOURS[spec.get('main_flavour', 'main')]))
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda w: compile_one(*w), work))
    exe = os.path.join(BUILD, pid)
    tmp = '%s.%d.tmp' % (exe, os.getpid())
    res = subprocess.run([CXX] + FLAVOURS['link.' + spec['link_flavour']] + ['-o', tmp] + objs + spec.get('libs', []),
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if res.returncode != 0:
        raise BuildError('link\n' + res.stdout.decode(errors='replace'))
    os.rename(tmp, exe)
    return exe


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--count', type=int)
    ap.add_argument('--secs', type=float)
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or '1'))
    ap.add_argument('--build-only', action='store_true')
    ap.add_argument('--replay')
    args, rest = ap.parse_known_args()
    if rest and rest[0] == '--':
        rest = rest[1:]
    pid = args.property
    spec = CHECKS[pid]
    t0 = time.time()
    try:
        exe = build(spec, pid)
    except BuildError as e:
        print('BUILD ERROR', str(e)[:6000])
        return 2
    t_build = time.time() - t0
    print('%s: built in %.1f s' % (pid, t_build), flush=True)
    if args.build_only:
        return 0
    if args.replay:
        return subprocess.run([exe, '--replay', args.replay, '--known', os.path.join(VERIF, 'known_findings.txt')] + rest).returncode

    tier = spec[args.tier]
    count = args.count or tier['count']
    secs = args.secs or tier['secs']
    replay_dir = os.path.join(BUILD, 'replay')
    os.makedirs(replay_dir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    out = os.path.join(BUILD, pid + '.summary.%d.json' % os.getpid())
    cmd = [exe, '--run', '--seed', str(args.seed), '--count', str(count), '--jobs', str(JOBS), '--max-secs', str(secs),
           '--tier', '1' if args.tier == 'thorough' else '0', '--out', out, '--replay-dir', replay_dir,
           '--known', os.path.join(VERIF, 'known_findings.txt')] + rest
    # a scratch directory of its own: the simulated disk never touches it, but a harness never runs in /verif
    scratch = os.path.join(BUILD, 'scratch.%d' % os.getpid())
    os.makedirs(scratch, exist_ok=True)
    try:
        rc = subprocess.run(cmd, cwd=scratch).returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if rc not in (0, 1) or not os.path.exists(out):
        print('%s: harness ended with status %d' % (pid, rc))
        return 2 if rc in (0, 1) else (rc if 0 < rc < 126 else 2)
    with open(out) as f:
        s = json.load(f)
    os.unlink(out)
    c = s['counters']

    def group(prefix):
        return {k[len(prefix):]: v for k, v in sorted(c.items()) if k.startswith(prefix)}

    wall = time.time() - t0
    hours = max(s['search_wall_s'], 1e-3) / 3600
    cov = {
        'evaluations': s['runs'],
        'distinct_nontrivial': s['distinct_shapes'],
        'rule': spec['rule'],
        'samples': s['samples'],
        'simulated_runs_per_hour': int(s['runs'] / hours),
        'seeds': 'run i of %d uses the generator seeded with mix(VERIF_SEED, i)' % s['requested_runs'],
        'simulated_time_steps': s['steps'],
        'step_measure': spec.get('step_measure', 'one step is one operation of the workload'),
        'faults_injected': group('fault.'),
        'operations': group('op.'),
        'probes': group('probe.'),
        'checks_evaluated': group('check.'),
        'scenarios': group('scenario.'),
        'state_measure': spec.get('state_measure', 'see rule'),
        'real_components': spec['real'],
        'stubbed_components': spec['stub'],
        'determinism': {'repeated_runs': s['determinism_checked'], 'mismatches': s['determinism_mismatches']},
        'violation_gate': s['gate'],
        'build_s': round(t_build, 1),
        'search_s': s['search_wall_s'],
    }
    if s['distinct_states']:
        cov['distinct_states'] = s['distinct_states']
    ev = {'property': pid, 'tier': args.tier, 'seed': args.seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': spec.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': s['violations']}
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    zero = [p for p in spec.get('must_fire', []) if c.get(p, 0) == 0]
    if rc == 0 and zero and s['runs'] >= s['requested_runs']:
        print('%s: note: probes never hit: %s' % (pid, ', '.join(zero)))
    return rc


if __name__ == '__main__':
    sys.exit(main())
