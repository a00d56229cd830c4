#!/usr/bin/env python3
"""Builds a harness against /repo's current working tree, runs the simulation for one property and reports.

usage: check.py PROPERTY [--tier quick|thorough] [--seed N] [--budget SECONDS]
       check.py --build-all
       check.py --determinism [PROPERTY ...]
exit: 0 the property held, 1 violation (VIOLATION line), 2 error of the check
"""
import concurrent.futures, fcntl, hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('BALAU_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
OUT = os.path.join(VERIF, 'out')
GEN = os.path.join(BUILD, 'gen')
SRC = REPO + '/src/main/cpp'
sys.path.insert(0, VERIF)
from groups import GROUPS, PROPS

SIMFLAGS = ['-std=c++17', '-O2', '-g', '-Wall']
COMMON = ['-std=c++17', '-O1', '-g1', '-fsanitize=thread', '-fno-omit-frame-pointer', '-w',
          '-include', 'complex', '-include', 'fstream', '-include', 'boost/filesystem/fstream.hpp', '-I' + SRC, '-I' + GEN]
LIBS = ['-lboost_thread', '-lboost_serialization', '-lboost_filesystem', '-lboost_system', '-lboost_date_time', '-lboost_locale',
        '-lboost_chrono', '-lboost_iostreams', '-lzip', '-lz', '-lbz2', '-licui18n', '-licuuc', '-lssl', '-lcrypto', '-lpthread', '-lrt', '-ldl']
ENABLED = {'BALAU_ENABLE_ZLIB', 'BALAU_ENABLE_ZIP', 'BALAU_ENABLE_CURL', 'BALAU_ENABLE_HTTP', 'BOOST_BEAST_NEW_API'}


class CheckError(Exception):
    pass


def sha(b):
    return hashlib.sha256(b).hexdigest()


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def write_if_changed(p, text):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or read(p) != text.encode():
        with open(p, 'w') as f:
            f.write(text)


def gen_config():
    t = read(SRC + '/Balau/BalauConfig.hpp.in').decode()
    t = re.sub(r'^#cmakedefine (\w+)', lambda m: ('#define ' if m.group(1) in ENABLED else '// not defined: ') + m.group(1), t, flags=re.M)
    write_if_changed(GEN + '/Balau/BalauConfig.hpp', t)


def compile_tu(src, flags, tag):
    """Content-hash cached compilation."""
    name = re.sub(r'[^A-Za-z0-9]', '_', src.replace(SRC + '/', '').replace(VERIF + '/', '')) + '-' + sha(' '.join(flags + [tag]).encode())[:10]
    obj, dep, key = BUILD + '/' + name + '.o', BUILD + '/' + name + '.d', BUILD + '/' + name + '.key'

    def digest():
        if not os.path.exists(dep):
            return None
        files = re.sub(r'\\\n', ' ', read(dep).decode()).split(':', 1)[1].split()
        h = hashlib.sha256(' '.join(flags).encode())
        for f in sorted(set(files)):
            if not os.path.exists(f):
                return None
            h.update(f.encode() + b'\0' + read(f) + b'\0')
        return h.hexdigest()

    d = digest()
    if d and os.path.exists(obj) and os.path.exists(key) and read(key).decode() == d:
        return obj, d
    for p in (obj, key):
        if os.path.exists(p):
            os.remove(p)
    r = subprocess.run(['g++'] + flags + ['-MMD', '-MF', dep, '-c', src, '-o', obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise CheckError('compilation of %s failed:\n%s' % (src, r.stdout.decode(errors='replace')[-4000:]))
    d = digest()
    with open(key, 'w') as f:
        f.write(d)
    return obj, d


def build(group):
    g = GROUPS[group]
    gen_config()
    jobs = [(VERIF + '/sim/' + f, SIMFLAGS, 'sim') for f in ('sim.cpp', 'tsanrt.cpp', 'simio.cpp', 'simnet.cpp', 'driver.cpp')]
    jobs.append((VERIF + '/sim/stdinst.cpp', COMMON, 'inst'))
    jobs.append((VERIF + '/harness/' + g['harness'], COMMON + g.get('flags', []), 'harness'))
    for s in g.get('sources', []):
        jobs.append((SRC + '/Balau/' + s, COMMON, 'repo'))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: compile_tu(*j), jobs))
    exe, key = BUILD + '/' + group, BUILD + '/' + group + '.link'
    k = sha(' '.join([o[1] for o in objs] + LIBS + g.get('libs', [])).encode())
    if not (os.path.exists(exe) and os.path.exists(key) and read(key).decode() == k):
        if os.path.exists(key):
            os.remove(key)
        r = subprocess.run(['g++', '-no-pie', '-rdynamic', '-o', exe] + [o[0] for o in objs] + LIBS + g.get('libs', []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise CheckError('linking %s failed:\n%s' % (group, r.stdout.decode(errors='replace')[-4000:]))
        with open(key, 'w') as f:
            f.write(k)
    return exe


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        os.makedirs(OUT, exist_ok=True)
        self.f = open(BUILD + '/.lock', 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def run_driver(exe, args, timeout):
    return subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)


def check(prop, tier, seed, budget=None):
    t0 = time.time()
    p = PROPS[prop]
    with Lock():
        exe = build(p['group'])
    tb = time.time() - t0
    if budget is None:
        budget = p.get('quick', 15) if tier == 'quick' else p.get('thorough', 600)
    jobs = len(os.sched_getaffinity(0))
    jobs = max(2, min(8, jobs))
    js = OUT + '/%s.json' % prop
    replays = OUT + '/replays'
    if os.path.exists(js):
        os.remove(js)
    r = run_driver(exe, ['--property', prop, '--seed', str(seed), '--budget', str(budget), '--jobs', str(jobs), '--json', js,
                         '--replay-dir', replays, '--known', VERIF + '/known_findings.txt', '--minimise', '60' if tier == 'quick' else '180'], budget + 700)
    sys.stdout.write(r.stdout.decode(errors='replace'))
    sys.stderr.write(r.stderr.decode(errors='replace')[-3000:])
    if not os.path.exists(js):
        raise CheckError('the driver wrote no result (exit %d)' % r.returncode)
    res = json.load(open(js))
    violations, broken = [], []
    for v in res['violations']:
        # gate: the minimised file has to reproduce exactly, in fresh processes
        outs = [run_driver(exe, ['--replay', v['replay'], '--quiet'], 200) for _ in range(2)]
        lines = [o.stdout.decode(errors='replace').splitlines() for o in outs]
        ok = all(o.returncode == 1 for o in outs) and all(any(l.startswith('replay:') and l.endswith(': REPRODUCED') for l in ls) for ls in lines)
        (violations if ok else broken).append(v)
        if not ok:
            print('replay of %s in a fresh process does not reproduce it exactly:' % v['replay'])
            for ls in lines:
                print('   ' + '\n   '.join(ls[:3]))
    for k in res['known']:
        if k['hits']:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['description']))
        else:
            print('KNOWN-FINDING: property=%s %s (not reached in this run)' % (prop, k['description']))
    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': res['runs'],
            'distinct_nontrivial': res['distinct_nontrivial'],
            'rule': 'one evaluation is one simulated run (seeded workload + seeded schedule + seeded faults); distinct: different hash over the complete sequence of scheduling and fault decisions; '
                    + '; '.join('%s: %s' % (n, s['rule']) for n, s in res['scenarios'].items()),
            'samples': res['samples'] or [{'note': 'no passing non-trivial run in this batch'}],
            'exhaustive': False,
            'runs_per_hour': int(res['runs'] / max(res['wall_s'], 0.01) * 3600),
            'seeds': res['runs'],
            'simulated_seconds': res['simulated_seconds'],
            'search_wall_s': res['wall_s'],
            'build_wall_s': round(tb, 1),
            'nontrivial_runs': res['nontrivial'],
            'distinct_schedules': res['distinct_traces'],
            'distinct_synchronisation_orders': res['distinct_sync_orders'],
            'fault_kinds_injected': res['faults'],
            'rare_condition_probes': res['probes'],
            'scenarios': res['scenarios'],
            'context_switches': res['context_switches'],
            'synchronisation_operations': res['sync_operations'],
            'instrumented_steps': res['steps'],
            'priority_schedule_runs': res['pct_runs'],
            'multi_process_runs': res['multi_process_runs'],
            'max_threads_in_a_run': res['max_threads'],
            'determinism': {'runs_executed_twice': res['rechecked'], 'hash_mismatches': res['mismatched'], 'invalid_runs': res['invalid'], 'invalid_text': res['invalid_text']},
            'real_code': p.get('real', GROUPS[p['group']].get('real', '')),
            'stubbed': p.get('stub', GROUPS[p['group']].get('stub', 'thread scheduler, clocks, timers, lock and condition variable implementation, heap, process table, randomness device')),
            'known_findings': [{'description': k['description'], 'hits': k['hits']} for k in res['known']],
        },
        'assumptions': p.get('assumptions', []) + [
            'memory accesses of uninstrumented libraries (libstdc++, boost libraries, libc) are atomic with respect to preemption',
            'hardware memory reordering is covered only through the happens-before check of payload data, not simulated',
        ],
        'wall_s': round(wall, 1),
        'violations': len(violations),
    }
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    with open(VERIF + '/evidence/%s.json' % prop, 'w') as f:
        json.dump(ev, f, indent=1)
    for v in violations:
        print('  %s/%s: %s' % (v['scenario'], v['class'], v['detail']))
        print('VIOLATION property=%s replay=%s' % (prop, v['replay']))
    if violations:
        return 1
    if broken:
        return 2
    if res['mismatched']:
        print('error: %d non-deterministic runs (%s)' % (res['mismatched'], res['mismatch_text']))
        return 2
    if res['runs'] == 0 or res['invalid'] * 200 > res['runs']:
        print('error: %d of %d runs invalid: %s' % (res['invalid'], res['runs'], res['invalid_text']))
        return 2
    print('property %s held in %d simulated runs (%.0f s)' % (prop, res['runs'], wall))
    return 0


def determinism(props, seed):
    """Same seeds at different worker counts and in fresh processes: the run hashes have to be identical."""
    bad = 0
    for prop in props:
        with Lock():
            exe = build(PROPS[prop]['group'])
        files = []
        for jobs in (8, 3, 8):
            f = OUT + '/hash-%s-%d' % (prop, len(files))
            run_driver(exe, ['--property', prop, '--seed', str(seed), '--runs', '3000', '--budget', '60', '--jobs', str(jobs), '--hashes', f, '--recheck', '0', '--keep-going', '--minimise', '0', '--replay-dir', OUT + '/det'], 900)
            files.append({l.split(' ', 1)[0]: l for l in open(f)})
        common = set(files[0]) & set(files[1]) & set(files[2])
        diff = [i for i in common if not files[0][i] == files[1][i] == files[2][i]]
        print('%s: %d runs executed 3 times (8, 3 and 8 workers), %d differ %s' % (prop, len(common), len(diff), sorted(diff)[:5]))
        bad += len(diff)
    return 1 if bad else 0


def main():
    a = sys.argv[1:]

    def opt(name, default):
        return a[a.index(name) + 1] if name in a else default
    tier = opt('--tier', os.environ.get('VERIF_TIER', 'quick'))
    seed = int(opt('--seed', os.environ.get('VERIF_SEED', '1')))
    budget = opt('--budget', None)
    if '--build-all' in a:
        rc = 0
        with Lock():
            for g in GROUPS:
                t = time.time()
                try:
                    build(g)
                    print('built %s in %.1f s' % (g, time.time() - t))
                except CheckError as e:
                    print(e)
                    rc = 2
        return rc
    if '--determinism' in a:
        props = [x for x in a if x in PROPS] or list(PROPS)
        return determinism(props, seed)
    prop = a[0]
    try:
        return check(prop, tier, seed, float(budget) if budget else None)
    except CheckError as e:
        print('error: %s' % e)
        return 2
    except subprocess.TimeoutExpired as e:
        print('error: %s' % e)
        return 2


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
