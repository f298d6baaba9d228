#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property by symbolic execution of /repo's current code.

For each configuration of the property: lower the harness and the headers of /repo to LLVM IR, execute every path
symbolically (engine/), replay counterexamples on natively compiled code, and replay a sample of the explored paths
natively to validate the engine. Writes evidence/<property>.json."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from configs import PROPERTIES
REPO = os.environ.get('REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
SYMIR = os.path.join(BUILD, 'symir')
CORES = 8

def sh(cmd, timeout=600, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        return -99, (e.stdout or b'').decode(errors='replace'), 'timeout'

def ensure_engine():
    srcs = [os.path.join(HERE, 'engine', f) for f in os.listdir(os.path.join(HERE, 'engine'))]
    if os.path.exists(SYMIR) and all(os.path.getmtime(s) <= os.path.getmtime(SYMIR) for s in srcs): return
    r, o, e = sh([os.path.join(HERE, 'engine', 'build.sh'), BUILD])
    if r: print('cannot build the engine:', e[-2000:]); sys.exit(2)

def native_cmd(cfg, out, cc, extra):
    return [cc, '-std=c++17', '-g1', '-w', '-fno-access-control', '-I' + HERE + '/rt', '-I' + HERE + '/harness', '-I' + REPO + '/include',
            *[os.path.join(HERE, 'harness', f) if f.endswith('.cpp') else f for f in cfg['flags']], *extra, os.path.join(HERE, 'harness', cfg['harness']), HERE + '/rt/native.cpp', '-o', out, *cfg['libs']]

SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-O1']
PAT = ['-ftrivial-auto-var-init=pattern'] # what is read before it is written shows

def lower(cfg, d):
    bc = os.path.join(d, cfg['name'] + '.bc')
    r, o, e = sh([HERE + '/rt/cc.sh', bc, os.path.join(HERE, 'harness', cfg['harness']), *cfg['flags']], env=dict(os.environ, REPO=REPO))
    return r, bc, e

def read_sample(p):
    end, log = None, []
    for l in open(p):
        if l.startswith('end '): end = l.split()[1]
        if l.startswith('log '): log.append(l.split()[1:])
    return end, log

def run_native(exe, values):
    env = dict(os.environ, SYM_VALUES=values, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1:exitcode=98')
    return sh([exe], timeout=120, env=env)

def verdict(r, o, e):
    """Does this native run show a failure? Returns a description or None."""
    if r == 77 or r == 78: return None
    for l in o.splitlines():
        if l.startswith('SYM-FAIL'): return l
    m = re.search(r'(ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*)', e)
    if m: return m.group(1)
    if r == -99: return 'does not terminate'
    if r != 0: return 'exit status %d %s' % (r, e.strip().splitlines()[-1] if e.strip() else '')
    return None

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    prop = PROPERTIES[pid]
    cfgs = []
    for c in prop['configs']:
        if tier != 'thorough' and c.get('tier') == 'thorough': continue
        if tier == 'thorough' and c.get('tier') == 'quick': continue
        c = dict(c); c['flags'] = list(c.get('flags', [])); c['libs'] = list(c.get('libs', [])); cfgs.append(c)
    only = os.environ.get('ONLY')
    if only: cfgs = [c for c in cfgs if re.search(only, c['name'])]
    ensure_engine()
    tmp = tempfile.mkdtemp(prefix='vc-', dir=os.environ.get('TMPDIR', '/tmp'))
    replay_dir = os.path.join(BUILD, 'replay', pid); shutil.rmtree(replay_dir, ignore_errors=True)
    known = []
    kf = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(kf):
        for l in open(kf):
            m = re.match(r'KNOWN property=(\S+) config=(\S+) match=(.*)', l)
            if m and m.group(1) == pid: known.append((m.group(2), m.group(3).strip()))
    errors, violations, findings, results, incomplete = [], [], [], [], []
    budget = float(os.environ.get('VERIF_BUDGET', prop.get('budget', 800 if tier == 'quick' else 20000)))
    try:
        with cf.ThreadPoolExecutor(CORES) as ex:
            low = {c['name']: ex.submit(lower, c, tmp) for c in cfgs}
            # native builds, for the validation of the engine on explored paths
            nat = {}
            for c in cfgs:
                if c.get('native', True):
                    exe = os.path.join(tmp, c['name'] + '.native')
                    nat[c['name']] = (exe, ex.submit(sh, native_cmd(c, exe, 'g++', ['-O0', *(['-DSYM_COUNT_HEAP'] if c.get('heap') else [])])))
            for c in cfgs:
                r, bc, e = low[c['name']].result()
                if r: errors.append('%s: cannot lower the harness: %s' % (c['name'], e[-3000:])); continue
                out = os.path.join(tmp, c['name']); os.mkdir(out)
                left = budget - (time.time() - t0)
                if left < 5: incomplete.append('%s: not explored, out of time' % c['name']); continue
                cmd = [SYMIR, bc, '--out', out, '--workers', str(CORES), '--time', str(int(left)), '--samples', str(c.get('samples', 12)), *c.get('engine', [])]
                rc, o, e = sh(cmd, timeout=left + 60)
                try: j = json.loads(o.strip().splitlines()[-1])
                except Exception: errors.append('%s: engine failed (%d): %s' % (c['name'], rc, (o + e)[-2000:])); continue
                j['config'] = c; results.append((c, j, out))
                if rc == 1:
                    cexs = sorted(os.path.join(out, f) for f in os.listdir(out) if f.startswith('cex-'))
                    for k, cx in enumerate(cexs[:3]):
                        msg = open(cx).readline().strip('# \n')
                        keep = os.path.join(replay_dir, '%s-%d.txt' % (c['name'], k)); os.makedirs(replay_dir, exist_ok=True)
                        shutil.copy(cx, keep)
                        violations.append((c, msg, keep))
                elif rc != 0 and j['stopped'] and not j['errors'] and not j['crashed'] and j['completed']:
                    incomplete.append('%s: stopped after %d paths, out of time' % (c['name'], j['completed']))
                elif rc != 0:
                    errors.append('%s: engine stopped: %s %s' % (c['name'], {k: v for k, v in j.items() if k not in ('config', 'openmethod_functions')}, e[-1500:]))
                if j.get('undecided'): incomplete.append('%s: %d branches left unexplored, on which the solver gave up' % (c['name'], j['undecided']))
                missing = [l for l in c.get('reach', []) if not j['reach'].get(l)]
                if rc == 0 and missing: errors.append('%s: never reached %s (vacuous)' % (c['name'], missing))
            # engine validation: explored paths replayed natively must end and log the same
            validated, samples = 0, []
            def val(c, exe, path):
                end, log = read_sample(path); r, o, e = run_native(exe, path)
                got = [l.split()[1:] for l in o.splitlines() if l.startswith('log ')]
                gend = [l.split()[1] for l in o.splitlines() if l.startswith('end ')]
                ok = gend == [end] and (got == log or c.get('nolog'))
                return ok, c, path, (end, log), (gend, got, r, (o + e)[-600:])
            futs = []
            for c, j, out in results:
                if c['name'] not in nat: continue
                exe, f = nat[c['name']]; r, o, e = f.result()
                if r: errors.append('%s: native build failed: %s' % (c['name'], e[-2000:])); continue
                sp = sorted(os.path.join(out, f) for f in os.listdir(out) if f.startswith('sample-'))
                futs += [ex.submit(val, c, exe, p) for p in sp]
            for f in futs:
                ok, c, path, want, got = f.result()
                if ok:
                    validated += 1
                    if len(samples) < 6: samples.append({'config': c['name'], 'inputs': [l.strip() for l in open(path) if '=' in l][:40], 'end': want[0], 'log': want[1][:12]})
                elif not violations:
                    errors.append('%s: native replay of an explored path differs: %s want %s got %s' % (c['name'], os.path.basename(path), want, got))
            # counterexamples: replayed on the natively compiled code, with sanitizers
            report = []
            if violations:
                builds = {}
                for c, msg, keep in violations:
                    if c['name'] not in builds:
                        builds[c['name']] = []
                        for cc, extra in (('g++', SAN + PAT), ('clang++-18', SAN + PAT), ('g++', ['-O0', *PAT])):
                            exe = os.path.join(tmp, c['name'] + '.' + cc + str(len(extra)))
                            builds[c['name']].append((exe, ex.submit(sh, native_cmd(c, exe, cc, [*extra, *(['-DSYM_COUNT_HEAP'] if c.get('heap') else [])]))))
                for c, msg, keep in violations:
                    how = None
                    for exe, f in builds[c['name']]:
                        if f.result()[0]: continue
                        how = verdict(*run_native(exe, keep))
                        if how: break
                    with open(keep, 'a') as f:
                        f.write('\n# property %s, configuration %s: %s %s\n# native replay: %s\n' % (pid, c['name'], c['harness'], ' '.join(c['flags']), how or 'not reproduced by the native builds; reproduced by executing the IR'))
                    k = [m for n, m in known if n in (c['name'], '*') and m in msg]
                    (findings if k else report).append((c, msg, keep, how))
        cov = {
            'states': sum(j['paths'] + j['forks'] for c, j, o in results), 'transitions': sum(j['steps'] for c, j, o in results),
            'traces_validated_against_impl': validated, 'samples': samples or [{'none': 'no path was sampled'}],
            'paths_completed': sum(j['completed'] for c, j, o in results), 'paths_assumed_out': sum(j['assumed_out'] for c, j, o in results),
            'solver_queries': sum(j['queries'] for c, j, o in results), 'solver_sat': sum(j['sat'] for c, j, o in results), 'solver_unsat': sum(j['unsat'] for c, j, o in results),
            'query_cache_hits': sum(j['query_cache_hits'] for c, j, o in results), 'solver_s': round(sum(j['solver_s'] for c, j, o in results), 3),
            'assertions_checked': sum(j['asserts'] for c, j, o in results), 'assertions_decided_by_solver': sum(j['asserts_symbolic'] for c, j, o in results),
            'paths_beyond_budget': sum(j.get('over_budget', 0) for c, j, o in results), 'branches_left_undecided': sum(j.get('undecided', 0) for c, j, o in results),
            'configurations': [{'name': c['name'], 'harness': c['harness'], 'flags': c['flags'], 'bounds': c.get('bounds', ''), 'paths': j['paths'], 'queries': j['queries'], 'solver_s': j['solver_s'], 'wall_s': j['wall_s'], 'reached': j['reach']} for c, j, o in results],
            'functions_encoded': sorted({f for c, j, o in results for f in j['openmethod_functions']})[:200],
            'bounds': prop.get('bounds', ''), 'outside_the_bounds': prop.get('outside', ''),
            'exhaustive': not errors and not violations and not incomplete, 'incomplete': incomplete,
        }
        ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'model_checking', 'coverage': cov,
              'assumptions': prop.get('assumptions', []) + ['LLVM IR produced by clang++-18 -O1 for the harness and the headers of /repo, libstdc++ 13 and Boost 1.83 headers', 'single thread', 'models of libc, the C++ runtime and non-template libstdc++ functions (rt/models.cpp, engine/exec.cpp)'],
              'wall_s': round(time.time() - t0, 2), 'violations': len(report)}
        os.makedirs(HERE + '/evidence', exist_ok=True)
        with open(HERE + '/evidence/%s.json' % pid, 'w') as f: json.dump(ev, f, indent=1)
        for l in dict.fromkeys('KNOWN-FINDING: property=%s %s: %s' % (pid, c['name'], msg) for c, msg, keep, how in findings): print(l)
        for c, msg, keep, how in report: print('%s: %s [native: %s]' % (c['name'], msg, how))
        for e in errors: print('ERROR', e)
        for e in incomplete: print('INCOMPLETE', e)
        print('%s %s: %d paths, %d queries, %.1f s solver, %d/%d validated, %.1f s' % (pid, tier, cov['paths_completed'], cov['solver_queries'], cov['solver_s'], validated, len(futs), time.time() - t0))
        if report:
            print('VIOLATION property=%s replay=%s' % (pid, report[0][2])); return 1
        return 2 if errors else 0
    finally:
        if not os.environ.get('KEEP'): shutil.rmtree(tmp, ignore_errors=True)
        else: print('kept', tmp)

sys.exit(main())
