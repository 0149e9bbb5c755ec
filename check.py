#!/usr/bin/env python3
"""check.py ID            runs the monitors of one property against /repo's working tree
   check.py --replay FILE  replays a violation recorded by a former run

Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough), VERIF_CASES (overrides the number of cases).
Exit codes: 0 held, 1 violated (with a VIOLATION line), 2 the check itself couldn't be carried out."""
import fcntl, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
FLAVOUR = {'C14': 'san'}
ASSUMPTIONS = [
    'the reference evaluator (harness/ref.h) computes with IEEE binary128 arithmetic and conservative error bounds; points where the bounds do not allow for a decision are counted, not judged',
    'expressions are single-threaded, exact unless they contain floating point numbers, and of moderate size (up to about 15 inner nodes)',
]


def build(flavour):
    os.makedirs(os.path.join(HERE, 'build'), exist_ok=True)
    with open(os.path.join(HERE, 'build', '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        r = subprocess.run(['bash', os.path.join(HERE, 'build.sh'), flavour], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        print('check.py: build failed (%s)' % flavour)
        sys.exit(2)
    return os.path.join(HERE, 'build', flavour, 'mon')


def env_for(flavour):
    e = dict(os.environ)
    if flavour == 'san':
        e['ASAN_OPTIONS'] = 'abort_on_error=0:exitcode=77:detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1:allocator_may_return_null=0:handle_abort=1'
        e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=77'
    return e


VALGRIND = ['valgrind', '-q', '--error-exitcode=88', '--exit-on-first-error=yes', '--leak-check=no', '--child-silent-after-fork=yes']


def memcheck(pid, seed, total, jobs, out):
    """Runs the first cases of the campaign without sanitizers under valgrind, which also sees uninitialised values."""
    if not shutil.which('valgrind'):
        return {'memcheck_cases': 0}, []
    mon = build('fast')
    step = max(1, (total + jobs - 1)//jobs)
    running = []
    for k in range(jobs):
        first, last = k*step, min(total, (k + 1)*step) - 1
        if first > last:
            break
        log = open(os.path.join(out, 'memcheck%d' % k), 'w+')
        running.append((subprocess.Popen(VALGRIND + [mon, 'serial', pid, str(seed), str(first), str(last)], stdout=subprocess.DEVNULL, stderr=log), log))
    done, bad = 0, []
    end = time.time() + (300 if total <= 1000 else 20000)
    for q, log in running:
        try:
            q.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            q.kill()
            q.wait()
        log.seek(0)
        text = log.read()
        log.close()
        seen = re.findall(r'^index (\d+)$', text, re.M)
        done += len(seen)
        if q.returncode == 88:
            i = int(seen[-1])
            report = ' '.join(l for l in re.sub(r'==\d+==', '', text[text.rindex('index %d\n' % i):]).split('\n')[1:12])
            case = subprocess.run([mon, 'gen', pid, str(seed), str(i)], stdout=subprocess.PIPE, text=True).stdout
            first = int(seen[0])
            bad.append({'index': i, 'first': first, 'kind': 'memcheck', 'msg': 'memcheck report: ' + re.sub(r'\s+', ' ', report)[:800], 'case': case})
    return {'memcheck_cases': done}, bad


def load_known():
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        return json.load(f)


def replay(path):
    text = open(path).read()
    head = dict(re.findall(r'^# (\w+): (.*)$', text, re.M))
    pid, flavour = head['property'], head['flavour']
    if head['kind'] == 'memcheck':
        r = subprocess.run(VALGRIND + [build('fast'), 'serial', pid, head['seed'], head['first'], head['index']], stdout=subprocess.DEVNULL)
        if r.returncode == 88:
            print('VIOLATION property=%s replay=%s' % (pid, path))
        sys.exit(1 if r.returncode == 88 else 0)
    mon = build(flavour)
    if head['kind'] == 'history':
        r = subprocess.run([mon, 'history', pid, head['seed'], head['first'], head['index']], env=env_for(flavour))
    else:
        r = subprocess.run([mon, 'case', pid, path], env=env_for(flavour))
    if r.returncode == 1:
        print('VIOLATION property=%s replay=%s' % (pid, path))
    sys.exit(r.returncode)


def main():
    if len(sys.argv) == 3 and sys.argv[1] == '--replay':
        replay(sys.argv[2])
    if len(sys.argv) != 2:
        print(__doc__)
        sys.exit(2)
    pid = sys.argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    os.environ['VERIF_TIER'] = tier
    t0 = time.time()
    flavour = FLAVOUR.get(pid, 'fast')
    mon = build(flavour)
    built = time.time()
    env = env_for(flavour)
    evidence = os.path.join(HERE, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    if os.path.exists(evidence):
        os.unlink(evidence)
    out = tempfile.mkdtemp(prefix='tsymmon-')
    try:
        cases = os.environ.get('VERIF_CASES', '0')
        jobs = os.environ.get('VERIF_JOBS', str(min(16, os.cpu_count() or 4)))
        r = subprocess.run([mon, 'run', pid, str(seed), cases, jobs, out], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            sys.stdout.write(r.stdout[-4000:])
            print('check.py: the monitor ended with %d' % r.returncode)
            sys.exit(2)
        with open(os.path.join(out, 'summary.json')) as f:
            s = json.load(f)

        findings = [k for k in load_known()['findings'] if k['property'] == pid]
        ids = {k['id'] for k in findings}
        violations = list(s['violations'])
        n_viol = s['n_violations']
        for k in s['known']:
            if k['finding'] not in ids:
                n_viol += 1
                violations.append({'index': k['index'], 'first': k['index'], 'kind': 'single case', 'msg': 'unlisted finding %s: %s' % (k['finding'], k['msg']), 'case': k['case']})
        # the listed findings, each by its own specific case
        for k in findings:
            p = os.path.join(out, 'finding')
            with open(p, 'w') as f:
                f.write(k['case'])
            q = subprocess.run([mon, 'case', pid, p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if q.stdout.startswith('rc 11\n' + k['id'] + '\t'):
                print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
            elif q.returncode == 1:
                n_viol += 1
                violations.append({'index': 0, 'first': 0, 'kind': 'single case', 'msg': 'listed finding %s fails differently: %s' % (k['id'], q.stdout.strip()), 'case': k['case']})
            else:
                print('note: the listed finding %s does not show up any more' % k['id'])
        # former violations: fixed defects and regression cases
        n_reg = 0
        reg = os.path.join(HERE, 'regressions', pid)
        if os.path.isdir(reg):
            for name in sorted(os.listdir(reg)):
                p = os.path.join(reg, name)
                q = subprocess.run([mon, 'case', pid, p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                n_reg += 1
                if q.returncode == 1:
                    n_viol += 1
                    violations.insert(0, {'index': 0, 'first': 0, 'kind': 'single case', 'msg': 'regression %s: %s' % (name, q.stdout.strip()), 'case': open(p).read()})

        c = dict(s['counters'])
        if flavour == 'san':
            total = int(os.environ.get('VERIF_MEMCHECK', '8000' if tier == 'thorough' else '400'))
            observed, bad = memcheck(pid, seed, total, int(jobs), out)
            c.update(observed)
            n_viol += len(bad)
            violations += bad
        evaluations = c.pop('evaluations', 0) + n_reg
        distinct = c.pop('distinct_nontrivial', 0)
        coverage = {
            'evaluations': evaluations,
            'distinct_nontrivial': distinct,
            'rule': s['rule'],
            'samples': s['samples'],
            'monitor_observations': c,
            'inconclusive': s['inconclusive'],
            'inconclusive_cases': s['inconclusive_cases'],
            'worker_processes': s['chunks'],
            'regression_cases': n_reg,
            'flavour': flavour,
            'build_s': round(built - t0, 2),
        }
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': coverage,
              'assumptions': ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': n_viol}
        with open(evidence, 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')

        if n_viol:
            d = os.path.join(HERE, 'replays')
            os.makedirs(d, exist_ok=True)
            for i, v in enumerate(violations[:3]):
                path = os.path.join(d, '%s-%d-%s-%d.case' % (pid, seed, v['index'], i))
                with open(path, 'w') as f:
                    f.write('# property: %s\n# flavour: %s\n# kind: %s\n# seed: %d\n# first: %s\n# index: %s\n# message: %s\n%s' % (
                        pid, flavour, v['kind'], seed, v['first'], v['index'], v['msg'].replace('\n', ' ').replace('\t', ' '), v['case']))
                print('%s: %s' % (v['kind'], v['msg'].strip()))
                print('VIOLATION property=%s replay=%s' % (pid, path))
            sys.exit(1)
        if distinct < s['minNontrivial'] and cases == '0':
            print('check.py: only %d distinct non-trivial cases were observed' % distinct)
            sys.exit(2)
        print('%s held: %d evaluations, %d distinct non-trivial, %d inconclusive, %.0f s' % (pid, evaluations, distinct, s['inconclusive'], time.time() - t0))
    finally:
        shutil.rmtree(out, ignore_errors=True)


main()
