"""
Harness core: sharded execution of monitored cases, verdicts, evidence.

A check is a module ``checks/cXX.py`` providing

    ID            property id
    LEVEL         'exploration' | 'fault_enumeration'
    RULE          how cases are made / what is non-trivial (evidence)
    NCASES        {'quick': n, 'thorough': m}
    MIN_DISTINCT  {'quick': n, 'thorough': m}   fewer distinct cases -> no verdict
    REQUIRED      iterable of event names the monitors must have observed at least once
    case(ctx)     runs one monitored case.  Raises Violation, or returns normally.

``ctx`` gives the case its own PRNG (ctx.rng, seeded by property, VERIF_SEED and case
index only), a scratch directory, and the recording functions of the monitors.

Verdict discipline: exit 0 only if every case ran, enough distinct non-trivial cases
were seen and all REQUIRED monitor events fired; exit 1 + VIOLATION line only for an
observed violation; everything else (harness trouble, nothing observed) exits 2.
"""
import collections, hashlib, importlib, json, os, pickle, random, shutil, signal, subprocess
import sys, tempfile, time, traceback, faulthandler

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VMON_REPO', '/repo')  # another tree only for the author's mutation runs
NPROC = 8
CASE_TIMEOUT = 150


class Violation(Exception):
    """the monitored property was observed to be violated"""


class HarnessError(Exception):
    """the harness, not the code under test, is at fault"""


class CaseTimeout(BaseException):
    pass


def violation(msg, *args):
    raise Violation(msg % args if args else msg)


class Ctx:
    def __init__(self, check, seed, tier, index, scratch):
        self.check, self.seed, self.tier, self.index = check, seed, tier, index
        self.rng = random.Random('%s/%d/%d' % (check.ID, seed, index))
        self.scratch = scratch
        self.events = collections.Counter()
        self.keys = set()
        self.sample = None
        self.evals = 0
        self.thorough = tier == 'thorough'
        self._n = 0

    def path(self, suffix='.hkl'):
        self._n += 1
        return os.path.join(self.scratch, 'f%d%s' % (self._n, suffix))

    def event(self, name, n=1):
        self.events[name] += n

    def evaluated(self, key, nontrivial=True, sample=None):
        """record one evaluated execution; `key` identifies it up to distinctness"""
        self.evals += 1
        if nontrivial:
            self.keys.add(hashlib.blake2b(key.encode('utf8', 'backslashreplace'), digest_size=8).hexdigest())
            if sample is not None and self.sample is None:
                self.sample = str(sample)[:400]


def setup_python():
    """make sure the code under test is /repo's working tree"""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import hickle
    here = os.path.realpath(os.path.dirname(hickle.__file__))
    if here != os.path.realpath(os.path.join(REPO, 'hickle')):
        raise HarnessError('hickle imported from %s' % here)


def load_check(pid):
    return importlib.import_module('checks.%s' % pid.lower())


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(check, seed, tier, index, base):
    scratch = tempfile.mkdtemp(prefix='case%d-' % index, dir=base)
    ctx = Ctx(check, seed, tier, index, scratch)
    res = dict(index=index, status='ok', detail=None)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(getattr(check, 'CASE_TIMEOUT', CASE_TIMEOUT))
    cwd = os.getcwd()
    try:
        check.case(ctx)
    except Violation as e:
        res.update(status='violation', detail=str(e))
    except CaseTimeout:
        # only an endless call into the code under test is an observation of it
        tb = traceback.format_exc()
        res.update(status='violation' if REPO + '/hickle/' in tb else 'error',
                   detail='case did not finish within %d s: %s' % (getattr(check, 'CASE_TIMEOUT', CASE_TIMEOUT), tb[-1500:]))
    except BaseException as e:
        # an exception that escaped from the code under test where the case did not
        # expect one is an observation; anything else is trouble of the harness
        mine = not isinstance(e, (MemoryError, KeyboardInterrupt)) and getattr(e, 'errno', None) not in (28, 24, 12)
        inside = any(REPO + '/hickle/' in f.filename for f in traceback.extract_tb(e.__traceback__))
        # the oracle could not even digest what the code under test returned, see _main
        puzzled = mine and isinstance(e, (LookupError, AttributeError, TypeError, ValueError, AssertionError, ArithmeticError)) and not isinstance(e, UnicodeError)
        res.update(status='violation' if mine and inside else 'error', puzzled=puzzled,
                   detail='unexpected exception: ' + traceback.format_exc()[-4000:])
    finally:
        signal.alarm(0)
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    res.update(events=dict(ctx.events), keys=sorted(ctx.keys), sample=ctx.sample, evals=ctx.evals)
    return res


def worker(pid, seed, tier, indices, base, out):
    """runs in a child process: executes the cases and appends one JSON line per case"""
    faulthandler.enable(open(out + '.fault', 'w'))
    check = load_check(pid)
    with open(out, 'w') as f:
        for i in indices:
            f.write('START %d\n' % i)
            f.flush()
            f.write(json.dumps(run_case(check, seed, tier, i, base)) + '\n')
            f.flush()


def _spawn(pid, seed, tier, indices, base, out):
    # a fresh interpreter per worker: no state shared with the parent
    code = ('import sys; sys.path[:0]=[%r]; from vmon import core; core.setup_python();'
            'core.worker(%r,%d,%r,%r,%r,%r)' % (VERIF, pid, seed, tier, list(indices), base, out))
    env = dict(os.environ)
    env.update(PYTHONHASHSEED=str(seed % 4294967295), PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', HOME=base, ASTROPY_CACHE='', XDG_CACHE_HOME=base, TMPDIR=base,
               HDF5_USE_FILE_LOCKING=os.environ.get('HDF5_USE_FILE_LOCKING', 'TRUE'))
    log = open(out + '.log', 'w')
    return subprocess.Popen([sys.executable, '-X', 'pycache_prefix=' + os.path.join(base, 'pyc'), '-c', code], env=env,
                            stdout=log, stderr=subprocess.STDOUT, cwd=base)


def _collect(out):
    results, started = [], None
    if os.path.exists(out):
        for line in open(out):
            if line.startswith('START '):
                started = int(line.split()[1])
            elif line.endswith('\n'):
                results.append(json.loads(line))
                started = None
    return results, started


def known_findings(pid):
    """entries of the committed known-findings file for this property: {key: text}"""
    res = {}
    with open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt')) as f:
        for line in f:
            line = line.strip()
            if line.startswith('open: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                key, text = rest.split(' ', 1)
                assert key.startswith('key=')
                res[key[4:]] = text
    return res


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 1 and argv[1] in ('quick', 'thorough'):
        tier = argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    sys.path[:0] = [VERIF]
    setup_python()
    check = load_check(pid)
    base = tempfile.mkdtemp(prefix='vmon-%s-' % pid)
    if len(argv) > 2 and argv[1] == '--replay':
        return replay(check, argv[2], base)
    procs = []

    def cleanup(*_):
        for p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(base, ignore_errors=True)
    signal.signal(signal.SIGTERM, lambda *_: (cleanup(), os._exit(2)))
    try:
        return _main(check, pid, tier, seed, base, procs, t0)
    finally:
        cleanup()


def _main(check, pid, tier, seed, base, procs, t0):
    n = check.NCASES[tier]
    deadline = t0 + (780 if tier == 'quick' else 3 * 3600)
    nproc = min(NPROC, n)
    # never more cases per interpreter than this, so that a worker stays small
    todo = [list(range(w, n, nproc)) for w in range(nproc)]
    results, crashes = [], []
    running = []
    for w, idx in enumerate(todo):
        out = os.path.join(base, 'w%d.jsonl' % w)
        p = _spawn(pid, seed, tier, idx, base, out)
        procs.append(p)
        running.append((p, out, idx))
    timed_out = False
    stop_early = False
    while running:
        time.sleep(0.05)
        for item in list(running):
            p, out, idx = item
            if p.poll() is None:
                if time.time() > deadline:
                    p.kill()
                    p.wait()
                    timed_out = True
                else:
                    continue
            running.remove(item)
            done, started = _collect(out)
            results += done
            if any(r['status'] == 'violation' for r in done):
                stop_early = True
            if timed_out:
                continue
            if started is not None or p.returncode != 0:
                tail = open(out + '.log').read()[-1500:] + open(out + '.fault').read()[-3000:] if os.path.exists(out + '.fault') else open(out + '.log').read()[-3000:]
                crashes.append((started, p.returncode, tail))
                rest = [i for i in idx if i not in {r['index'] for r in done} and i != started]
                if rest and len(crashes) < 20 and started is not None:
                    out2 = out[:-6] + 'x.jsonl'
                    p2 = _spawn(pid, seed, tier, rest, base, out2)
                    procs.append(p2)
                    running.append((p2, out2, rest))
    violations = [r for r in results if r['status'] == 'violation']
    errors = [r for r in results if r['status'] == 'error']
    # an oracle that fails on what it is given, and does so again in a new process, was given
    # something else than ever on the tree it was written for
    for r in [r for r in errors if r.get('puzzled')][:3] if not violations else ():
        out = os.path.join(base, 'again%d.jsonl' % r['index'])
        p = _spawn(pid, seed, tier, [r['index']], base, out)
        try:
            p.wait(600)
        except subprocess.TimeoutExpired:
            p.kill()
        done, _ = _collect(out)
        if done and done[0]['status'] == 'error' and done[0].get('puzzled'):
            errors.remove(r)
            violations.append(dict(r, detail='observation not understood by the oracle: ' + r['detail']))
    # a worker died (signal) inside a case: confirm in a fresh process
    for started, rc, tail in crashes:
        if started is None:
            errors.append(dict(index=-1, detail='worker failed rc=%s %s' % (rc, tail)))
            continue
        out = os.path.join(base, 'confirm%d.jsonl' % started)
        p = _spawn(pid, seed, tier, [started], base, out)
        try:
            p.wait(600)
        except subprocess.TimeoutExpired:
            p.kill()
        done, st = _collect(out)
        if done and done[0]['status'] == 'ok':
            results += done
            errors.append(dict(index=started, detail='worker died rc=%s but case passes alone: %s' % (rc, tail)))
        else:
            violations.append(dict(index=started, detail='process died (rc=%s) during case; %s' % (rc, tail)))

    events = collections.Counter()
    keys = set()
    samples = []
    for r in results:
        events.update(r.get('events', {}))
        keys.update(r.get('keys', ()))
        if r.get('sample') and len(samples) < 6 and r['index'] % max(1, n // 12) == 0:
            samples.append(r['sample'])
    if not samples:
        samples = [r['sample'] for r in results if r.get('sample')][:6]
    evals = sum(r.get('evals', 0) for r in results)

    # known findings: probed on every run, reported, never counted as violations unless changed
    known = {}
    for key, text in known_findings(pid).items():
        probe = check.KNOWN[key]
        scratch = tempfile.mkdtemp(dir=base)
        try:
            state = probe(scratch)
        except Violation as e:
            violations.append(dict(index=-1, detail='known finding %s changed: %s' % (key, e)))
            state = 'changed'
        known[key] = state
        if state == 'present':
            print('KNOWN-FINDING: property=%s %s' % (pid, text))

    missing = [e for e in check.REQUIRED if not events.get(e)]
    verdict = 0
    problems = []
    if errors:
        problems.append('%d harness errors, first: %s' % (len(errors), errors[0]['detail']))
    if len({r['index'] for r in results}) < n:
        problems.append('only %d of %d cases ran' % (len({r['index'] for r in results}), n))
    if missing:
        problems.append('monitors never observed: %s' % ', '.join(missing))
    if len(keys) < check.MIN_DISTINCT[tier]:
        problems.append('only %d distinct cases' % len(keys))
    ev = dict(
        property=pid, tier=tier, seed=seed, level=check.LEVEL,
        coverage=dict(
            evaluations=evals, distinct_nontrivial=len(keys), rule=check.RULE, samples=samples,
            cases=len({r['index'] for r in results}), monitor_events=dict(sorted(events.items())),
            known_findings=known, problems=problems,
        ),
        assumptions=list(getattr(check, 'ASSUMPTIONS', [])),
        wall_s=round(time.time() - t0, 2), violations=len(violations),
    )
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % pid)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.replace(tmp, os.path.join(VERIF, 'evidence', '%s.json' % pid))
    if violations:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        for v in violations[:5]:
            rp = os.path.join(VERIF, 'replays', '%s-%s-s%d-c%d.json' % (pid, tier, seed, v['index']))
            with open(rp, 'w') as f:
                json.dump(dict(property=pid, tier=tier, seed=seed, index=v['index'], detail=v['detail']), f, indent=1)
            print('detail: case %d: %s' % (v['index'], v['detail'][:1500].encode('ascii', 'backslashreplace').decode()))
            print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if problems:
        print('NO VERDICT property=%s: %s' % (pid, '; '.join(problems)))
        return 2
    print('OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs' % (
        pid, tier, seed, evals, len(keys), time.time() - t0))
    return 0


def replay(check, path, base):
    try:
        d = json.load(open(path))
        res = run_case(check, d['seed'], d['tier'], d['index'], base)
        print(json.dumps(dict(status=res['status'], detail=res['detail']), indent=1))
        if res['status'] == 'violation':
            print('VIOLATION property=%s replay=%s' % (check.ID, path))
            return 1
        return 0 if res['status'] == 'ok' else 2
    finally:
        shutil.rmtree(base, ignore_errors=True)
