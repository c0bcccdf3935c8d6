"""Runner: generated-input search with Hypothesis, shards, replay files, evidence, known findings."""
import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_SHRINK_S = 60
AFTER_HIT_S = 150        # a worker that found something starts no further sub-check after this time
CASE_LIMIT_S = 120      # cases take milliseconds: one that takes this long does not end


class Violation(Exception):
    """The code under test breaks the property on the current case."""


class Reject(Exception):
    """The generated case is outside the domain of the property (counted, never a verdict)."""


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Guard:
    """Everything that may raise *inside the code under test* runs inside `with target('...'):`"""

    def __init__(self, what):
        self.what = what

    def __enter__(self):
        return self

    def __exit__(self, etype, exc, tb):
        if etype is None or issubclass(etype, (Violation, Reject, KeyboardInterrupt, SystemExit, MemoryError)):
            return False
        frames = traceback.extract_tb(tb)
        where = frames[-1] if frames else None
        raise Violation('%s raised %s: %s%s' % (
            self.what, etype.__name__, str(exc)[:300],
            ' (at %s:%s)' % (os.path.basename(where.filename), where.lineno) if where else '')) from exc


def target(what):
    return Guard(what)


class Sub:
    """One executable check: `strategy()` yields JSON-able cases, `run(case)` returns (nontrivial, labels)."""

    def __init__(self, name, strategy, run, quick, thorough=None, isolate=False):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.isolate = isolate


class Prop:
    def __init__(self, pid, rule, subs, assumptions=(), checked=False, shards=6):
        self.pid = pid
        if any(s.name == 'units' for s in subs):
            rule += '; in other units, a result that is not zero everywhere'
        self.rule = rule
        self.subs = subs
        self.assumptions = list(assumptions)
        self.checked = checked      # needs the bounds-checked kernels
        self.shards = shards

    def sub(self, name):
        for s in self.subs:
            if s.name == name:
                return s
        raise KeyError(name)


def load(pid):
    return importlib.import_module('pbt.props.' + pid.lower()).PROP


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


def brief(case, width=60):
    """A case with long strings shortened, for evidence samples."""
    if isinstance(case, dict):
        return {k: brief(v, width) for k, v in case.items()}
    if isinstance(case, list):
        return [brief(v, width) for v in case[:40]] + (['... %d more' % (len(case) - 40)] if len(case) > 40 else [])
    if isinstance(case, str) and len(case) > width:
        return case[:width] + '...(%d chars)' % len(case)
    return case


def _isolated(run, case):
    """Run a case in a forked child: a crash of the compiled code becomes a Violation."""
    rfd, wfd = os.pipe()
    efd, epath = tempfile.mkstemp(prefix='pbt-err-')
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(rfd)
            os.dup2(efd, 2)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(CASE_LIMIT_S)
            try:
                res = ['ok', run(case)]
            except Violation as exc:
                res = ['violation', str(exc)]
            except Reject as exc:
                res = ['reject', str(exc)]
            except BaseException:
                res = ['error', traceback.format_exc()]
            os.write(wfd, json.dumps(res).encode())
            os.close(wfd)
            code = 0
        finally:
            os._exit(code)
    os.close(wfd)
    data = b''
    while True:
        chunk = os.read(rfd, 65536)
        if not chunk:
            break
        data += chunk
    os.close(rfd)
    _, status = os.waitpid(pid, 0)
    os.lseek(efd, 0, 0)
    err = os.read(efd, 4000).decode(errors='replace')
    os.close(efd)
    os.unlink(epath)
    if not data:
        if os.WIFSIGNALED(status):
            sig = os.WTERMSIG(status)
            if sig == signal.SIGKILL:
                raise RuntimeError('isolated case ended by signal %d (resources)' % sig)
            if sig == signal.SIGALRM:
                raise Violation('the calculation did not end within %d s' % CASE_LIMIT_S)
            raise Violation('the process crashed with signal %d: %s' % (sig, err[-600:]))
        raise Violation('the process exited with status %s: %s' % (os.WEXITSTATUS(status), err[-600:]))
    kind, payload = json.loads(data.decode())
    if kind == 'ok':
        return payload
    if kind == 'violation':
        raise Violation(payload)
    if kind == 'reject':
        raise Reject(payload)
    raise RuntimeError('error inside isolated case:\n' + payload)


_limit = [CASE_LIMIT_S]


def _too_long(signum, frame):
    limit, _limit[0] = _limit[0], 20     # (shrinking a case that hangs must not take forever)
    raise Violation('the calculation did not end within %d s' % limit)


# raised by an oracle that is given a result which is not of the documented form (on a sound tree no case raises these)
MALFORMED = (LookupError, ValueError, TypeError, ArithmeticError, AttributeError, AssertionError, FileNotFoundError)


def _judged(run, case):
    try:
        return run(case)
    except MALFORMED as exc:
        where = traceback.extract_tb(exc.__traceback__)[-1]
        raise Violation('the result is not of the documented form: %s: %s (at %s:%d)' % (type(exc).__name__, exc, os.path.basename(where.filename), where.lineno))


def execute(sub, case):
    if sub.isolate:
        res = _isolated(lambda c: _judged(sub.run, c), case)
    else:
        signal.signal(signal.SIGALRM, _too_long)
        signal.alarm(_limit[0])
        try:
            res = _judged(sub.run, case)
        finally:
            signal.alarm(0)
    nontrivial, labels = res
    return bool(nontrivial), list(labels)


# --------------------------------------------------------------------------- worker

class Stats:
    def __init__(self):
        self.evaluations = 0
        self.rejected = 0
        self.reasons = {}
        self.seen = set()
        self.labels = {}
        self.samples = []

    def add(self, sub, case, nontrivial, labels):
        self.evaluations += 1
        for lab in labels:
            key = sub.name + ':' + lab
            self.labels[key] = self.labels.get(key, 0) + 1
        if nontrivial:
            key = hashlib.md5((sub.name + canon(case)).encode()).hexdigest()[:16]
            if key not in self.seen:
                self.seen.add(key)
                if len([s for s in self.samples if s['check'] == sub.name]) < 1:
                    self.samples.append({'check': sub.name, 'case': brief(case)})


def run_sub(sub, n, seed, stats, current_path=None):
    """Search for a counterexample; returns None or (case, message)."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine
    engine.MAX_SHRINKING_SECONDS = MAX_SHRINK_S
    found = []

    @hypothesis.seed(seed)
    @settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
              suppress_health_check=list(HealthCheck), print_blob=False,
              phases=[Phase.generate, Phase.shrink], verbosity=hypothesis.Verbosity.quiet)
    @given(sub.strategy())
    def trial(case):
        if current_path:
            with open(current_path, 'w') as fh:
                fh.write(json.dumps({'check': sub.name, 'case': case}))
        try:
            nontrivial, labels = execute(sub, case)
        except Violation as exc:
            found.append((case, str(exc)))
            raise
        except Reject as exc:
            stats.rejected += 1
            why = sub.name + ':' + str(exc)[:60]
            if why in stats.reasons or len(stats.reasons) < 60:
                stats.reasons[why] = stats.reasons.get(why, 0) + 1
            return
        stats.add(sub, case, nontrivial, labels)

    try:
        trial()
    except Violation:
        pass
    except BaseException as exc:
        # (hypothesis raises Flaky when a failure does not reproduce: what was seen still counts)
        if not found:
            raise
        if isinstance(exc, (KeyboardInterrupt, SystemExit, MemoryError)):
            raise
    if found:
        return found[-1]
    return None


def worker_main(argv):
    pid, tier, seed, shard, nshards, out = argv[0], argv[1], int(argv[2]), int(argv[3]), int(argv[4]), argv[5]
    from . import env
    result = {'violations': [], 'error': None}
    stats = Stats()
    try:
        env.add_hypothesis()
        prop_mod = load(pid)
        env.setup(checked=prop_mod.checked)
        first_hit = None
        for k, sub in enumerate(prop_mod.subs):
            if first_hit and tier == 'quick' and time.time() - first_hit > AFTER_HIT_S:
                break
            total = sub.quick if tier == 'quick' else sub.thorough
            n = total // nshards + (1 if shard < total % nshards else 0)
            if n <= 0:
                continue
            hit = run_sub(sub, n, seed * 100003 + shard * 1009 + k, stats, out + '.case')
            if hit:
                first_hit = first_hit or time.time()
                result['violations'].append({'check': sub.name, 'case': hit[0], 'message': hit[1]})
    except Exception:
        result['error'] = traceback.format_exc()
    result.update(evaluations=stats.evaluations, rejected=stats.rejected, reasons=stats.reasons, seen=sorted(stats.seen),
                  labels=stats.labels, samples=stats.samples)
    with open(out, 'w') as fh:
        json.dump(result, fh)
    return 0


# --------------------------------------------------------------------------- parent

def child_env():
    env = dict(os.environ)
    env.update(PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8', MPLBACKEND='Agg', TZ='UTC')
    env.pop('PYTHONPATH', None)
    return env


def load_known(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.isfile(path):
        return []
    with open(path) as fh:
        data = json.load(fh)
    return [e for e in data.get('known', []) if e['property'] == pid]


def replay_main(path):
    """Re-run one saved case without the library; exit 1 if it still fails."""
    from . import env
    with open(path) as fh:
        data = json.load(fh)
    env.add_hypothesis()
    prop = load(data['property'])
    env.setup(checked=prop.checked)
    sub = prop.sub(data['check'])
    try:
        execute(sub, data['case'])
    except Violation as exc:
        print('VIOLATION property=%s replay=%s' % (data['property'], path))
        print('  ' + str(exc))
        return 1
    print('replay passes: %s' % path)
    return 0


def _replay_status(path):
    code = subprocess.run([sys.executable, os.path.join(VERIF, 'run_check.py'), '--replay', path],
                          env=child_env(), cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return code.returncode, code.stdout.decode(errors='replace')


def save_replay(pid, hit):
    folder = os.path.join(VERIF, 'replays')
    os.makedirs(folder, exist_ok=True)
    name = '%s-%s-%s.json' % (pid, hit['check'], hashlib.md5(canon(hit['case']).encode()).hexdigest()[:8])
    path = os.path.join(folder, name)
    with open(path, 'w') as fh:
        json.dump({'property': pid, 'check': hit['check'], 'message': hit['message'], 'case': hit['case']}, fh, indent=1)
    return path


def main(pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    from . import env
    env.add_hypothesis()
    prop = load(pid)
    try:
        env.prepare(prop.checked)
    except env.EnvError as exc:
        print('ERROR: %s' % exc, file=sys.stderr)
        return 2

    work = tempfile.mkdtemp(prefix='pbt-%s-' % pid)
    errors, hits, labels, samples, seen, reasons = [], [], {}, [], set(), {}
    evaluations = rejected = 0
    try:
        procs = []
        for shard in range(prop.shards):
            out = os.path.join(work, 'shard%d.json' % shard)
            log = open(out + '.log', 'wb')
            procs.append((shard, out, log, subprocess.Popen(
                [sys.executable, os.path.join(VERIF, 'run_check.py'), '--worker', pid, tier, str(seed),
                 str(shard), str(prop.shards), out],
                env=dict(child_env(), TMPDIR=work), cwd=VERIF, stdout=log, stderr=subprocess.STDOUT)))
        for shard, out, log, proc in procs:
            hang = False
            while True:
                try:
                    code = proc.wait(timeout=5)
                    break
                except subprocess.TimeoutExpired:
                    # a case stuck in compiled code, where the alarm of the worker is not delivered
                    try:
                        hang = time.time() - os.path.getmtime(out + '.case') > CASE_LIMIT_S + 60
                    except OSError:
                        hang = False
                    if hang:
                        proc.kill()
            log.close()
            if hang and not os.path.isfile(out):
                with open(out + '.case') as fh:
                    hits.append(dict(json.load(fh), message='the calculation did not end within %d s' % (CASE_LIMIT_S + 60)))
                continue
            if os.path.isfile(out):
                with open(out) as fh:
                    res = json.load(fh)
                evaluations += res['evaluations']
                rejected += res['rejected']
                seen.update(res['seen'])
                for key, val in res['labels'].items():
                    labels[key] = labels.get(key, 0) + val
                for key, val in res['reasons'].items():
                    reasons[key] = reasons.get(key, 0) + val
                for s in res['samples']:
                    if len([x for x in samples if x['check'] == s['check']]) < 2:
                        samples.append(s)
                hits += res['violations']
                if res['error']:
                    errors.append(res['error'])
            else:
                with open(out + '.log', errors='replace') as fh:
                    tail = fh.read()[-2000:]
                crash = None
                if os.path.isfile(out + '.case') and code != 0:
                    with open(out + '.case') as fh:
                        try:
                            crash = json.load(fh)
                        except ValueError:
                            crash = None
                if crash and code != -signal.SIGKILL:
                    crash['message'] = 'the process died (status %s): %s' % (code, tail[-500:])
                    path = save_replay(pid, crash)
                    status, _ = _replay_status(path)
                    if status not in (0, 2):
                        hits.append(crash)
                        continue
                errors.append('shard %d died with status %s\n%s' % (shard, code, tail))
    finally:
        import shutil
        shutil.rmtree(work, ignore_errors=True)

    # Known findings: re-run each listed case on the real code
    for entry in load_known(pid):
        folder = tempfile.mkdtemp(prefix='pbt-known-')
        path = os.path.join(folder, 'case.json')
        with open(path, 'w') as fh:
            json.dump({'property': pid, 'check': entry['check'], 'case': entry['case']}, fh)
        status, text = _replay_status(path)
        os.unlink(path)
        os.rmdir(folder)
        evaluations += 1
        if status == 1:
            print('KNOWN-FINDING: property=%s %s' % (pid, entry['what']))
        elif status == 0:
            print('note: known finding no longer fails: %s' % entry['what'])
        else:
            errors.append('known finding %s: %s' % (entry['what'], text[-1500:]))

    # Report
    reported = []
    for hit in sorted(hits, key=lambda h: (h['check'], len(canon(h['case'])))):
        if hit['check'] in reported:
            continue
        reported.append(hit['check'])
        path = save_replay(pid, hit)
        print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(path, VERIF)))
        print('  %s: %s' % (hit['check'], hit['message'][:1500]))

    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations, 'distinct_nontrivial': len(seen), 'rule': prop.rule,
            'samples': samples, 'rejected': rejected, 'rejected_why': dict(sorted(reasons.items())), 'classes': dict(sorted(labels.items())),
            'shards': prop.shards,
        },
        'assumptions': prop.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(reported)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % pid)
    with open(tmp, 'w') as fh:
        json.dump(evidence, fh, indent=1)
    os.replace(tmp, os.path.join(VERIF, 'evidence', pid + '.json'))
    print('%s %s: %d cases, %d distinct non-trivial, %d violations, %.1f s'
          % (pid, tier, evaluations, len(seen), len(reported), time.time() - t0))
    if reported:
        return 1
    if errors:
        for err in errors[:3]:
            print('ERROR: ' + err, file=sys.stderr)
        return 2
    if not seen:
        print('ERROR: no non-trivial case was generated', file=sys.stderr)
        return 2
    return 0
