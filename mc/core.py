"""Runner shared by every check.

A check enumerates a bounded space of *cases* completely and decides each one
by executing the real code in /repo and comparing with an oracle.  A case is a
plain python literal (so that it can be written to a replay file and decided
again by ``python -m mc.replay``).
"""
import ast
import json
import os
import pickle
import re
import resource
import signal
import sys
import time
import traceback
import zlib
from contextlib import contextmanager

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
OUT = os.environ.get('MC_OUT', VERIF)   # where evidence/ is written
FINDINGS = os.path.join(VERIF, 'known_findings.txt')

CASE_TIMEOUT = float(os.environ.get('MC_CASE_TIMEOUT', '60'))
MAX_VIOLATIONS = 5
MEMORY = 3500 * 1024 * 1024   # address space of one worker


class Violation(Exception):
    """Raised by a case when the property does not hold for it."""

    def __init__(self, message, key=None):
        super().__init__(message)
        self.message = message
        self.key = key


class CaseTimeout(BaseException):
    pass


def require(cond, message, key=None):
    if not cond:
        raise Violation(message() if callable(message) else message, key)


class Stats:
    """What was covered.  All counts are measured."""

    def __init__(self):
        self.transitions = 0     # calls/steps executed on the real code
        self.traces = 0          # complete traces compared with the oracle
        self.states = set()      # hashes of distinct states
        self.unique = 0          # states that are distinct by construction
        self.outcomes = set()    # hashes of distinct observed outcomes
        self.extra = {}

    def step(self, n=1):
        self.transitions += n

    def state(self, obj):
        self.states.add(hash(obj if isinstance(obj, (str, int, tuple)) else repr(obj)))

    def distinct(self, n=1):
        self.unique += n

    def outcome(self, obj):
        if len(self.outcomes) < 200000:
            self.outcomes.add(hash(obj if isinstance(obj, str) else repr(obj)))

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def merge(self, other):
        self.transitions += other.transitions
        self.traces += other.traces
        self.states |= other.states
        self.unique += other.unique
        self.outcomes |= other.outcomes
        for k, v in other.extra.items():
            self.extra[k] = self.extra.get(k, 0) + v


def _alarm(signum, frame):
    raise CaseTimeout()


@contextmanager
def time_limit(seconds):
    """Limits the processor time of a block, and more generously its duration."""
    old = {n: signal.signal(n, _alarm) for n in (signal.SIGALRM, signal.SIGPROF)}
    signal.setitimer(signal.ITIMER_PROF, seconds)
    signal.setitimer(signal.ITIMER_REAL, 3 * seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        for n, handler in old.items():
            signal.signal(n, handler)


def short_tb(err):
    frames = traceback.extract_tb(err.__traceback__)[-4:]
    return ' <- '.join(
        f'{os.path.basename(f.filename)}:{f.name}' for f in reversed(frames)
    )


def decide(prop, case, stats, timeout=None):
    """Decide one case.  Returns None or (message, key)."""
    timeout = timeout or CASE_TIMEOUT
    try:
        with time_limit(timeout):
            prop.case(case, stats)
        return None
    except Violation as err:
        return err.message, err.key
    except CaseTimeout:
        return f'did not terminate within {timeout:g} s', None
    except RecursionError as err:
        return f'unbounded recursion: {short_tb(err)}', None
    except Exception as err:  # the code under test must not raise these
        return (
            f'unexpected {type(err).__name__}: {err} ({short_tb(err)})',
            None,
        )


class Result:

    def __init__(self):
        self.stats = Stats()
        self.violations = []   # (case repr, message, key)
        self.samples = []
        self.cases = 0
        self.complete = True
        self.slowest = (0.0, '')   # seconds, case


def _worker(prop, cases, index, total, deadline):
    res = Result()
    for i, case in enumerate(cases):
        if zlib.crc32(b'%d' % i) % total != index:
            continue
        if time.monotonic() > deadline:
            res.complete = False
            break
        res.cases += 1
        began = time.monotonic()
        bad = decide(prop, case, res.stats)
        took = time.monotonic() - began
        if took > res.slowest[0]:
            res.slowest = (took, repr(case)[:200])
        if bad is not None:
            res.violations.append((repr(case), bad[0], bad[1]))
            if took >= CASE_TIMEOUT or len([v for v in res.violations if v[2] is None]) >= MAX_VIOLATIONS:
                res.complete = False
                break
        elif len(res.samples) < 3 and (res.cases in (1, 17, 257) or index == 0):
            res.samples.append(repr(case)[:400])
    return res


def run_parallel(prop, make_cases, workers, deadline):
    """Every worker enumerates the same sequence and decides its residue class."""
    total = Result()
    procs = []
    for index in range(workers):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
                    res = _worker(prop, make_cases(), index, workers, deadline)
                except BaseException as err:  # harness failure
                    res = ('harness-error', ''.join(
                        traceback.format_exception(type(err), err, err.__traceback__)))
                with os.fdopen(w, 'wb') as fp:
                    pickle.dump(res, fp)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(w)
        procs.append((pid, r))
    errors = []
    for pid, r in procs:
        with os.fdopen(r, 'rb') as fp:
            data = fp.read()
        _, status = os.waitpid(pid, 0)
        if not data:
            total.complete = False
            total.violations.append((
                repr(('worker', len(total.violations))),
                f'the interpreter ended while running the code (wait status {status})',
                None,
            ))
            continue
        res = pickle.loads(data)
        if isinstance(res, tuple):
            errors.append(res[1])
            continue
        total.stats.merge(res.stats)
        total.violations.extend(res.violations)
        total.samples.extend(res.samples)
        total.cases += res.cases
        total.slowest = max(total.slowest, res.slowest)
        total.complete = total.complete and res.complete
    if errors:
        raise RuntimeError('\n'.join(errors))
    return total


def load_findings(prop_id):
    """Known findings of a property: key -> description."""
    found = {}
    try:
        with open(FINDINGS) as fp:
            for line in fp:
                m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
                if m and m.group(1) == prop_id:
                    found[m.group(2)] = m.group(3)
    except FileNotFoundError:
        pass
    return found


class Property:
    """Base class of a check."""

    id = ''
    level = 'model_checking'
    assumptions = ()
    workers = 8
    bounds = ''

    def setup(self, tier):
        """Called once before the cases are enumerated."""

    def cases(self, tier):
        """Yield every case of the bounded space, simplest first."""
        raise NotImplementedError

    def case(self, case, stats):
        """Decide one case on the real code; raise Violation."""
        raise NotImplementedError


def main(prop, argv=None):
    global CASE_TIMEOUT
    argv = list(sys.argv[1:] if argv is None else argv)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    if '--quick' in argv:
        tier = 'quick'
    if tier != 'quick':
        CASE_TIMEOUT = max(CASE_TIMEOUT, 600)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    budget = float(os.environ.get(
        'MC_BUDGET', '780' if tier == 'quick' else '5400'))
    start = time.monotonic()
    try:
        prop.setup(tier)
        ready = None
    except Exception as err:
        ready = err
    workers = min(prop.workers, os.cpu_count() or 1) or 1
    if ready is None:
        result = run_parallel(
            prop, lambda: prop.cases(tier), workers, start + budget)
    else:
        result = Result()
        result.complete = False
        result.violations.append((
            repr(('setup',)),
            'the code under test failed while the check was set up: '
            f'{type(ready).__name__}: {ready} ({short_tb(ready)})',
            None,
        ))
    wall = time.monotonic() - start
    findings = load_findings(prop.id)
    seen = {}
    bad = []
    for case, message, key in result.violations:
        if key is not None and key in findings:
            seen.setdefault(key, (case, message))
        else:
            bad.append((case, message, key))
    bad.sort(key=lambda v: (len(v[0]), v[0]))
    evidence = {
        'property': prop.id,
        'tier': tier,
        'seed': seed,
        'level': prop.level,
        'coverage': {
            'states': len(result.stats.states) + result.stats.unique,
            'transitions': result.stats.transitions,
            'traces_validated_against_impl': result.stats.traces,
            'samples': result.samples[:6],
            'cases': result.cases,
            'distinct_outcomes': len(result.stats.outcomes),
            'bounds': prop.bounds,
            'exhaustive': bool(result.complete),
            'slowest_case': {'seconds': round(result.slowest[0], 2), 'case': result.slowest[1]},
            **result.stats.extra,
        },
        'assumptions': list(prop.assumptions),
        'wall_s': round(wall, 3),
        'violations': len(bad),
    }
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT, 'evidence', f'{prop.id}.json'), 'w') as fp:
        json.dump(evidence, fp, indent=1)
        fp.write('\n')
    print(
        f'{prop.id} {tier}: cases={result.cases} states={len(result.stats.states) + result.stats.unique} '
        f'transitions={result.stats.transitions} traces={result.stats.traces} '
        f'outcomes={len(result.stats.outcomes)} complete={result.complete} '
        f'wall={wall:.1f}s slowest={result.slowest[0]:.1f}s '
        + ' '.join(f'{k}={v}' for k, v in sorted(result.stats.extra.items()))
    )
    for key, (case, message) in sorted(seen.items()):
        print(f'KNOWN-FINDING: property={prop.id} {findings[key]}')
    if bad:
        replay_dir = os.path.join(OUT, 'evidence', 'replay')
        os.makedirs(replay_dir, exist_ok=True)
        for i, (case, message, key) in enumerate(bad[:MAX_VIOLATIONS]):
            path = os.path.join(replay_dir, f'{prop.id}-{i}.json')
            with open(path, 'w') as fp:
                json.dump(
                    {
                        'property': prop.id,
                        'tier': tier,
                        'case': case,
                        'message': message,
                        'key': key,
                        'replay_cmd': (
                            'cd /verif && ./check replay '
                            + os.path.relpath(path, OUT)
                        ),
                    },
                    fp,
                    indent=1,
                )
                fp.write('\n')
            print(f'  case: {case[:600]}')
            print(f'  what: {message[:1200]}' + (f' [key {key}]' if key else ''))
            print(f'VIOLATION property={prop.id} replay={os.path.relpath(path, OUT)}')
        return 1
    return 0


def replay(path):
    with open(path) as fp:
        record = json.load(fp)
    prop = get_property(record['property'])
    prop.setup(record.get('tier', 'quick'))
    stats = Stats()
    first = decide(prop, ast.literal_eval(record['case']), stats)
    second = decide(prop, ast.literal_eval(record['case']), stats)
    print(f'property {record["property"]}')
    print(f'case     {record["case"]}')
    print(f'recorded {record["message"]}')
    print(f'now      {first[0] if first else "holds"}')
    if (first is None) != (second is None):
        print('replay diverged: the case is not deterministic')
        return 2
    return 1 if first else 0


def broken(prop_id):
    """The code under test cannot be imported."""
    err = traceback.format_exc()
    os.makedirs(os.path.join(OUT, 'evidence', 'replay'), exist_ok=True)
    path = os.path.join(OUT, 'evidence', 'replay', f'{prop_id}-import.json')
    with open(path, 'w') as fp:
        json.dump({'property': prop_id, 'case': "('import',)", 'message': err}, fp)
    print(f'VIOLATION property={prop_id} replay={os.path.relpath(path, OUT)}')
    return 1


def get_property(prop_id):
    import importlib
    mod = importlib.import_module(f'mc.props.{prop_id.lower()}')
    return mod.PROPERTY
