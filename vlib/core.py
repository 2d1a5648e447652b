"""
Common machinery: a check module lists `SUBS`, each a generator of plain
(JSON-able) cases together with a function that decides one case.  The
runner drives Hypothesis over the generators (seeded from VERIF_SEED,
no database, no deadline), in parallel shards, shrinks failures, writes
a replay file and the evidence file.
"""
import argparse
import collections
import concurrent.futures
import hashlib
import importlib
import json
import logging
import multiprocessing
import os
import pathlib
import resource
import signal
import sys
import tempfile
import time
import traceback
import warnings

os.environ.setdefault(
    'HYPOTHESIS_STORAGE_DIRECTORY', os.path.join(tempfile.gettempdir(), 'siotls-verif-hyp'))

import hypothesis
from hypothesis import HealthCheck, Phase, settings

from vlib.tls import RefError

LEVEL = 'exploration'
CASE_TIMEOUT = 90       # seconds for one case: milliseconds are normal
SHRINK_BUDGET = 40      # seconds spent shrinking after the first failure
TIER_BUDGET = {'quick': 400, 'thorough': 3300}


class Violation(Exception):
    """ The property is broken by the case at hand. """
    def __init__(self, message, finding=None):
        super().__init__(message)
        self.finding = finding


class _Abort(BaseException):
    pass


class _Timeout(BaseException):
    pass


def check(condition, message, *args, finding=None):
    if not condition:
        raise Violation(message % args if args else message, finding=finding)


# ---------------------------------------------------------------- encoding

def encode(value):
    if isinstance(value, (bytes, bytearray)):
        return {'$b': bytes(value).hex()}
    if isinstance(value, dict):
        return {'$d': [[encode(k), encode(v)] for k, v in value.items()]}
    if isinstance(value, (list, tuple)):
        return [encode(v) for v in value]
    if value is None or isinstance(value, (bool, int, float, str)):
        return int(value) if isinstance(value, int) and not isinstance(value, bool) else value
    raise TypeError(f'case value not encodable: {value!r}')


def decode(value):
    if isinstance(value, dict):
        if '$b' in value:
            return bytes.fromhex(value['$b'])
        return {(tuple(k) if isinstance(k := decode(k_), list) else k): decode(v)
                for k_, v in value['$d']}
    if isinstance(value, list):
        return [decode(v) for v in value]
    return value


def shorten(value, limit=96):
    """ an encoded case made readable for the evidence file """
    if isinstance(value, dict):
        if '$b' in value:
            h = value['$b']
            return f"0x{h}" if len(h) <= limit else f"0x{h[:limit]}..({len(h) // 2} bytes)"
        return {str(k if not isinstance(k, dict) else k.get('$b', k)): shorten(v) for k, v in value['$d']}
    if isinstance(value, list):
        return [shorten(v) for v in value[:40]] + ([f'..({len(value)} items)'] if len(value) > 40 else [])
    if isinstance(value, str) and len(value) > 4 * limit:
        return value[:4 * limit] + '..'
    return value


# ---------------------------------------------------------------- model

class Info:
    """ what one case turned out to be """
    def __init__(self, nontrivial=True, labels=(), key=None, units=1):
        self.nontrivial = nontrivial
        self.labels = labels
        self.key = key
        self.units = units


class Sub:
    def __init__(self, name, gen, run, quick, thorough=None, shards=2, timeout=CASE_TIMEOUT,
                 pre=None, shrink=True, confirm=0):
        self.name = name
        self.gen = gen              # () -> strategy
        self.run = run              # case -> Info
        self.quick = quick          # number of examples
        self.thorough = thorough or quick * 20
        self.shards = shards
        self.timeout = timeout
        self.pre = pre              # explicit cases: () -> list
        self.shrink = shrink
        # cases that run against the clock (sockets, processes, threads): a failure
        # counts when it shows again this many times in a row, so that a machine
        # too busy to keep the timeouts of the programs raises no alarm
        self.confirm = confirm


class Result:
    def __init__(self):
        self.evaluations = 0
        self.units = 0
        self.distinct = set()
        self.labels = collections.Counter()
        self.samples = []
        self.failure = None         # (encoded case, message)
        self.error = None
        self.truncated = False
        self.known = collections.Counter()


def through_siotls(exc):
    """ did the exception pass through the code under test? """
    tb = exc.__traceback__
    while tb:
        filename = tb.tb_frame.f_code.co_filename.replace(os.sep, '/')
        if '/src/siotls/' in filename:
            return True
        tb = tb.tb_next
    return False


def run_case(sub, case, known):
    """ -> (Info | None, message | None, finding | None) """
    def on_alarm(signum, frame):
        raise _Timeout

    previous = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, sub.timeout)
    try:
        info = sub.run(case)
        return info or Info(), None, None
    except Violation as exc:
        if exc.finding and exc.finding in known:
            return Info(nontrivial=False, labels=[f'known:{exc.finding}']), None, exc.finding
        return None, str(exc), None
    except RefError as exc:
        return None, f'what the library emitted is refused by the reference: {exc}', None
    except _Timeout:
        return None, f'case did not terminate within {sub.timeout} seconds', None
    except SystemExit as exc:
        if not through_siotls(exc):
            raise
        return None, f'the library ends the program: {exc!r}', None
    except Exception as exc:
        if through_siotls(exc):
            text = ''.join(traceback.format_exception(exc)[-4:])
            return None, f'unexpected {type(exc).__name__} from the library: {exc}\n{text}', None
        if isinstance(exc, (MemoryError, OSError)):
            raise
        # no case does that on a tree where the property holds: what the library
        # gave back is so unlike what is prescribed that the oracle cannot follow
        text = ''.join(traceback.format_exception(exc)[-4:])
        return None, f'the oracle cannot follow, {type(exc).__name__}: {exc}\n{text}', None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, previous)


def decide(sub, case, known):
    for attempt in range(sub.confirm + 1):
        last = attempt == sub.confirm
        try:
            verdict = run_case(sub, case, known)
        except (TimeoutError, ConnectionError) as exc:
            if last:
                return None, f'no answer, or the connection broke: {exc!r}', None
        except OSError:
            if last:
                raise
        else:
            if verdict[1] is None or last or 'did not terminate' in verdict[1]:
                return verdict
        time.sleep(0.5 * (attempt + 1))


_stop = None


def _init_worker(stop):
    global _stop
    _stop = stop
    logging.getLogger('siotls').setLevel(logging.CRITICAL)
    warnings.simplefilter('ignore')
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass


def _run_shard(module_name, sub_name, shard, shards, count, seed, deadline, known):
    module = importlib.import_module(module_name)
    sub = next(s for s in module.SUBS if s.name == sub_name)
    res = Result()
    first_failure_at = None

    def body(raw):
        nonlocal first_failure_at
        now = time.monotonic()
        if first_failure_at is None:
            if _stop is not None and _stop.is_set():
                raise _Abort
            if now > deadline:
                res.truncated = True
                raise _Abort
        elif now - first_failure_at > SHRINK_BUDGET:
            raise _Abort
        encoded = encode(raw)
        case = decode(encoded)
        if first_failure_at is None:
            res.evaluations += 1
        try:
            info, message, finding = decide(sub, case, known)
        except Exception as exc:
            res.error = ''.join(traceback.format_exception(exc))
            raise _Abort from exc
        if message is not None:
            if first_failure_at is None:
                first_failure_at = now
                if _stop is not None:
                    _stop.set()
            res.failure = (encoded, message)
            if 'did not terminate' in message or not sub.shrink:
                raise _Abort
            raise Violation(message)
        if first_failure_at is None:
            if finding:
                res.known[finding] += 1
            res.units += info.units
            for label in info.labels:
                res.labels[label] += 1
            if info.nontrivial:
                key = info.key if info.key is not None else json.dumps(encoded, sort_keys=True)
                if not isinstance(key, str):
                    key = repr(key)
                digest = hashlib.blake2b(f'{sub_name}:{key}'.encode(), digest_size=8).digest()
                if digest not in res.distinct:
                    res.distinct.add(digest)
                    n = len(res.distinct)
                    if n in (1, 7, 60):
                        res.samples.append({'sub': sub_name, 'case': shorten(encoded),
                                            'labels': list(info.labels)})

    try:
        try:
            if shard == 0 and sub.pre:
                for raw in sub.pre():
                    body(raw)
            if count:
                shard_seed = int.from_bytes(hashlib.sha256(
                    f'{seed}:{sub_name}:{shard}'.encode()).digest()[:8], 'big')
                test = hypothesis.given(sub.gen())(body)
                test = settings(
                    max_examples=max(1, count), database=None, deadline=None,
                    phases=[Phase.generate, Phase.shrink] if sub.shrink else [Phase.generate],
                    report_multiple_bugs=False, print_blob=False,
                    suppress_health_check=[
                        HealthCheck.too_slow, HealthCheck.data_too_large,
                        HealthCheck.large_base_example],
                )(test)
                test = hypothesis.seed(shard_seed)(test)
                test()
        except _Abort:
            pass
        except Violation:
            pass
        except hypothesis.errors.Flaky:
            if res.failure is None:
                raise
    except BaseException as exc:  # noqa: BLE001
        if res.failure is None:
            res.error = ''.join(traceback.format_exception(exc))
    return sub_name, res


# ---------------------------------------------------------------- findings

def load_findings(root, prop):
    """ -> {finding id: text} for the findings recorded against prop """
    found = {}
    path = pathlib.Path(root, 'known_findings.txt')
    if path.exists():
        for line in path.read_text().splitlines():
            if line.startswith('finding: '):
                fields = line[len('finding: '):].split(' ', 2)
                if fields[0] == f'property={prop}':
                    found[fields[1].removeprefix('id=')] = fields[2]
    return found


# ---------------------------------------------------------------- main

def main(argv, root):
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    parser.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    parser.add_argument('--replay')
    parser.add_argument('--sub')
    parser.add_argument('--scale', type=float, default=1.0)
    parser.add_argument('-v', action='store_true')
    opts = parser.parse_args(argv)
    prop = opts.property
    tier = 'thorough' if opts.tier == 'thorough' else 'quick'
    try:
        return _main(opts, prop, tier, pathlib.Path(root))
    except Exception:
        traceback.print_exc()
        print(f'ERROR property={prop}: the harness failed, no verdict')
        return 2


def _main(opts, prop, tier, root):
    start = time.monotonic()
    module_name = f'checks.{prop.lower()}'
    module = importlib.import_module(module_name)
    import siotls
    if not siotls.__file__.startswith(os.path.join(os.environ.get('SIOTLS_REPO', '/repo'), 'src')):
        raise RuntimeError(f'siotls imported from {siotls.__file__}')
    findings = load_findings(root, prop)
    known = frozenset(findings)

    if opts.replay:
        _init_worker(None)
        doc = json.loads(pathlib.Path(opts.replay).read_text())
        sub = next(s for s in module.SUBS if s.name == doc['sub'])
        case = decode(doc['case'])
        for _ in range(doc.get('attempts', 20)):
            _, message, finding = run_case(sub, case, known)
            if message:
                print(message)
                print(f'VIOLATION property={prop} replay={opts.replay}')
                return 1
            if finding:
                print(f'KNOWN-FINDING: property={prop} {findings[finding]}')
        print('replay: property held on this case')
        return 0

    for fid, text in findings.items():
        probe = getattr(module, 'PROBES', {}).get(fid)
        if probe is None:
            raise RuntimeError(f'no probe for finding {fid}')
        try:
            still = probe()
        except Exception:
            still = False       # broken otherwise, which the cases will tell
        if still:
            print(f'KNOWN-FINDING: property={prop} {text}')

    subs = [s for s in module.SUBS if not opts.sub or s.name in opts.sub.split(',')]
    deadline = start + TIER_BUDGET[tier]
    ctx = multiprocessing.get_context('fork')
    stop = ctx.Event()
    tasks = []
    for sub in subs:
        total = int((sub.quick if tier == 'quick' else sub.thorough) * opts.scale)
        shards = sub.shards if tier == 'quick' else max(sub.shards, 4)
        shards = max(1, min(shards, total))
        for shard in range(shards):
            tasks.append((module_name, sub.name, shard, shards, -(-total // shards),
                          opts.seed, deadline, known))
    results = {s.name: Result() for s in subs}
    spent = collections.Counter()
    with concurrent.futures.ProcessPoolExecutor(
        max_workers=min(os.cpu_count() or 4, 8), mp_context=ctx,
        initializer=_init_worker, initargs=(stop,),
    ) as pool:
        for future in concurrent.futures.as_completed(
                [pool.submit(_run_shard, *task) for task in tasks]):
            name, part = future.result()
            total = results[name]
            total.evaluations += part.evaluations
            total.units += part.units
            total.distinct |= part.distinct
            total.labels += part.labels
            total.known += part.known
            total.samples += part.samples
            total.truncated |= part.truncated
            spent[name] += 1
            if part.failure and (
                total.failure is None
                or len(json.dumps(part.failure[0])) < len(json.dumps(total.failure[0]))
            ):
                total.failure = part.failure
            if part.error and not total.error:
                total.error = part.error

    failures = [(name, r.failure) for name, r in results.items() if r.failure]
    errors = [(name, r.error) for name, r in results.items() if r.error]
    samples = []
    for r in results.values():
        samples += r.samples[:2]
    evidence = {
        'property': prop, 'tier': tier, 'seed': opts.seed, 'level': LEVEL,
        'coverage': {
            'evaluations': sum(r.evaluations for r in results.values()),
            'distinct_nontrivial': sum(len(r.distinct) for r in results.values()),
            'rule': module.RULE,
            'samples': samples[:14],
            'per_sub': {
                name: {
                    'evaluations': r.evaluations,
                    'distinct_nontrivial': len(r.distinct),
                    'steps': r.units,
                    'labels': dict(sorted(r.labels.items())),
                    'excluded_known': dict(r.known),
                    'stopped_by_budget': r.truncated,
                } for name, r in results.items()
            },
        },
        'assumptions': getattr(module, 'ASSUMPTIONS', []),
        'wall_s': round(time.monotonic() - start, 3),
        'violations': len(failures),
    }
    evidence_dir = root / 'evidence'
    evidence_dir.mkdir(exist_ok=True)
    (evidence_dir / f'{prop}.json').write_text(json.dumps(evidence, indent=1) + '\n')

    if failures:
        replays = root / 'replays'
        replays.mkdir(exist_ok=True)
        for name, (encoded, message) in failures:
            doc = {'property': prop, 'sub': name, 'case': encoded, 'message': message,
                   'seed': opts.seed, 'tier': tier}
            blob = json.dumps(doc, indent=1)
            path = replays / f'{prop}-{name}-{hashlib.sha256(blob.encode()).hexdigest()[:10]}.json'
            path.write_text(blob + '\n')
            print(f'{name}: {message}')
            print('case:', json.dumps(shorten(encoded))[:3000])
            print(f'VIOLATION property={prop} replay={path}')
        return 1
    if errors:
        for name, error in errors:
            print(f'{name}: harness error\n{error}', file=sys.stderr)
        print(f'ERROR property={prop}: the harness failed, no verdict')
        return 2
    cov = evidence['coverage']
    print(f"OK property={prop} tier={tier} seed={opts.seed} evaluations={cov['evaluations']} "
          f"distinct_nontrivial={cov['distinct_nontrivial']} wall={evidence['wall_s']}s")
    if opts.v:
        print(json.dumps(cov['per_sub'], indent=1))
    return 0
