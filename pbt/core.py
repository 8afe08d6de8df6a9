"""Runner: generated-input search (Hypothesis) over JSON-able cases, sharded over processes, with replay files.

Every check module in pbt/checks provides
  ID, RULE, QUICK, THOROUGH            -- id, non-triviality rule, case counts
  strategy(tier)                       -- a Hypothesis strategy of JSON-able dicts (the "case")
  check(case) -> Info                  -- a pure function of the case and of the code in /repo; raises Violation
A failing case is shrunk by Hypothesis and written as JSON; `run.py ID --replay FILE` re-runs check(case) alone.
"""
import argparse
import collections
import contextlib
import hashlib
import importlib
import io
import json
import os
import pickle
import re
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib

import numpy

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
CASE_LIMIT_S = 240
SHRINK_BUDGET_S = 30


UNUSABLE = (TypeError, ValueError, LookupError, AttributeError, ArithmeticError)


class Violation(Exception):
    """The property does not hold for the current case."""


class HarnessError(Exception):
    """The check itself is wrong (never reported as a violation)."""


class Stop(BaseException):
    """Ends the Hypothesis engine (shrink budget used up, or another shard has failed)."""


class Hang(BaseException):
    """A single case ran CASE_LIMIT_S seconds."""


class Info:
    """What a case exercised."""

    def __init__(self, nontrivial=True, labels=()):
        self.nontrivial = bool(nontrivial)
        self.labels = [str(x) for x in labels]
        self.known = []  # known findings seen in this case


def findings(pid):
    """The open findings listed for a property: {key: what fails}."""
    out = {}
    with open(os.path.join(VERIF, 'KNOWN_FINDINGS.md')) as f:
        for line in f:
            m = re.match(r'open: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out


_findings = {}


def known(pid, key):
    if pid not in _findings:
        _findings[pid] = findings(pid)
    return key in _findings[pid]


def canonical(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


def in_repo_frame(tb):
    pkg = os.path.join(REPO, 'kinisi') + os.sep
    for fr in traceback.extract_tb(tb):
        if os.path.realpath(fr.filename).startswith(pkg) and os.sep + 'tests' + os.sep not in fr.filename:
            return fr
    return None


def run_case(mod, case):
    """Run one case; returns Info or raises Violation / HarnessError."""

    def on_alarm(*_):
        raise Hang()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(CASE_LIMIT_S)
    sink = io.StringIO()
    numpy.random.seed(zlib.crc32(canonical(case).encode()))
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
            warnings.simplefilter('ignore')
            try:
                info = mod.check(case)
                return info if info is not None else Info()
            except (Violation, HarnessError):
                raise
            except Exception as exc:  # an exception out of kinisi on an input the property covers
                fr = in_repo_frame(exc.__traceback__)
                if fr is None:
                    if isinstance(exc, UNUSABLE):  # the oracle works on every result of the documented form
                        at = traceback.extract_tb(exc.__traceback__)[-1]
                        raise Violation(f'a result does not have the documented form: {type(exc).__name__}: {exc} '
                                        f'(while judging it at {os.path.basename(at.filename)}:{at.lineno})') from exc
                    raise HarnessError(''.join(traceback.format_exception(exc)))
                raise Violation(f'{type(exc).__name__} raised by the code under test at '
                                f'{os.path.relpath(fr.filename, REPO)}: {exc}') from exc
            except Hang as exc:
                fr = in_repo_frame(exc.__traceback__)
                if fr is None:
                    raise HarnessError('case too slow outside the code under test')
                raise Violation(f'no result after {CASE_LIMIT_S} s in {os.path.relpath(fr.filename, REPO)}')
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def write_replay(pid, cases, message):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(canonical(cases).encode()).hexdigest()[:12]
    path = os.path.join(d, f'{pid}-{h}.json')
    with open(path, 'w') as f:
        json.dump({'property': pid, 'message': message, 'cases': cases}, f, indent=1, sort_keys=True)
        f.write('\n')
    return path


class Shard:

    def __init__(self, mod, tier, seed, n_cases, flag, deadline):
        self.mod, self.tier, self.seed, self.n = mod, tier, seed, n_cases
        self.flag, self.deadline = flag, deadline
        self.evals = 0
        self.truncated = False
        self.hashes = set()
        self.labels = collections.Counter()
        self.samples = []
        self.best = None
        self.history = []
        self.fail_time = None
        self.harness = None

    def one(self, case):
        if self.fail_time is not None and time.time() - self.fail_time > SHRINK_BUDGET_S:
            raise Stop()
        if self.fail_time is None and self.flag.is_set():
            raise Stop()
        if time.time() > self.deadline:
            self.truncated = True
            raise Stop()
        self.evals += 1
        if self.fail_time is None:
            self.history.append(json.loads(canonical(case)))
        try:
            info = run_case(self.mod, case)
        except Violation as v:
            if self.fail_time is None:
                self.fail_time = time.time()
                self.flag.set()
            if self.best is None or len(canonical(case)) <= len(canonical(self.best[0])):
                self.best = (json.loads(canonical(case)), str(v))
            raise
        except HarnessError as e:
            self.harness = (case, str(e))
            self.flag.set()
            raise Stop()
        if self.fail_time is None:
            self.labels.update(info.labels)
            self.labels.update('known-finding:' + k for k in info.known)
            if info.nontrivial:
                self.hashes.add(hashlib.sha1(canonical(case).encode()).hexdigest()[:16])
                if len(self.samples) < 2 or (self.evals % 37 == 0 and len(self.samples) < 3):
                    self.samples.append(case)

    def run(self):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings

        @hypothesis.seed(self.seed)
        @settings(max_examples=self.n, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
                  print_blob=False, phases=(Phase.generate, Phase.shrink), suppress_health_check=list(HealthCheck),
                  verbosity=hypothesis.Verbosity.quiet)
        @given(self.mod.strategy(self.tier))
        def test(case):
            self.one(case)

        try:
            test()
        except Stop:
            pass
        except Violation:
            pass
        except hypothesis.errors.Flaky as e:
            if self.best is None:
                self.harness = (None, 'flaky: ' + ''.join(traceback.format_exception(e)))
        except BaseException as e:  # generator errors and the like
            if self.best is None and self.harness is None:
                self.harness = (None, ''.join(traceback.format_exception(e)))
        return dict(evals=self.evals, hashes=self.hashes, labels=self.labels, samples=self.samples, best=self.best,
                    harness=self.harness, truncated=self.truncated,
                    history=self.history if self.best is not None else [])


def run_sequence(mod, cases):
    """Run cases in order; the message of the violation in the last one, or None."""
    msg = None
    for case in cases:
        try:
            run_case(mod, case)
            msg = None
        except Violation as v:
            msg = str(v)
    return msg


def run_corpus(mod, corpus):
    r = dict(evals=0, hashes=set(), best=None, harness=None)
    for case in corpus:
        r['evals'] += 1
        try:
            if run_case(mod, case).nontrivial:
                r['hashes'].add(hashlib.sha1(canonical(case).encode()).hexdigest()[:16])
        except Violation as v:
            r['best'] = (case, str(v))
            break
        except HarnessError as e:
            r['harness'] = str(e)
            break
    return r


def in_child(fn):
    """fn() in a forked child, so that nothing it leaves behind in the process is seen by anything else."""
    r, w = os.pipe()
    sys.stdout.flush()
    p = os.fork()
    if p == 0:
        try:
            os.close(r)
            try:
                res = fn()
            except BaseException:
                res = None
            with os.fdopen(w, 'wb') as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(p, 0)
    return pickle.loads(data) if data else None


ENVIRONMENT = ('MemoryError', 'OSError', 'No space', 'Cannot allocate', 'BlockingIOError', 'Resource temporarily')


def confirm(mod, best, history):
    """A candidate counterexample counts only if it fails again in a fresh process: the case alone, or (when the
    failure depends on what ran before in the same process) with as short a run of preceding cases as reproduces it.

    :return: (message, cases) or None
    """
    keep = []
    msg = in_child(lambda: run_sequence(mod, [best[0]]))
    if msg is not None:
        return msg, [best[0]]
    for i in range(12):  # a failure that depends on memory layout, the clock or the like
        msg = in_child(lambda: (keep.extend(bytearray(997 * (i + 1)) for _ in range(200 * i)), run_sequence(mod, [best[0]]))[1])
        if msg is not None:
            return msg, [best[0]]
    k = 1
    while history and k < 2 * len(history):
        k = min(2 * k, max(len(history), 2))
        seq = history[-k:]
        msg = in_child(lambda: run_sequence(mod, seq))
        if msg is not None:
            for i in range(len(seq) - 1):  # a cheap minimisation: one predecessor is usually enough
                pair = [seq[i], seq[-1]]
                m2 = in_child(lambda: run_sequence(mod, pair))
                if m2 is not None:
                    return m2, pair
                if i > 40:
                    break
            return msg, seq
        if k >= len(history):
            break
    return None


def main(argv):
    if argv == ['--setup']:  # nothing to build: the code under test is imported from REPO; make sure everything loads
        import hypothesis
        import kinisi.analyze  # noqa: F401
        for name in sorted(os.listdir(os.path.join(VERIF, 'pbt', 'checks'))):
            if name.startswith('c') and name.endswith('.py'):
                importlib.import_module('pbt.checks.' + name[:-3])
        print('ready: hypothesis', hypothesis.__version__)
        return 0
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--shards', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args(argv)
    t0 = time.time()
    warnings.simplefilter('ignore')
    pid = a.property
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    scratch = tempfile.mkdtemp(prefix='kinisi-verif-')
    os.environ['VERIF_SCRATCH'] = scratch
    try:
        return _main(a, t0, pid, seed)
    finally:
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)


def _main(a, t0, pid, seed):
    try:
        import kinisi
        if os.path.realpath(os.path.dirname(kinisi.__file__)) != os.path.join(REPO, 'kinisi'):
            print(f'error: kinisi imported from {kinisi.__file__}')
            return 2
        mod = importlib.import_module(f'pbt.checks.{pid.lower()}')
    except Exception:
        traceback.print_exc()
        return 2
    if a.replay:
        with open(a.replay) as f:
            case = json.load(f)
        seq = case['cases'] if 'cases' in case else [case]
        msg = run_sequence(mod, seq)
        if msg is None:
            print('held')
            return 0
        print(msg)
        print(f'VIOLATION property={pid} replay={os.path.abspath(a.replay)}')
        return 1
    quick = a.tier == 'quick'
    total = max(a.shards, int((mod.QUICK if quick else mod.THOROUGH) * a.scale))
    deadline = t0 + (480 if quick else 6 * 3600)
    # 1. regression corpus: plain cases, no Hypothesis
    corpus = []
    cpath = os.path.join(VERIF, 'corpus', pid + '.json')
    if os.path.exists(cpath):
        with open(cpath) as f:
            corpus = json.load(f)
    best = None
    labels = collections.Counter()
    hashes = set()
    evals = 0
    samples = []
    if corpus:
        r = in_child(lambda: run_corpus(mod, corpus))
        if r is None or r['harness']:
            print('error in the regression corpus: ' + str(r and r['harness']))
            return 2
        evals, hashes, best = r['evals'], r['hashes'], r['best']
        labels['regression-corpus'] += evals
    harness = None
    history = []
    truncated = False
    # 2. generated search
    if best is None:
        import multiprocessing
        import hypothesis  # noqa: F401  (import before fork)
        flag = multiprocessing.get_context('fork').Event()
        procs = []
        for k in range(a.shards):
            n = total // a.shards + (1 if k < total % a.shards else 0)
            out = os.path.join(os.environ['VERIF_SCRATCH'], f'shard{k}.pkl')
            sys.stdout.flush()
            pid_k = os.fork()
            if pid_k == 0:
                code = 0
                try:
                    d = os.path.join(os.environ['VERIF_SCRATCH'], f's{k}')
                    os.makedirs(d)
                    os.environ['VERIF_SCRATCH'] = d
                    sh = Shard(mod, a.tier, seed * 1000003 + k * 7919 + 17, n, flag, deadline)
                    res = sh.run()
                    with open(out, 'wb') as f:
                        pickle.dump(res, f)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            procs.append((pid_k, out))
        for p, out in procs:
            _, st = os.waitpid(p, 0)
            if not os.path.exists(out):
                harness = harness or (None, f'shard ended with status {st}')
                continue
            with open(out, 'rb') as f:
                r = pickle.load(f)
            evals += r['evals']
            hashes |= r['hashes']
            labels.update(r['labels'])
            samples += r['samples']
            truncated |= r['truncated']
            if r['best'] is not None and (best is None or len(canonical(r['best'][0])) < len(canonical(best[0]))):
                best = r['best']
                history = r['history']
            if r['harness'] is not None:
                harness = harness or r['harness']
    # 3. verdict
    rc = 0
    if best is not None:
        conf = confirm(mod, best, history)
        if conf is None and not any(w in best[1] for w in ENVIRONMENT):
            # the oracle saw the code break the property, if only once: an unstable result is a violation too
            conf = best[1] + ' (not seen again when the case was repeated)', [best[0]]
        if conf is None:
            print('error: a failing case did not fail again: ' + best[1])
            print(canonical(best[0]))
            rc = 2
        else:
            msg, cases = conf
            path = write_replay(pid, cases, msg)
            print(f'{pid}: {msg}')
            print('case: ' + canonical(cases[-1])[:2000])
            print(f'VIOLATION property={pid} replay={path}')
            rc = 1
    elif harness is not None:
        print('error in the check: ' + harness[1])
        if harness[0] is not None:
            print(canonical(harness[0])[:3000])
        rc = 2
    for key, text in findings(pid).items():
        if labels['known-finding:' + key]:
            print(f'KNOWN-FINDING: property={pid} {key}: {text}')
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    samples.sort(key=lambda c: len(canonical(c)))
    ev = {
        'property': pid,
        'tier': a.tier,
        'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': evals,
            'distinct_nontrivial': len(hashes),
            'rule': mod.RULE,
            'samples': samples[:4] or corpus[:2],
            'classes': dict(sorted(labels.items())),
            'regression_cases': len(corpus),
            'stopped_early_by_time': truncated,
            'shards': a.shards,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2),
        'violations': 1 if rc == 1 else 0,
    }
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    print(f'{pid} tier={a.tier} seed={seed} cases={evals} nontrivial={len(hashes)} wall={time.time() - t0:.1f}s '
          f'rc={rc}' + (' (time budget reached)' if truncated else ''))
    if a.verbose:
        for k, v in sorted(labels.items()):
            print(f'   {k}: {v}')
    return rc
