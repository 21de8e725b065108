"""Generated-input search engine shared by all checks.

A property module (kv/props/cNN.py) defines

  ID, RULE          property id; how cases are made and what is non-trivial
  QUICK, THOROUGH   Hypothesis examples *per worker* in each tier
  strategy()        Hypothesis strategy producing a plain-literal `case`
  run(case, info)   executes the case against kiel; raises Violation; records
                    info.nontrivial / info.label(...)

Every random choice lives inside the Hypothesis strategy, so a case is a plain
Python literal: the shrunk failing case is the replay file, and replaying it
bypasses Hypothesis altogether.
"""
import argparse
import ast
import collections
import glob
import hashlib
import importlib
import json
import logging
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback
import warnings

WORKERS = int(os.environ.get("KV_WORKERS", "8"))
SLOW = os.environ.get("KV_SLOW")
CASE_SECONDS = 40        # a case takes milliseconds; this is a non-termination guard
SHRINK_SECONDS = int(os.environ.get("KV_SHRINK", "90"))


class Violation(AssertionError):
    """The property is broken by the case being run."""


class CaseTimeout(KeyboardInterrupt):
    """Raised by the watchdog (KeyboardInterrupt: asyncio and tornado let it through)."""


class HarnessError(Exception):
    """The machinery itself is at fault; never reported as a violation."""


class Info(object):
    def __init__(self):
        self.nontrivial = False
        self.labels = set()

    def label(self, *names):
        self.labels.update(names)


def check(cond, message, *args):
    if not cond:
        raise Violation(message % args if args else message)


def one_of(*strategies):
    """Hypothesis' one_of ignores repetitions (and tuples() and the like, called again with the
    same arguments, return the same strategy); here they give a strategy more weight."""
    from hypothesis import strategies as st
    distinct = []
    for s in strategies:
        distinct.append(s.map(lambda x: x) if any(s is x for x in distinct) else s)
    return st.one_of(*distinct)


def import_kiel(repo):
    """Imports every kiel module from the working tree, ignoring cached bytecode."""
    saved = sys.pycache_prefix
    sys.pycache_prefix = "/nonexistent-kv-pycache"
    try:
        root = os.path.join(repo, "kiel")
        for dirpath, dirnames, filenames in os.walk(root):
            dirnames[:] = sorted(d for d in dirnames if d != "__pycache__")
            rel = os.path.relpath(dirpath, repo).replace(os.sep, ".")
            for name in sorted(filenames):
                if not name.endswith(".py"):
                    continue
                mod = rel if name == "__init__.py" else rel + "." + name[:-3]
                importlib.import_module(mod)
        import kiel
        if not os.path.abspath(kiel.__file__).startswith(os.path.abspath(repo) + os.sep):
            raise HarnessError("kiel imported from %s" % kiel.__file__)
    finally:
        sys.pycache_prefix = saved


_repo_prefix = None


def _blames_kiel(exc):
    """True if the exception passed through kiel's code on its way to us."""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        for frame, _ in traceback.walk_tb(exc.__traceback__):
            name = os.path.abspath(frame.f_code.co_filename)
            if name.startswith(_repo_prefix):
                return True
        exc = exc.__cause__ or exc.__context__
    return False


def run_case(prop, case, stuck):
    """Runs one case; returns Info, raises Violation / CaseTimeout / HarnessError.

    stuck(case) is called, and must not return, if not even CaseTimeout gets the case to end.
    """
    info = Info()
    alarms = []

    def on_alarm(signum, frame):
        alarms.append(1)
        if len(alarms) > 10:
            stuck(case)
        raise CaseTimeout()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS, 1.0)
    began = time.perf_counter()
    try:
        prop.run(case, info)
    except (Violation, CaseTimeout, HarnessError):
        raise
    except Exception as exc:
        signal.setitimer(signal.ITIMER_REAL, 0)
        if _blames_kiel(exc):
            tb = traceback.format_exception(type(exc), exc, exc.__traceback__)
            raise Violation(
                "kiel raised %s: %s where the property requires success\n%s"
                % (type(exc).__name__, exc, "".join(tb[-6:]))
            )
        if isinstance(exc, MemoryError):
            raise
        # every case that ends in a well-formed result gets through the check; this one
        # produced something else (None for a list, a field that isn't there)
        raise Violation("what kiel did makes no sense to the check: %s" % "".join(
            traceback.format_exception(type(exc), exc, exc.__traceback__)[-6:]))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        if SLOW and time.perf_counter() - began > float(SLOW):      # seconds: tells of slow cases
            with open("/tmp/slow.log", "a") as out:
                out.write("%s %.1f %r\n" % (prop.ID, time.perf_counter() - began, case))
    return info


class Stats(object):
    def __init__(self):
        self.evaluations = 0
        self.distinct = set()
        self.labels = collections.Counter()
        self.samples = []

    def add(self, case, info):
        self.evaluations += 1
        self.labels.update(info.labels)
        if info.nontrivial:
            text = repr(case)
            digest = hashlib.blake2b(text.encode("utf-8", "replace"), digest_size=8).digest()
            if digest not in self.distinct:
                self.distinct.add(digest)
                if len(self.distinct) in (1, 40, 150) and len(text) < 3000:
                    self.samples.append(text)

    def merge(self, other):
        self.evaluations += other.evaluations
        self.distinct |= other.distinct
        self.labels.update(other.labels)
        for s in sorted(other.samples, key=len, reverse=True)[:2]:
            if len(self.samples) < 5:
                self.samples.append(s)


def quiet():
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")


def worker(prop, examples, seed, conn):
    """One Hypothesis campaign; sends back (stats, outcome)."""
    quiet()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))      # not all of the machine's
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    stats = Stats()
    state = {"failing": None, "first_fail": None}
    history = []        # cases run up to the first that failed, and that one

    def stuck(case):
        conn.send((stats, ("stuck", state["failing"] or (
            case, "case did not terminate within %ds" % CASE_SECONDS))))
        conn.close()
        os._exit(0)

    @hypothesis.seed(seed)
    @settings(
        max_examples=examples, deadline=None, database=None,
        print_blob=False, report_multiple_bugs=False,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=[
            HealthCheck.too_slow, HealthCheck.data_too_large,
            HealthCheck.large_base_example,
        ],
    )
    @given(prop.strategy())
    def campaign(case):
        if state["first_fail"] is not None \
                and time.monotonic() - state["first_fail"] > SHRINK_SECONDS:
            # enough shrinking: let everything pass, the best case is recorded
            if case != state["failing"][0]:
                return
        if state["first_fail"] is None:
            history.append(case)
        try:
            info = run_case(prop, case, stuck)
        except Violation as exc:
            if state["first_fail"] is None:
                state["first_fail"] = time.monotonic()
            state["failing"] = (case, str(exc))
            raise Violation("violation")     # one shrink target, whatever the message
        except CaseTimeout:
            state["failing"] = (case, "case did not terminate within %ds" % CASE_SECONDS)
            raise
        if state["first_fail"] is None:
            stats.add(case, info)

    try:
        campaign()
        outcome = ("ok", None)
    except CaseTimeout:
        outcome = ("timeout", state["failing"])
    except BaseException as exc:
        if state["failing"] is not None:
            outcome = ("violation", state["failing"] + (history,))
        else:
            outcome = ("error", "".join(traceback.format_exception(exc))[-6000:])
    conn.send((stats, outcome))
    conn.close()


def campaign_parallel(prop, examples, seed):
    ctx = multiprocessing.get_context("fork")
    procs = []
    for i in range(WORKERS):
        recv, send = ctx.Pipe(duplex=False)
        p = ctx.Process(target=worker, args=(prop, examples, seed * 1000 + i, send))
        p.daemon = True
        p.start()
        send.close()
        procs.append((p, recv))

    total = Stats()
    results = []
    pending = dict((recv, p) for p, recv in procs)
    from multiprocessing.connection import wait
    deadline = None
    while pending:
        timeout = None if deadline is None else max(0.0, deadline - time.monotonic())
        ready = wait(list(pending), timeout)
        if not ready:
            break
        for recv in ready:
            p = pending.pop(recv)
            try:
                stats, outcome = recv.recv()
            except EOFError:
                p.join()
                results.append(("error", "worker died with exit code %s" % p.exitcode))
                continue
            total.merge(stats)
            results.append(outcome)
            if outcome[0] in ("violation", "stuck") and deadline is None:
                # others may be shrinking the same thing; give them a moment only
                deadline = time.monotonic() + 2
    for p in pending.values():
        p.terminate()
    for p, _ in procs:
        p.join()
    return total, results


def encode_case(case):
    text = repr(case)
    if ast.literal_eval(text) != case:
        raise HarnessError("case is not a plain literal: %s" % text[:500])
    return text


def save_replay(prop, case, message, here, before=()):
    text = encode_case(case)
    digest = hashlib.sha1(text.encode("utf-8", "replace")).hexdigest()[:10]
    directory = os.path.join(here, "replays")
    os.makedirs(directory, exist_ok=True)
    path = os.path.join(directory, "%s-%s.json" % (prop.ID, digest))
    with open(path, "w") as fd:
        content = {"property": prop.ID, "case": text, "message": message}
        if before:
            content["before"] = [encode_case(one) for one in before]
        json.dump(content, fd, indent=1)
    return path


def load_case(path):
    with open(path) as fd:
        return ast.literal_eval(json.load(fd)["case"])


def known_findings(prop, here):
    path = os.path.join(here, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as fd:
        data = json.load(fd)
    return [f for f in data.get("findings", []) if f["property"] == prop.ID]


def write_evidence(prop, tier, seed, here, stats, wall, violations, extra):
    coverage = {
        "evaluations": stats.evaluations,
        "distinct_nontrivial": len(stats.distinct),
        "rule": prop.RULE,
        "samples": stats.samples or ["(no non-trivial case was completed)"],
        "labels": dict(sorted(stats.labels.items())),
    }
    coverage.update(extra)
    out = {
        "property": prop.ID, "tier": tier, "seed": seed,
        "level": getattr(prop, "LEVEL", "exploration"),
        "coverage": coverage,
        "assumptions": list(getattr(prop, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2), "violations": violations,
    }
    directory = os.path.join(here, "evidence")
    os.makedirs(directory, exist_ok=True)
    with open(os.path.join(directory, prop.ID + ".json"), "w") as fd:
        json.dump(out, fd, indent=1)


def main(argv, here, repo):
    global _repo_prefix
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--examples", type=int)
    ap.add_argument("--trace", action="store_true")
    args = ap.parse_args(argv)

    started = time.monotonic()
    _repo_prefix = os.path.join(os.path.abspath(repo), "kiel") + os.sep
    try:
        if not args.trace:
            quiet()
        from kv import sim
        sim.install()
        import_kiel(repo)
        prop = importlib.import_module("kv.props.%s" % args.property.lower())
        if args.replay:
            return replay(prop, args.replay)
        return run_check(prop, args, here, started)
    except Exception:
        traceback.print_exc()
        print("HARNESS-ERROR property=%s" % args.property)
        return 3


def fails_after(prop, before, case):
    """What `case` fails with when run after the cases `before`, all in a process of their own."""
    recv, send = multiprocessing.Pipe(duplex=False)
    pid = os.fork()
    if pid == 0:
        quiet()

        def stuck(_):
            send.send("case did not terminate within %ds" % CASE_SECONDS)
            os._exit(0)

        message = None
        try:
            for i, one in enumerate(before + [case]):
                message = None
                try:
                    run_case(prop, one, stuck)
                except (Violation, CaseTimeout) as exc:
                    message = str(exc) or "case did not terminate within %ds" % CASE_SECONDS
            send.send(message)
        finally:
            os._exit(0)
    send.close()
    try:
        return recv.recv() if recv.poll(300) else None
    except EOFError:
        return None
    finally:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)


def confirmed(prop, case):
    """(case, message) if the case fails in a process of its own, otherwise None."""
    for _ in range(3):
        message = fails_after(prop, [], case)
        if message:
            return case, message


def with_history(prop, history):
    """A violation that takes what earlier cases left behind in the process.

    kiel's objects are all made anew for every case: what fails only after other cases fails
    because of what they left in its classes and modules.  Returns ((case, message), before).
    """
    before, case = history[:-1], history[-1]
    message = fails_after(prop, before, case)
    if message is None:
        return None, []
    end = time.monotonic() + SHRINK_SECONDS
    keep = 0
    while keep < len(before) and time.monotonic() < end:
        shorter = fails_after(prop, before[len(before) - keep:], case)
        if shorter:
            before, message = before[len(before) - keep:], shorter
            break
        keep = max(1, 2 * keep)
    i = 0
    while i < len(before) and time.monotonic() < end:
        step = max(1, len(before) // 8)
        shorter = fails_after(prop, before[:i] + before[i + step:], case)
        if shorter:
            before, message = before[:i] + before[i + step:], shorter
        else:
            i += step
    if before:
        message = "after %d other case(s) in the same process: %s" % (len(before), message)
    return (case, message), before


def replay(prop, path):
    case = load_case(path)
    with open(path) as fd:
        before = [ast.literal_eval(text) for text in json.load(fd).get("before", [])]
    if before:
        message = fails_after(prop, before, case)
        if message:
            print("VIOLATION property=%s replay=%s" % (prop.ID, path))
            print(message)
            return 1
        print("replay passed")
        return 0

    def stuck(_):
        print("VIOLATION property=%s replay=%s" % (prop.ID, path))
        print("case did not terminate within %ds" % CASE_SECONDS, flush=True)
        os._exit(1)

    try:
        info = run_case(prop, case, stuck)
    except (Violation, CaseTimeout) as exc:
        print("VIOLATION property=%s replay=%s" % (prop.ID, path))
        print(exc)
        return 1
    print("replay passed (nontrivial=%s labels=%s)" % (info.nontrivial, sorted(info.labels)))
    return 0


def run_check(prop, args, here, started):
    tier = "thorough" if args.tier == "thorough" else "quick"
    stats = Stats()
    extra = {}
    found = None
    before = []
    errors = []

    def stuck(case):
        path = save_replay(prop, case, "case did not terminate", here)
        print("VIOLATION property=%s replay=%s" % (prop.ID, path))
        print("case did not terminate within %ds" % CASE_SECONDS, flush=True)
        os._exit(1)

    # 1. listed findings: still there?
    known = known_findings(prop, here)
    reproduced = 0
    for finding in known:
        case = ast.literal_eval(finding["case"])
        try:
            run_case(prop, case, stuck)
        except (Violation, CaseTimeout) as exc:
            first = (str(exc).strip() or "?").splitlines()[0]
            if finding.get("expect") and finding["expect"] not in str(exc):
                found = (case, "listed finding now fails differently: %s" % exc)
                continue
            reproduced += 1
            print("KNOWN-FINDING: property=%s %s (%s)" % (prop.ID, finding["what"], first))
    if known:
        extra["known_findings_reproduced"] = reproduced

    # 2. saved regression cases (seconds)
    corpus = sorted(glob.glob(os.path.join(here, "corpus", prop.ID, "*.json")))
    for path in corpus:
        if found:
            break
        case = load_case(path)
        try:
            stats.add(case, run_case(prop, case, stuck))
        except (Violation, CaseTimeout) as exc:
            found = (case, "saved case %s: %s" % (os.path.basename(path), exc))
    extra["saved_cases_replayed"] = len(corpus)

    # 3. generated search
    if not found:
        examples = args.examples or (prop.THOROUGH if tier == "thorough" else prop.QUICK)
        total, results = campaign_parallel(prop, examples, args.seed)
        stats.merge(total)
        candidates = []
        for kind, payload in results:
            if kind in ("violation", "stuck", "timeout"):
                candidates.append((kind == "timeout", len(repr(payload[0])), payload))
            elif kind == "error":
                errors.append(payload)

        # 4. confirm outside Hypothesis, so that what is reported replays
        candidates.sort(key=lambda one: one[:2])
        for _, _, payload in candidates:
            found = confirmed(prop, payload[0])
            if found is None and len(payload) > 2:
                found, before = with_history(prop, payload[2])
            if found:
                break
            errors.append("violation did not reproduce: %s\n%r" % (payload[1], payload[0]))

    write_evidence(prop, tier, args.seed, here, stats, time.monotonic() - started,
                   1 if found else 0, extra)
    if found:
        path = save_replay(prop, found[0], found[1], here, before)
        print("VIOLATION property=%s replay=%s" % (prop.ID, path))
        print(found[1])
        return 1
    if errors:
        for e in errors[:3]:
            print("ERROR %s" % e)
        print("HARNESS-ERROR property=%s" % prop.ID)
        return 3
    print("ok property=%s tier=%s cases=%d nontrivial=%d wall=%.1fs" % (
        prop.ID, tier, stats.evaluations, len(stats.distinct), time.monotonic() - started))
    return 0
