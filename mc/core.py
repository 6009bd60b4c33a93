"""Enumeration engine shared by all checks.

A property module (mc/props/cNN.py) offers

  tasks(tier)          -> list of JSON-able block descriptions; together the blocks
                          ARE the bounded space, and every block is explored completely
  explore(ctx, block)  -> enumerates the block, calling ctx.case(case, fn) per execution
  run_case(case)       -> executes one recorded case again (replay)

Blocks run in a pool of processes.  Nothing is sampled: VERIF_SEED only permutes the
order in which the blocks are handed out.
"""
import collections
import hashlib
import importlib
import itertools
import json
import math
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

VERIF = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
CASE_TIMEOUT = int(os.environ.get("VERIF_CASE_TIMEOUT", "60"))
MAX_VIOLATIONS = 8


class Violation(Exception):
    """The property does not hold in this case.

    finding: optional key naming exactly what was observed; only a listed finding with the
    same key is taken for known (default: the case itself)."""

    def __init__(self, msg, finding=None):
        super().__init__(msg)
        self.finding = finding


class HarnessError(BaseException):
    """The machinery is wrong or cannot decide; never reported as a violation."""


class CaseTimeout(BaseException):
    pass


_started = [0.0, 0.0]


def _on_alarm(signum, frame):
    # a loaded machine is not a hang: the case's own CPU time counts, idle waiting three times as long
    if time.process_time() - _started[0] >= 0.9 * CASE_TIMEOUT or time.monotonic() - _started[1] >= 3 * CASE_TIMEOUT:
        raise CaseTimeout()
    signal.setitimer(signal.ITIMER_REAL, max(1.0, CASE_TIMEOUT / 20))


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def finding_key(case, finding):
    return json.dumps(jsonable(case if finding is None else finding), sort_keys=True)


def digest(obj):
    return hashlib.blake2b(repr(obj).encode(), digest_size=8).digest()


class Ctx:
    def __init__(self, prop, tier, stop=None):
        self.prop, self.tier, self.stop = prop, tier, stop
        self.executions = 0          # complete executions of the code under test
        self.transitions = 0         # calls / messages / scheduling steps performed
        self.states = set()          # digests of distinct canonical states or cases
        self.outcomes = set()        # digests of distinct observed outcomes
        self.validated = 0           # executions compared with the reference model
        self.samples = []
        self.violations = []         # (case, message)
        self.known = {e["case_key"] for e in load_known(prop)}
        self.known_hits = set()      # listed findings that showed again
        self.counters = collections.Counter()
        self._last_poll = 0

    def stopped(self):
        if len(self.violations) >= MAX_VIOLATIONS:
            return True
        if self.stop is not None:
            now = time.monotonic()
            if now - self._last_poll > 0.2:
                self._last_poll = now
                if self.stop.is_set():
                    return True
        return False

    def state(self, obj):
        """Record a canonical state; True if it was new."""
        d = digest(obj)
        if d in self.states:
            return False
        self.states.add(d)
        return True

    def outcome(self, obj):
        self.outcomes.add(digest(obj))

    def step(self, n=1):
        self.transitions += n

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def case(self, case, fn, steps=1, validated=True):
        """Run one execution and classify how it ended."""
        if self.stopped():
            raise StopExploring()
        self.executions += 1
        self.transitions += steps
        _started[:] = time.process_time(), time.monotonic()
        signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
        try:
            out = fn()
            if validated:
                self.validated += 1
            if len(self.samples) < 2:
                self.samples.append(case)
            return out
        except (StopExploring, KeyboardInterrupt, MemoryError):
            raise
        except CaseTimeout:
            self.violations.append((case, "did not terminate within %d s" % CASE_TIMEOUT))
            raise StopExploring()       # the next ones would take as long
        except Violation as e:
            k = finding_key(case, e.finding)
            if k in self.known:
                self.known_hits.add(k)
            else:
                self.violations.append((case, str(e)))
        except HarnessError:
            raise
        except Exception as e:
            self.violations.append((case, "unexpected %s: %s\n%s" % (
                type(e).__name__, e, traceback.format_exc(limit=-8))))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return None

    def pack(self):
        return dict(executions=self.executions, transitions=self.transitions,
                    states=self.states, outcomes=self.outcomes, validated=self.validated,
                    samples=self.samples, violations=self.violations, known_hits=self.known_hits,
                    counters=dict(self.counters))


class StopExploring(Exception):
    pass


_G = {}


def _worker_init(prop, tier, stop, modname):
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _G.update(prop=prop, tier=tier, stop=stop, mod=importlib.import_module(modname))


def _run_block(block):
    ctx = Ctx(_G["prop"], _G["tier"], _G["stop"])
    t0 = time.monotonic()
    try:
        if not ctx.stopped():
            _G["mod"].explore(ctx, block)
    except StopExploring:
        pass
    except BaseException as e:      # noqa: B902 - reported to the parent
        return dict(error="block %r: %s" % (block, traceback.format_exc()), kind=type(e).__name__)
    if ctx.violations and ctx.stop is not None:
        ctx.stop.set()
    out = ctx.pack()
    out["block"], out["seconds"] = block, time.monotonic() - t0
    return out


def load_known(prop):
    """Known findings: {"property", "case_key", "what"}; matched on the exact case key."""
    known = []
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if not line:
                continue
            e = json.loads(line)
            if e.get("property") == prop and e.get("kind") == "known":
                known.append(e)
    return known


def jsonable(x):
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (bytes, bytearray)):
        return x.hex()
    return repr(x)


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "w", encoding="utf-8") as f:
        json.dump(jsonable(obj), f, indent=1, ensure_ascii=False)
        f.write("\n")
    os.replace(tmp, path)


def run_property(prop, tier, meta, jobs=None):
    modname = "mc.props.%s" % prop.lower()
    mod = importlib.import_module(modname)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.monotonic()
    blocks = list(mod.tasks(tier))
    order = list(range(len(blocks)))
    random.Random(seed).shuffle(order)
    jobs = jobs or min(8, os.cpu_count() or 1, max(1, len(blocks)))
    mpc = mp.get_context("fork")
    stop = mpc.Event()
    results, errors = [], []
    pool = mpc.Pool(jobs, _worker_init, (prop, tier, stop, modname))
    try:
        for r in pool.imap_unordered(_run_block, [blocks[i] for i in order], chunksize=1):
            if "error" in r:
                errors.append(r["error"])
                stop.set()
            else:
                results.append(r)
    finally:
        pool.terminate()
        pool.join()

    states, outcomes, counters = set(), set(), collections.Counter()
    execs = trans = validated = 0
    samples, violations, slow = [], [], []
    for r in results:
        states |= r["states"]
        outcomes |= r["outcomes"]
        counters.update(r["counters"])
        execs += r["executions"]
        trans += r["transitions"]
        validated += r["validated"]
        samples.extend(r["samples"])
        violations.extend(r["violations"])
        slow.append((r["seconds"], r["block"]))
    samples = sorted(samples, key=lambda s: len(repr(s)))
    samples = samples[:2] + samples[len(samples) // 2:len(samples) // 2 + 2] + samples[-1:]

    hits = set().union(*[r["known_hits"] for r in results]) if results else set()
    seen_known = {e["case_key"]: e for e in load_known(prop) if e["case_key"] in hits}
    new = list(violations)
    new.sort(key=lambda cm: (len(repr(cm[0])), repr(cm[0])))

    wall = time.monotonic() - t0
    level = meta["level"]
    cov = dict(meta.get("bounds", {}).get(tier, {}) if isinstance(meta.get("bounds"), dict) else {})
    cov.update(
        samples=samples, blocks=len(blocks), blocks_completed=len(results),
        distinct_outcomes=len(outcomes), counters=dict(counters),
        exhaustive=(not errors and not new and len(results) == len(blocks)),
        rule=meta.get("rule", ""))
    if level == "model_checking":
        cov.update(states=len(states), transitions=trans, traces_validated_against_impl=validated)
        if execs != validated:
            cov["executions"] = execs
    else:
        cov.update(evaluations=execs, distinct_nontrivial=len(states), steps=trans,
                   compared_with_reference=validated)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=meta.get("assumptions", []), wall_s=round(wall, 3), violations=len(new))
    write_json(os.path.join(VERIF, "evidence", prop + ".json"), ev)

    for e in seen_known.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    if new:
        paths = []
        for i, (case, msg) in enumerate(new[:3]):
            h = hashlib.blake2b(repr(case).encode(), digest_size=5).hexdigest()
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, h))
            write_json(path, dict(property=prop, case=case, message=msg,
                                  replay="./check %s --replay %s" % (prop, path)))
            paths.append(path)
        print("VIOLATION property=%s replay=%s" % (prop, paths[0]))
        for (case, msg), path in zip(new, paths):
            print("  %s\n    case: %s\n    replay: %s" % (
                msg.replace("\n", "\n    "), json.dumps(jsonable(case), ensure_ascii=False)[:600], path))
        return 1
    if errors:
        sys.stderr.write("check %s: internal error\n%s\n" % (prop, "\n".join(errors[:3])))
        return 2
    slow.sort(key=lambda t: t[0], reverse=True)
    if os.environ.get("VERIF_SLOW"):
        for sec, b in slow[:int(os.environ["VERIF_SLOW"])]:
            print("  %.1fs %r" % (sec, b))
    print("ok property=%s tier=%s executions=%d states=%d transitions=%d outcomes=%d blocks=%d wall=%.1fs slowest_block=%.1fs" % (
        prop, tier, execs, len(states), trans, len(outcomes), len(blocks), wall, slow[0][0] if slow else 0))
    return 0


def replay(prop, path):
    mod = importlib.import_module("mc.props.%s" % prop.lower())
    rec = json.load(open(path, encoding="utf-8"))
    signal.signal(signal.SIGALRM, _on_alarm)
    ctx = Ctx(prop, "quick")
    ctx.case(rec["case"], lambda: mod.run_case(rec["case"]))
    if ctx.known_hits:
        print("replay of %s: a listed finding" % path)
        return 0
    if ctx.violations:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  " + ctx.violations[0][1])
        return 1
    print("replay of %s: the property holds in this case" % path)
    return 0


# ---------------------------------------------------------------------------
# choice-tree exploration: stateless, deviation bounded
# ---------------------------------------------------------------------------
class Chooser:
    """Answers choice points from a prefix, then with 0; records what was offered."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.trace = []          # (chosen, number of alternatives, cost of deviating)

    def __call__(self, n, cost=1):
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise HarnessError("replay diverged: choice %d of %d at point %d" % (c, n, i))
        self.trace.append((c, n, cost))
        return c


def explore_choices(run, bound, on_done, limit=None, part=0, of=1):
    """Depth-first over every choice sequence with total deviation cost <= bound.

    run(chooser) performs one execution.  bound None = no bound (full tree).  With `of`
    parts, part i explores the subtrees whose first deviation it owns (and the root).
    """
    stack = [()]
    n = 0
    while stack:
        prefix = stack.pop()
        ch = Chooser(prefix)
        res = run(ch)
        n += 1
        on_done(ch, res)
        if limit is not None and n >= limit and stack:
            return n, False
        cost = 0
        choices = []
        for i, (c, k, w) in enumerate(ch.trace):
            if i >= len(prefix):
                for alt in range(k - 1, 0, -1):
                    if (bound is None or cost + w <= bound) and (prefix or (i + alt) % of == part):
                        stack.append(tuple(choices) + (alt,))
            if c:
                cost += w
            choices.append(c)
    return n, True


def subsets(items):
    items = list(items)
    for r in range(len(items) + 1):
        yield from itertools.combinations(items, r)


def chunks(seq, size):
    seq = list(seq)
    return [seq[i:i + size] for i in range(0, len(seq), size)]


def close(a, b, rel=1e-9, abs_=1e-9):
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return False
    if a != a or b != b:
        return False
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))
