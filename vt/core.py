"""Property-check core: registration, generated-input search, shrinking.

A property module builds a ``Prop`` and registers checks.  A check is a
Hypothesis strategy producing a JSON-able *case* and a function that runs the
real code on the case and compares it with an oracle.  Everything needed to
reproduce a failure is the case itself.
"""
import hashlib
import json
import os
import time
import traceback
import zlib


class Violation(AssertionError):
    """The real code broke the property on this case."""


class Reject(Exception):
    """The case is outside the property's domain; not counted."""


class _Abort(BaseException):
    """Stop shrinking now (time is up); the best case is already recorded."""


def fail(msg):
    raise Violation(msg)


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def dumps(case):
    return json.dumps(case, sort_keys=True, default=str)


def case_hash(name, case):
    return hashlib.sha1((name + dumps(case)).encode()).hexdigest()[:16]


class Ctx:
    def __init__(self):
        self.nontriv = False
        self.tags = []
        self.tmp = None

    def nontrivial(self, cond=True):
        if cond:
            self.nontriv = True

    def tag(self, *tags):
        self.tags.extend(str(t) for t in tags)

    def scratch(self):
        """A scratch directory private to this case, removed afterwards."""
        import tempfile

        if self.tmp is None:
            self.tmp = tempfile.mkdtemp(prefix="vt-case-")
        return self.tmp

    def cleanup(self):
        if self.tmp is not None:
            import shutil

            shutil.rmtree(self.tmp, ignore_errors=True)
            self.tmp = None


class Check:
    def __init__(self, name, strategy, fn, quick, thorough, weight, examples):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.weight = weight
        self.examples = examples or []


class Prop:
    def __init__(self, pid, rule, known=()):
        self.id = pid
        self.rule = rule
        self.checks = []
        self.known = list(known)

    def check(self, strategy, quick=200, thorough=None, weight=1.0,
              examples=None):
        def deco(fn):
            self.checks.append(
                Check(fn.__name__, strategy, fn, quick,
                      thorough or quick * 15, weight, examples)
            )
            return fn

        return deco


def run_case(check, case):
    """Run one case. Returns (ctx, error-or-None)."""
    ctx = Ctx()
    try:
        check.fn(case, ctx)
        return ctx, None
    except Reject:
        raise
    except Violation as e:
        return ctx, str(e)
    except (KeyboardInterrupt, MemoryError, _Abort):
        raise
    except Exception as e:  # an unexpected exception is a failure too
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(
            f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-6:]
        )
        return ctx, f"unexpected {type(e).__name__}: {e} [{where}]"
    finally:
        ctx.cleanup()


def shard_run(prop, tier, seed, shard, nshards, budget, only=None):
    """Search with every check of the property; returns a result dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    res = {"checks": {}, "hashes": [], "samples": [], "failures": []}
    hashes = set()
    t_start = time.monotonic()
    checks = [c for c in prop.checks if only is None or c.name == only]
    wleft = sum(c.weight for c in checks)
    for check in checks:
        left = budget - (time.monotonic() - t_start)
        slice_ = max(5.0, left * check.weight / wleft)
        wleft -= check.weight
        deadline = time.monotonic() + slice_
        total = check.quick if tier == "quick" else check.thorough
        n = max(1, -(-total // nshards))
        st = {"evaluations": 0, "rejected": 0, "nontrivial": 0, "tags": {},
              "requested": n, "skipped_for_time": 0}
        res["checks"][check.name] = st
        best = {}
        state = {"fail_t": None}

        def body(case):
            now = time.monotonic()
            if state["fail_t"] is None:
                if now > deadline:
                    st["skipped_for_time"] += 1
                    return
            elif now - state["fail_t"] > 30:
                raise _Abort
            try:
                ctx, err = run_case(check, case)
            except Reject:
                st["rejected"] += 1
                hypothesis.reject()
            st["evaluations"] += 1
            for t in ctx.tags:
                st["tags"][t] = st["tags"].get(t, 0) + 1
            if ctx.nontriv:
                st["nontrivial"] += 1
                h = case_hash(check.name, case)
                if h not in hashes:
                    hashes.add(h)
                    if sum(
                        1 for s in res["samples"] if s["check"] == check.name
                    ) < 2:
                        res["samples"].append(
                            {"check": check.name, "case": case}
                        )
            if err is not None:
                if state["fail_t"] is None:
                    state["fail_t"] = time.monotonic()
                size = len(dumps(case))
                if not best or size <= best["size"]:
                    best.update(size=size, case=case, error=err)
                raise Violation(err)

        if shard == 0:
            for case in check.examples:
                try:
                    body(case)
                except Violation:
                    break
        if not best:
            hseed = zlib.crc32(
                f"{seed}/{prop.id}/{check.name}/{shard}".encode()
            )
            test = given(check.strategy)(body)
            test = settings(
                max_examples=n,
                deadline=None,
                database=None,
                derandomize=False,
                print_blob=False,
                report_multiple_bugs=False,
                phases=[Phase.generate, Phase.shrink],
                suppress_health_check=list(HealthCheck),
            )(test)
            test = hypothesis.seed(hseed)(test)
            try:
                test()
            except _Abort:
                pass
            except Violation:
                pass
            except Exception as e:
                if not best:
                    raise RuntimeError(
                        f"harness error in {check.name}: {e!r}"
                    ) from e
        if best:
            res["failures"].append(
                {"check": check.name, "case": best["case"],
                 "error": best["error"]}
            )
    res["hashes"] = sorted(hashes)
    return res
