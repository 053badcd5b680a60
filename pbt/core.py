"""Registry and small helpers used by the check modules in checks/.

A check module calls `sub(...)` to register sub-checks.  Each sub-check is
  * a Hypothesis strategy producing a JSON-able case description, and
  * a function `check(case)` that builds the real objects from the description, runs the code in
    /repo and compares with an independent oracle.  It raises Violation (or any exception) when the
    property fails on that case.
Check functions never draw randomness themselves, so a case alone reproduces a failure.
"""
import contextlib
import os
import shutil
import tempfile


class Violation(AssertionError):
    pass


class Sub:
    def __init__(self, name, strategy, check, quick, thorough, rule, nt, shards, examples, depth):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.nt = nt
        self.shards = shards
        self.examples = examples
        self.depth = depth


SUBS = []
_labels = {}
_excluded = {}


def sub(strategy, quick=200, thorough=None, rule="", nt=None, shards=None, examples=(), name=None):
    """Registers a sub-check.  `nt(case)` says whether a case is non-trivial by `rule`."""

    def deco(fn):
        SUBS.append(
            Sub(
                name or fn.__name__,
                strategy,
                fn,
                quick,
                thorough or quick * 20,
                rule,
                nt or (lambda case: True),
                shards,
                list(examples),
                None,
            )
        )
        return fn

    return deco


def label(text):
    """Counts a class of cases (the distribution of labels goes to the evidence file)."""
    _labels[text] = _labels.get(text, 0) + 1


def excluded(finding):
    _excluded[finding] = _excluded.get(finding, 0) + 1


def fail(msg, *details):
    raise Violation(msg + "".join("\n  " + str(d) for d in details))


def require(cond, msg, *details):
    if not cond:
        fail(msg, *details)


def raises(exc, fn, msg):
    """fn() must raise one of exc; anything else is a violation."""
    try:
        res = fn()
    except exc:
        return
    except Exception as e:  # noqa
        fail(f"{msg}: raised {type(e).__name__}: {e} instead of {exc}")
    fail(f"{msg}: accepted, result {res!r}")


@contextlib.contextmanager
def scratch():
    """A fresh scratch directory, current while inside, removed afterwards."""
    d = tempfile.mkdtemp(prefix="pbt.")
    old = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)
