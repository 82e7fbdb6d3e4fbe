"""Violation reporting and per-case context."""
import contextlib
import hashlib
import json
import traceback


class Violation(Exception):
    """The property is broken on this case."""


class HarnessError(Exception):
    """The check itself cannot decide this case (never reported as a violation)."""


def fail(message):
    raise Violation(message)


def require(condition, message):
    if not condition:
        raise Violation(message() if callable(message) else message)


def case_key(case):
    return hashlib.sha1(
        json.dumps(case, sort_keys=True, separators=(",", ":")).encode()
    ).hexdigest()


class Context:
    """Collects what a case exercised; one per evaluated case."""

    def __init__(self, tier="quick"):
        self.tier = tier
        self.labels = {}
        self.is_nontrivial = False

    def label(self, name, value=None):
        key = str(name) if value is None else f"{name}={value}"
        self.labels[key] = self.labels.get(key, 0) + 1

    def nontrivial(self, condition=True):
        if condition:
            self.is_nontrivial = True

    @contextlib.contextmanager
    def sut(self, what):
        """Calls into the code under test which must succeed on this (valid) input."""
        try:
            yield
        except (Violation, HarnessError):
            raise
        except Exception as err:  # noqa: BLE001
            raise Violation(
                f"{what}: unexpected {type(err).__name__}: {err}\n"
                + traceback.format_exc(limit=-6)
            )

    def raises(self, exc_types, function, what):
        """The call must be rejected with one of the documented exception types."""
        try:
            function()
        except exc_types as err:
            return err
        except (Violation, HarnessError):
            raise
        except Exception as err:  # noqa: BLE001
            raise Violation(
                f"{what}: expected {exc_types}, got {type(err).__name__}: {err}"
            )
        raise Violation(f"{what}: expected {exc_types}, but the call succeeded")


class LCG:
    """Deterministic generator expanded from an integer that the case contains."""

    def __init__(self, seed):
        self.state = (int(seed) * 6364136223846793005 + 1442695040888963407) % 2 ** 64

    def next(self, n):
        self.state = (self.state * 6364136223846793005 + 1442695040888963407) % 2 ** 64
        return (self.state >> 33) % n

    def shuffled(self, items):
        items = list(items)
        for i in range(len(items) - 1, 0, -1):
            j = self.next(i + 1)
            items[i], items[j] = items[j], items[i]
        return items
