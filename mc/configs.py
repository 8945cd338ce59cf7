"""Replaying model traces (configuration texts) on the implementation and comparing states."""
from . import canon, impl
from .core import first_difference, guarded, jsonable

SLICES = {
    "rules": canon.rules,
    "network_objects": canon.network_objects,
    "service_objects": canon.service_objects,
    "groups": canon.groups,
    "interfaces": canon.interfaces,
    "access_groups": canon.access_groups,
    "names": canon.names,
    "nat": canon.nats,
    "time": lambda c: {k: canon.time_range(t) for k, t in c.objects.time.items()},
    "header": canon.header,
    "routes": lambda c: [canon.route(r) for r in c.routes],
    "everything": canon.everything,
}
REJECTED = "rejected"


def observe(dialect, text, slices):
    """-> {slice: canonical} or the string 'rejected: ...'."""
    status, cfg = guarded(impl.parse, dialect, text)
    if status != "ok":
        return f"{REJECTED}: {cfg}"
    r = {}
    for s in slices:
        f = SLICES.get(s) or EXTRA[s]
        status, v = guarded(f, cfg)
        r[s] = jsonable(v) if status == "ok" else f"unreadable: {v}"
    return r


EXTRA = {}


def differs(dialect, text, expected, extra=None):
    """-> None when the implementation reaches the state the model predicts, else a description."""
    seen = observe(dialect, text, [] if expected == REJECTED else sorted(expected))
    if expected == REJECTED:
        return None if isinstance(seen, str) else "accepted, although the definition of the language rejects it"
    if isinstance(seen, str):
        return seen
    expected = jsonable(expected)
    if seen == expected:
        return None
    return first_difference(expected, seen)


def check(result, dialect, text, expected, label="", events=None):
    """One trace: replay it and compare every compared slice of the final state."""
    result.traces += 1
    result.transitions += events if events is not None else text.count("\n")
    result.state((dialect, jsonable(expected)))
    d = differs(dialect, text, expected)
    if d is not None:
        result.violation(
            f"{label}: {d}"[:1500],
            {"kind": "config", "dialect": dialect, "text": text, "expected": jsonable(expected)},
        )
        result.outcome("violation")
    else:
        result.outcome("rejected as expected" if expected == REJECTED else "state as predicted")
    return d is None


def check_rule_lines(result, dialect, preamble, cases, label=""):
    """cases: [(text of one or more lines that make exactly one rule, expected rule)].

    The lines are independent commands, so one configuration carries many of them; on a difference
    the batch is split until the smallest failing configuration remains.
    """

    def go(part):
        text = preamble + "".join(c[0] for c in part)
        seen = observe(dialect, text, ["rules"])
        want = jsonable([c[1] for c in part])
        if not isinstance(seen, str) and seen["rules"] == want:
            return
        if len(part) == 1 or result.full():
            check(result, dialect, text, {"rules": want}, label)
            return
        before = len(result.violations)
        h = len(part) // 2
        if not isinstance(seen, str) and isinstance(seen["rules"], list) and len(seen["rules"]) == len(part):
            for c, got, exp in zip(part, seen["rules"], want):
                if got != exp and not result.full():
                    go([c])
        else:
            go(part[:h])
            go(part[h:])
        if len(result.violations) == before and not result.full():
            check(result, dialect, text, {"rules": want}, label + " (only together)")

    for t, e in cases:
        result.state(e)
        result.transitions += t.count("\n")
    result.traces += len(cases)
    go(list(cases))
    result.outcome("rules as predicted", len(cases))


def check_events(result, dialect, new, cases, slices, label=""):
    """cases: functions case(model, i) that append definitions to a model.  All of them go into one
    configuration; on a difference the batch is split until the smallest failing one remains."""

    def state(part):
        m = new()
        for i, c in part:
            c(m, i)
        return m

    def go(part):
        m = state(part)
        want = m.state(*slices)
        seen = observe(dialect, m.text, sorted(slices))
        if seen == jsonable(want):
            return
        if len(part) == 1 or result.full():
            check(result, dialect, m.text, want, label)
            return
        before = len(result.violations)
        h = len(part) // 2
        go(part[:h])
        go(part[h:])
        if len(result.violations) == before and not result.full():
            check(result, dialect, m.text, want, label + " (only together)")

    cases = list(enumerate(cases))
    for i, c in cases:
        m = state([(0, c)])
        result.state(jsonable(m.state(*slices)))
        result.transitions += m.text.count("\n")
    result.traces += len(cases)
    go(cases)
    result.outcome("as predicted", len(cases))


def replay(result, payload):
    """Replay of a 'config' payload."""
    d = differs(payload["dialect"], payload["text"], payload["expected"])
    if d is not None:
        result.violation(d, payload)
