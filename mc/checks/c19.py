"""From the text of a wildcard mask to the rules a filter selects: every ternary pattern of a bit window."""
import itertools

from .. import addr, cafref, impl
from ..core import guarded
from .c01 import window

BASE = 0x0A5A3C96


def patterns(low, width, below, above):
    """(value, wildcard) of every pattern of the window; the bits under it and above it fixed or free."""
    for value, free in window(4, low, width, False):
        high = 0xFFFFFFFF & ~((1 << (low + width)) - 1)
        value = (BASE & ~(((1 << width) - 1) << low)) | (value & (((1 << width) - 1) << low))
        if below:
            free |= (1 << low) - 1
        if above:
            free |= high
        yield value & ~free, free


def spellings(value, free):
    """The bits the wildcard frees may be written as anything."""
    return list(dict.fromkeys([value, value | free, value | free & 0x55555555]))


def world(low, width, below, above):
    text, rules, terms = "!\n", [], []
    for value, free in patterns(low, width, below, above):
        terms += [(v, free) for v in spellings(value, free)]
    show = lambda v, w: f"{addr.ip(4, v)} {addr.ip(4, w)}"
    text += "ip access-list extended src\n"
    for v, w in terms:
        text += f" permit ip {show(v, w)} any\n"
        rules.append(("src", ("wild", v, w), ("any",)))
    text += "ip access-list extended dst\n"
    for v, w in terms:
        text += f" deny tcp any eq 9 {show(v, w)} range 1 9\n"
        rules.append(("dst", ("any",), ("wild", v, w)))
    text += "ip access-list standard std\n"
    for v, w in terms[::3]:
        text += f" permit {show(v, w)}\n"
        rules.append(("std", ("wild", v, w), ("any",)))
    for v, w in terms[1::3]:
        text += f"access-list 101 permit icmp any {show(v, w)} echo\n"
        rules.append(("101", ("any",), ("wild", v, w)))
    for v, w in terms[2::3]:
        text += f"access-list 10 deny {show(v, w)}\n"
        rules.append(("10", ("wild", v, w), ("any",)))
    for (v, w), (x, y) in zip(terms, terms[::-1]):
        text += f"access-list 102 permit ip {show(v, w)} {show(x, y)}\n"
        rules.append(("102", ("wild", v, w), ("wild", x, y)))
    return text, rules


def filters(low, width, full):
    window_bits = ((1 << width) - 1) << low
    hosts = [addr.ip(4, BASE & ~window_bits | n << low) for n in range(1 << width)]
    hosts += [addr.ip(4, (BASE ^ 1 << b) & 0xFFFFFFFF) for b in ((low + width) % 32, 31)]
    nets = [f"{addr.ip(4, BASE & ~window_bits | n << low)}/{32 - low - k}" for k in range(1, width + 1) for n in range(0, 1 << width, 1 << k)]
    nets += [f"{h}/{32 - low}" for h in hosts[:: 1 if full else 3]] + ["0.0.0.0/0", "0.0.0.0/1", "128.0.0.0/1"]
    anys = ["any", "any4", "any6", "ANY", "ANY4", "ANY6", "2001:db8::1", "::/0", f"::{addr.ip(4, BASE)}", f"::ffff:{addr.ip(4, BASE)}/96", f"::{addr.ip(4, BASE & ~window_bits)}/{128 - low}"]
    for a in anys:
        yield ["ip", "src", a]
        yield ["ip", "dst", a]
        yield ["ip", "src", a, hosts[0]]
        yield ["ip", "src", hosts[0], "ip", "dst", a]
    yield ["ip", "src", "any6", "ANY", "::/0"]
    one = hosts + nets
    for a in one:
        yield ["ip", "src", a]
        yield ["ip", "dst", a]
    for a, b in itertools.combinations(one[:: 3 if full else 5], 2):
        yield ["ip", "src", a, b]
        yield ["ip", "dst", a, "ip", "src", b]
    for a in one[::4]:
        yield ["id", "src", "ip", "src", a]
        yield ["id", "/1*/", "ip", "dst", a]


def merged(intervals):
    out = []
    for a, b in sorted(intervals):
        if out and a <= out[-1][1] + 1:
            out[-1][1] = max(b, out[-1][1])
        else:
            out.append([a, b])
    return out


def meant(value, free):
    """The addresses of a wildcard as maximal intervals."""
    low = (free ^ (free + 1)) >> 1
    bits = [1 << b for b in range(32) if free & ~low & 1 << b]
    starts = [value & ~free]
    for b in bits:
        starts += [s | b for s in starts]
    return merged((s, s | low) for s in starts)


def enumerated(host):
    return merged((int(getattr(i, "network_address", i)), int(getattr(i, "broadcast_address", i))) for i in host._addresses())


def lists(result, config, rules):
    """The list of addresses the library makes of a wildcard, where it has one, is its set as well."""
    for rule, (name, src, dst) in zip(config.rules.rules, rules):
        for node, term in ((rule.src, src), (rule.dst, dst)):
            if term[0] != "wild" or not hasattr(node.host, "_addresses"):
                continue
            status, got = guarded(enumerated, node.host, seconds=20)
            want = meant(term[1], term[2])
            result.transitions += 1
            result.outcome("list of addresses")
            if status != "ok" or got != want:
                show = lambda v: [[addr.ip(4, a & 0xFFFFFFFF), addr.ip(4, b & 0xFFFFFFFF)] for a, b in v[:3]]
                return f"{addr.ip(4, term[1])} {addr.ip(4, term[2])} is listed as {show(got) if status == 'ok' else got} instead of {show(want)}"


def job(result, low, width, below, above, full):
    text, rules = world(low, width, below, above)
    status, config = guarded(impl.parse, "ios", text)
    if status != "ok" or len(config.rules.rules) != len(rules):
        result.violation("the rules were not read", {"low": low, "width": width, "below": below, "above": above, "tokens": ["ip", "src", "any"]}, None,
                         config if status != "ok" else len(config.rules.rules))
        return
    if not above:
        d = lists(result, config, rules)
        if d:
            result.violation(d, {"low": low, "width": width, "below": below, "above": above, "tokens": ["ip", "src", "any"]})
    for tokens in filters(low, width, full):
        outcome, d = cafref.judge(config, rules, tokens)
        result.traces += 1
        result.transitions += len(rules)
        result.state((low, below, above, tuple(tokens)))
        result.outcome(outcome)
        if d is not None:
            result.violation(f"{cafref.text(tokens)}: {d}", {"low": low, "width": width, "below": below, "above": above, "tokens": tokens})
            if result.full():
                return
    result.samples.append({"window": [low, width], "rule": str(rules[-1]), "filter": cafref.text(tokens), "outcome": outcome})


def run(ctx):
    width = ctx.pick(3, 4)
    lows = range(0, 33 - width) if not ctx.quick else sorted(set(range(0, 33 - width, 2)) | {5, 13, 21, 29, 7, 15, 23})
    jobs = [(low, width, below, above, not ctx.quick) for low in lows for below in ((False, True) if low else (False,))
            for above in ((False, True) if low + width < 32 else (False,))]
    ctx.bounds = {"window": width, "positions": len(set(lows)), "configurations": len(jobs)}
    ctx.map(job, jobs)


def replay(result, p):
    text, rules = world(p["low"], p["width"], p["below"], p["above"])
    config = impl.parse("ios", text)
    d = None if p["above"] else lists(result, config, rules)
    if d is None:
        _, d = cafref.judge(config, rules, p["tokens"])
    if d is not None or len(config.rules.rules) != len(rules):
        result.violation(d or "rules lost", p)
