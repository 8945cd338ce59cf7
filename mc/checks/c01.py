"""Address terms overlap exactly when they have an address in common."""
import itertools

from .. import addr
from ..core import guarded


def window(v, low, width, below):
    """All ternary patterns of `width` bits at bit `low`: (value, free mask).  below: bits under the
    window are free."""
    base = {4: 0x0A000000, 6: 0x20010DB8 << 96}[v] & ~(((1 << width) - 1) << low)
    for digits in itertools.product("01*", repeat=width):
        value, free = base, 0
        for i, d in enumerate(digits):
            bit = 1 << (low + width - 1 - i)
            if d == "*":
                free |= bit
                value &= ~bit
            elif d == "1":
                value |= bit
            else:
                value &= ~bit
        if below:
            free |= (1 << low) - 1
            value &= ~((1 << low) - 1)
        yield value, free


def terms_of(v, value, free, styles):
    """Every way to write one pattern."""
    bits = addr.BITS[v]
    out = []
    if free == 0:
        out.append(("host", v, value))
    if free & (free + 1) == 0:
        prefix = bits - free.bit_length()
        for s in styles:
            out.append(("net", v, value, prefix, s))
        if free:
            out.append(("net", v, value | (free & 0x5), prefix, styles[0]))  # host bits set
    if v == 4:
        out.append(("wild", value, free))
        if free:
            out.append(("wild", value | free, free))  # bits under the wildcard do not matter
    return out


SPECIAL = [("any",), ("any4",), ("any6",), ("iface", "inside"), ("obj", "f", "fqdn", None), ("obj", "f4", "fqdn", "v4"),
           ("obj", "f6", "fqdn", "v6")]


def composites(v, low):
    """Objects and groups over a few addresses around one bit position."""
    base = {4: 0x0A000000, 6: 0x20010DB8 << 96}[v]
    bits = addr.BITS[v]
    one = 1 << low
    hosts = [base, base | one, base | 2 * one, base | 3 * one]
    objs = [("obj", "h", "host", v, hosts[1]), ("obj", "s", "subnet", v, hosts[2], bits - low),
            ("obj", "r", "range", v, hosts[1], hosts[2]), ("obj", "r2", "range", v, hosts[0] + 1, hosts[3] + 1),
            ("obj", "r3", "range", v, hosts[1] - 1, hosts[1])]
    leaf = [("host", v, hosts[0]), ("net", v, hosts[2], bits - low, "str"), ("any4",), ("any6",)] + objs
    groups = [("grp", "g", (a,)) for a in leaf]
    groups += [("grp", "g", p) for p in itertools.combinations(leaf, 2)]
    groups += [("grp", "o", (("grp", "i", (leaf[0],)), leaf[1])), ("grp", "o", (("grp", "i", (leaf[4], leaf[5])),)),
               ("grp", "o", (leaf[5], ("grp", "i", (("grp", "j", (leaf[6],)), leaf[0]))))]
    groups += [("grp", "x", (("any",), leaf[0]))]
    return objs + groups


def universe(v, low, width):
    out = []
    for below in (False, True) if low else (False,):
        for value, free in window(v, low, width, below):
            out.extend(terms_of(v, value, free, ("mask", "str", "int") if v == 4 else ("str", "int")))
    return list(dict.fromkeys(out))


def job(result, name, left, right):
    cache = {}

    def obj(t):
        if t not in cache:
            cache[t] = addr.build(t)
        return cache[t]

    for a in left:
        for b in right:
            want = addr.overlap(a, b)
            result.traces += 1
            result.transitions += 2
            result.state((sorted(map(repr, addr.patterns(a))), sorted(map(repr, addr.patterns(b)))))
            for x, y in ((a, b), (b, a)):
                s, got = guarded(lambda: bool(obj(x) & obj(y)), seconds=10)
                if s != "ok" or got != want:
                    result.violation(
                        f"{x} & {y}: have{'' if want else ' no'} address in common, the implementation says {got}",
                        {"a": x, "b": y}, want, got)
                    if result.full():
                        return
        result.outcome("left operands done")
    if left and not result.samples:
        result.samples.append({"a": left[0], "b": right[-1], "overlap": addr.overlap(left[0], right[-1])})


def selfcheck():
    """The reference itself, against enumeration of all addresses of a 5 bit space."""
    pats = [(v & c, c) for c in range(32) for v in range(32) if v & ~c == 0]
    sets = {p: {x for x in range(32) if x & p[1] == p[0]} for p in pats}
    n = 0
    for p in pats:
        for q in pats:
            assert addr._one((4, *p), (4, *q)) == bool(sets[p] & sets[q])
            n += 1
        for lo in range(0, 32, 3):
            for hi in range(lo, 32, 2):
                assert addr._pattern_in_range(lo, hi, p[0], p[1], 5) == any(lo <= x <= hi for x in sets[p])
                n += 1
    return n


def run(ctx):
    checked = selfcheck()
    jobs = []
    width = ctx.pick(3, 4)
    positions = [(4, 0), (4, 6), (4, 14), (4, 22), (4, 32 - width), (6, 0), (6, 62), (6, 126 - width)]
    if not ctx.quick:
        positions += [(4, p) for p in (3, 8, 16, 24, 27)] + [(6, p) for p in (30, 64, 96, 111)]
    everything = []
    for v, low in positions:
        u = universe(v, low, width)
        comp = composites(v, low if low < addr.BITS[v] - 4 else low - 4)
        right = u + comp + SPECIAL
        for i in range(0, len(right), 40):
            jobs.append((f"v{v} bits {low}..{low + width - 1}", right[i : i + 40], right))
        everything.append(u[:: max(1, len(u) // 24)] + comp[::3])
    # pairs whose interesting bits lie at different positions, and of different versions
    flat = [t for e in everything for t in e] + SPECIAL
    for i in range(0, len(flat), 60):
        jobs.append(("mixed", flat[i : i + 60], flat))
    ctx.bounds = {"window bits": width, "window positions": positions, "pairs of one window": "all",
                  "pairs across windows": f"all of {len(flat)} representatives", "reference checked on": checked}
    ctx.map(job, jobs)


def tup(x):
    return tuple(tup(i) for i in x) if isinstance(x, list) else x


def replay(result, p):
    job(result, "replay", [tup(p["a"])], [tup(p["b"])])
