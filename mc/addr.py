"""Reference semantics of address terms: finite unions of ternary patterns, decided by brute force.

term := ('host', v, value) | ('net', v, value, prefix, style) | ('wild', value, wildcard)
      | ('any',) | ('any4',) | ('any6',) | ('iface', name) | ('obj', name, kind, terms...) | ('grp', name, terms...)
"""
import ipaddress

BITS = {4: 32, 6: 128}


def ip(v, n):
    return str((ipaddress.IPv4Address if v == 4 else ipaddress.IPv6Address)(n))


def show(t):
    """Readable (and re-buildable) form of a term."""
    return t


def build(t):
    """The implementation's object for a term."""
    from acltk import aclObjects as A

    k = t[0]
    if k == "host":
        return A.NetworkHost(ip(t[1], t[2]))
    if k == "net":
        v, value, prefix, style = t[1:5]
        if style == "mask":
            full = (1 << BITS[v]) - 1
            return A.Network(ip(v, value), ip(v, full & ~((1 << (BITS[v] - prefix)) - 1)))
        return A.Network(ip(v, value), prefix if style == "int" else str(prefix))
    if k == "wild":
        return A.NetworkWildcard(ip(4, t[1]), ip(4, t[2]))
    if k == "any":
        return A.NetworkAny()
    if k == "any4":
        return A.NetworkAny4()
    if k == "any6":
        return A.NetworkAny6()
    if k == "iface":
        return A.NetworkInterface(t[1])
    if k == "obj":
        kind = t[2]
        if kind == "host":
            return A.NetworkObject(t[1], None, type="host", address=ip(t[3], t[4]))
        if kind == "subnet":
            v, value, prefix = t[3:6]
            full = (1 << BITS[v]) - 1
            m = prefix if v == 6 else ip(4, full & ~((1 << (32 - prefix)) - 1))
            return A.NetworkObject(t[1], None, type="subnet", address=ip(v, value), mask=m)
        if kind == "range":
            return A.NetworkObject(t[1], None, type="range", start=ip(t[3], t[4]), stop=ip(t[3], t[5]))
        if kind == "fqdn":
            return A.NetworkObject(t[1], None, type="fqdn", limit=t[3], fqdn="example.org")
    if k == "grp":
        g = A.NetworkGroup(t[1], None)
        for m in t[2]:
            g.add(build(m))
        return g
    raise ValueError(t)


def patterns(t):
    """Set of addresses of a term: [(version, value, care)] and the specials 'any', 'any4', 'any6'."""
    k = t[0]
    if k == "host":
        return [(t[1], t[2], (1 << BITS[t[1]]) - 1)]
    if k == "net":
        return [_net(t[1], t[2], t[3])]
    if k == "wild":
        care = ~t[2] & 0xFFFFFFFF
        return [(4, t[1] & care, care)]
    if k in ("any", "iface"):
        return ["any"]
    if k in ("any4", "any6"):
        return [k]
    if k == "obj":
        kind = t[2]
        if kind == "host":
            return [(t[3], t[4], (1 << BITS[t[3]]) - 1)]
        if kind == "subnet":
            return [_net(t[3], t[4], t[5])]
        if kind == "range":
            return [("range", t[3], t[4], t[5])]
        return [{None: "any", "v4": "any4", "v6": "any6"}[t[3]]]
    if k == "grp":
        return [p for m in t[2] for p in patterns(m)]
    raise ValueError(t)


def _net(v, value, prefix):
    care = ((1 << BITS[v]) - 1) & ~((1 << (BITS[v] - prefix)) - 1)
    return (v, value & care, care)


def _one(a, b):
    """Have two elements an address in common?"""
    if a == "any" or b == "any":
        return True
    if isinstance(a, str) or isinstance(b, str):
        return _version(a) == _version(b)
    if a[0] == "range" and b[0] == "range":
        return a[1] == b[1] and a[2] <= b[3] and b[2] <= a[3]
    if b[0] == "range":
        a, b = b, a
    if a[0] == "range":
        _, v, lo, hi = a
        if v != b[0]:
            return False
        return _pattern_in_range(lo, hi, b[1], b[2], BITS[v])
    return a[0] == b[0] and (a[1] ^ b[1]) & a[2] & b[2] == 0


def _version(a):
    if isinstance(a, str):
        return {"any4": 4, "any6": 6}[a]
    return a[1] if a[0] == "range" else a[0]


def _pattern_in_range(lo, hi, value, care, bits):
    """Is some address with (address & care) == value inside lo..hi?  Digit by digit."""

    def least(at_least):
        # the least address of the pattern which is >= at_least
        best = None
        full = (1 << bits) - 1
        smallest = value
        if smallest >= at_least:
            return smallest
        for i in range(bits):  # common prefix with at_least down to bit i, then 1 where it has 0
            high = at_least >> (i + 1) << (i + 1)
            if at_least >> i & 1:
                continue
            cand_high = high | (1 << i)
            mask = full & ~((1 << i) - 1)
            if (cand_high ^ value) & care & mask:
                continue
            c = cand_high | (value & ((1 << i) - 1))
            if best is None or c < best:
                best = c
        if (at_least ^ value) & care == 0:
            best = at_least
        return best

    x = least(lo)
    return x is not None and x <= hi


def overlap(a, b):
    return any(_one(x, y) for x in patterns(a) for y in patterns(b))
