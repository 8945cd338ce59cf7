"""Expanding, sorting and collapsing groups preserves what they stand for."""
import itertools

from .. import addr, canon
from ..asa import cidrs
from ..core import guarded

OPS = ("expand", "expand copy", "sort", "sort copy", "collapse", "collapse copy")


# --------------------------------------------------------------- members of network groups, as terms of mc.addr
def h(a, v=4):
    return ("host", v, {4: 0x0A000000, 6: 0x20010DB8 << 96}[v] + a)


def n(a, p, v=4):
    return ("net", v, {4: 0x0A000000, 6: 0x20010DB8 << 96}[v] + a, p, "str")


def network_members():
    obj = ("obj", "o", "range", 4, h(1)[2], h(6)[2])
    g = ("grp", "g", (h(3), n(4, 31)))
    return [h(0), h(1), h(2), n(0, 31), n(2, 31), n(0, 30), n(4, 30), ("net", 4, 0, 0, "str"), h(0, 6), n(0, 127, 6), n(2, 127, 6), h(3, 6),
            ("any",), ("any4",), ("any6",), obj, ("obj", "p", "host", 4, h(5)[2]),
            ("obj", "s", "subnet", 6, h(0, 6)[2], 126), ("obj", "f", "fqdn", None), ("obj", "f4", "fqdn", "v4"), g,
            ("grp", "gg", (g, ("any6",), obj)), ("grp", "g3", (("grp", "g2", (("grp", "g1", (h(7), n(0, 126, 6))),)),))]


def leaves(t):
    if t[0] == "grp":
        return [l for m in t[2] for l in leaves(m)]
    return [t]


def meaning_of_terms(ts):
    special, iv = set(), {4: [], 6: []}
    for t in ts:
        for p in addr.patterns(t):
            if isinstance(p, str):
                special.add(p)
            elif p[0] == "range":
                iv[p[1]].append((p[2], p[3]))
            else:
                v, value, care = p
                iv[v].append((value, value | (((1 << addr.BITS[v]) - 1) & ~care)))
    return normal(special, iv)


def merge(l):
    out = []
    for a, b in sorted(l):
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return tuple(out)


def normal(special, iv):
    r = {v: merge(iv[v]) for v in (4, 6)}
    s = tuple(sorted(special)) if "any" not in special else ("any",)
    if "any" in special or "any4" in special:
        r[4] = ()
    if "any" in special or "any6" in special:
        r[6] = ()
    return s, r[4], r[6]


def meaning_of_nodes(nodes):
    special, iv = set(), {4: [], 6: []}

    def go(c):
        if c[0] == "net":
            _, v, a, m, _ = c
            iv[v].append((a, a | (canon.FULL[v] & ~m)))
        elif c[0] in ("grp", "obj"):
            for x in c[2]:
                go(x)
        else:
            special.add(c[0])

    for c in nodes:
        go(c)
    return normal(special, iv)


def minimal(meaning):
    out = []
    for v, iv in ((4, meaning[1]), (6, meaning[2])):
        for a, b in iv:
            out.extend(cidrs(addr.ip(v, a), addr.ip(v, b)))
    return sorted(out)


class NetworkKind:
    name = "network"
    ops = OPS

    @staticmethod
    def members():
        return network_members()

    @staticmethod
    def build(term):
        return addr.build(term)

    @staticmethod
    def canonical(g):
        return tuple(canon.node(o) for o in g.objects)

    meaning = staticmethod(meaning_of_nodes)

    @staticmethod
    def containers(nodes):
        return [c for c in nodes if c[0] in ("grp", "obj")]

    @staticmethod
    def numbers(nodes):
        return [[c[2] for c in nodes if c[0] == "net"]]


# --------------------------------------------------------------- the other kinds
def _flat(c, tag):
    return [x for m in c for x in (_flat(m[-1], tag) if m[0] == tag else [m])]


def make(kind, t):
    from acltk import aclObjects as A

    if t[0] == "grp":
        cls = {"port": A.PortGroup, "service": A.ServiceGroup, "protocol": A.ProtocolGroup, "icmp": A.ICMPGroup}[kind]
        g = cls(t[1], A.Protocol("tcp"), "d " + t[1]) if kind == "port" else cls(t[1], "d " + t[1])
        for m in t[2]:
            g.add(make(kind, m))
        return g
    if t[0] == "port":
        return A.Port(t[1], t[2])
    if t[0] == "range":
        return A.PortRange(t[1], t[2])
    if t[0] == "proto":
        return A.Protocol(t[1])
    if t[0] == "icmp":
        return A.ICMP(t[1], t[2])
    kw = dict(protocol=A.Protocol(t[2]), src=make(kind, t[3]) if t[3] else None, dst=make(kind, t[4]) if t[4] else None,
              icmp_type=t[5], icmp_code=t[6])
    return A.ServiceObject(t[1], "d", **kw) if t[0] == "sobj" else A.Service(**kw)


class Listed:
    def __init__(self, name, pool, read, tag, ops):
        self.name, self.pool, self.read, self.tag, self.ops = name, pool, read, tag, ops

    def members(self):
        return self.pool

    def build(self, t):
        return make(self.name, t)

    def canonical(self, g):
        return tuple(self.read(o) for o in g.objects)

    def meaning(self, nodes):
        flat = _flat(nodes, self.tag)
        if self.name == "service":
            flat = [("svc",) + c[-5:] if c[0] == "sobj" else c for c in flat]
        return tuple(sorted(set(flat), key=repr))

    def containers(self, nodes):
        return [c for c in nodes if c[0] in (self.tag, "sobj")]

    def numbers(self, nodes):
        r = []
        for c in nodes:
            v = {"port": lambda: c[2], "range": lambda: c[1], "proto": lambda: c[1]}.get(c[0], lambda: None)()
            if isinstance(v, int):
                r.append(v)
        return [r] + ([] if self.name != "service" else self.service_numbers(nodes))

    @staticmethod
    def service_numbers(nodes):
        """The ports of services of one protocol which have ports on one side only."""
        sides = {}
        for c in nodes:
            if c[0] in ("svc", "sobj") and c[-2:] == (None, None) and (c[-4] is None) != (c[-3] is None):
                p = c[-4] or c[-3]
                v = p[2] if p[0] == "port" else p[1]
                if isinstance(v, int):
                    sides.setdefault((c[-5], c[-4] is None), []).append(v)
        return list(sides.values())


def grp(name, *m):
    return ("grp", name, m)


def svc(proto, src=None, dst=None, t=None, c=None):
    return ("svc", None, proto, src, dst, t, c)


_P = [("port", "eq", "80"), ("port", "eq", "9"), ("port", "eq", "10005"), ("port", "eq", "10001"), ("port", "eq", "www"), ("range", "20", "100"),
      ("range", "1000", "2000"), ("range", "ftp-data", "ftp")]
_S = [svc("tcp", None, _P[0]), svc("tcp", _P[1], None), svc("udp", _P[4], _P[0]), svc("tcp"), svc("47"), svc("icmp", None, None, "echo"),
      svc("icmp", None, None, "3", "1"), ("sobj", "so", "tcp", None, _P[0], None, None), ("sobj", "s2", "icmp", None, None, "echo", "0"),
      svc("tcp", None, _P[2]), svc("tcp", _P[3], None), svc("tcp", None, _P[5]),
      ("sobj", "s3", "udp", _P[1], None, None, None), ("sobj", "s4", "tcp", _P[4], _P[1], None, None)]
_R = [("proto", "tcp"), ("proto", "udp"), ("proto", "47"), ("proto", "9"), ("proto", "100")]
_I = [("icmp", "echo", None), ("icmp", "3", None), ("icmp", "3", "1"), ("icmp", "0", None)]
LIST = OPS[:4]


def nested(pool):
    a = grp("a", pool[0], pool[1])
    return pool + [a, grp("b", a, pool[2]), grp("c", grp("d", grp("e", pool[-1])))]


KINDS = {
    "network": NetworkKind,
    "port": Listed("port", nested(_P), canon.port, "pgrp", LIST),
    "service": Listed("service", nested(_S), canon.protocol, "sgrp", LIST),
    "protocol": Listed("protocol", nested(_R), canon.protocol, "protogrp", LIST),
    "icmp": Listed("icmp", nested(_I), canon.icmp, "icmpgrp", OPS[:2]),
}


# ---------------------------------------------------------------
def apply(g, op):
    m, _, copy = op.partition(" ")
    return getattr(g, m)(insitu=False) if copy else getattr(g, m)(insitu=True)


def trace(kind, term, sequence):
    """Run one sequence; -> description of the first wrong step, or None."""
    K = KINDS[kind]
    g = K.build(term)
    inner = [o for o in g.objects if hasattr(o, "objects") and hasattr(o, "expand")]
    inner_before = [K.canonical(o) for o in inner]
    want = K.meaning(K.canonical(g))
    expanded = False
    for step, op in enumerate(sequence):
        before = K.canonical(g)
        need = op == "collapse" and bool(K.containers(before))
        status, r = guarded(apply, g, op, seconds=10)
        after = K.canonical(g)
        where = f"step {step + 1} ({op})"
        if need:
            if status == "ok":
                return f"{where}: collapsing in place a group that is not expanded has to be refused"
            if after != before:
                return f"{where}: refused, but the group changed from {before} to {after}"
            return None
        if status != "ok":
            return f"{where}: {r}"
        if op.endswith("copy"):
            if r is g:
                return f"{where}: no copy was made"
            if after != before:
                return f"{where}: the original changed from {before} to {after}"
            if type(r) is not type(g) or r.name != g.name or r.description != g.description:
                return f"{where}: the copy is of another kind, name or description"
        elif r is not g:
            return f"{where}: not done in place"
        got = K.canonical(r)
        if K.meaning(got) != want:
            return f"{where}: stood for {want}, stands for {K.meaning(got)} now: {before} became {got}"
        if op in ("expand", "expand copy", "sort copy", "collapse copy") and K.containers(got):
            return f"{where}: {K.containers(got)} is not expanded"
        if op == "sort" and sorted(map(repr, before)) != sorted(map(repr, got)):
            return f"{where}: members {before} became {got}"
        if op.startswith("sort"):
            num = K.numbers(got)
            if any(l != sorted(l) for l in num):
                return f"{where}: not in ascending order: {got}"
        if op.startswith("collapse") and not want[0]:
            m = sorted(got)
            if m != minimal(want):
                return f"{where}: collapsed to {m}, the minimal list is {minimal(want)}"
        if [K.canonical(o) for o in inner] != inner_before:
            return f"{where}: a nested group changed"
        g = r
    return None


def job(result, kind, terms, depth):
    K = KINDS[kind]
    sequences = [s for d in range(1, depth + 1) for s in itertools.product(K.ops, repeat=d)]
    # longer sequences contain the shorter ones: only the maximal ones are run, a refused step ends one
    sequences = [s for s in sequences if len(s) == depth or (s[-1] == "collapse")]
    for t in terms:
        for s in sequences:
            d = trace(kind, t, s)
            result.traces += 1
            result.transitions += len(s)
            if d is not None:
                result.violation(f"{kind} group {t[2]}: {d}", {"kind": kind, "term": t, "sequence": s})
                if result.full():
                    return
        result.state((kind, t))
    result.outcome(kind, len(terms))
    result.samples.append({"group": str(terms[-1]), "sequence": s})


def run(ctx):
    for kind in KINDS:
        pool = KINDS[kind].members()
        top = 3 if kind == "network" or not ctx.quick else 2
        if kind == "icmp":
            top = 3
        depth = ctx.pick(2, 3)
        terms = []
        for size in range(1, top + 1):
            for m in itertools.product(pool, repeat=size):
                if size == 3 and ctx.quick and kind == "network" and list(m) != sorted(m, key=pool.index):
                    continue  # quick: the order of three members does not vary
                terms.append(("grp", "root", m))
        if not ctx.quick and kind == "network":
            terms += [("grp", "root", m) for m in itertools.combinations(pool, 4)]
        ctx.bounds[kind] = {"members": len(pool), "groups": len(terms), "operations": depth}
        ctx.map(job, [(kind, terms[i : i + 60], depth) for i in range(0, len(terms), 60)])


def tup(x):
    return tuple(tup(i) for i in x) if isinstance(x, list) else x


def replay(result, p):
    t, s = tup(p["term"]), tup(p["sequence"])
    d = trace(p["kind"], t, s)
    if d is not None:
        result.violation(d, p)
