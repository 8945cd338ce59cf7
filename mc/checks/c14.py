"""A filter by addresses selects exactly the NAT rules one of whose sides it touches."""
import itertools

from .. import cafref, impl
from ..core import guarded
from .c02 import POOL, h4, n4

DEFS = """interface Ethernet0/0
 nameif inside
interface Ethernet0/1
 nameif outside
object network oh
 host 10.1.2.3
object network on
 subnet 10.1.0.0 255.255.0.0
object network orr
 range 10.1.2.3 10.1.2.9
object network o6
 subnet 2001:db8::/32
object network oz
 host 192.168.1.1
object service sd
 service tcp destination eq 80
object service ss
 service udp source eq 53
object-group network g1
 network-object host 10.1.2.4
 network-object object o6
object-group network g2
 network-object 192.168.0.0 255.255.0.0
 group-object g1
"""
OH = ("obj", "oh", "host", 4, h4("10.1.2.3")[2])
ON = ("obj", "on", "subnet", 4, n4("10.1.0.0", 16)[2], 16)
OR = ("obj", "orr", "range", 4, h4("10.1.2.3")[2], h4("10.1.2.9")[2])
O6 = ("obj", "o6", "subnet", 6, n4("2001:db8::", 32)[2], 32)
OZ = ("obj", "oz", "host", 4, h4("192.168.1.1")[2])
G1 = ("grp", "g1", (h4("10.1.2.4"), O6))
G2 = ("grp", "g2", (n4("192.168.0.0", 16), G1))
NODES = [("oh", OH), ("on", ON), ("orr", OR), ("o6", O6), ("oz", OZ), ("g1", G1), ("g2", G2)]
ANY = ("any", ("any",))
IFACE = ("interface", ("iface", "outside"))
INTERFACES = ["(inside,outside)", "(any,outside)", "(inside,any)", "(any,any)", "(outside,inside)"]
DECORATIONS = [" service sd sd", " service ss ss", " no-proxy-arp route-lookup", " inactive", " service sd sd unidirectional", " description x y", " dns", " net-to-net"]
POOL_DECORATIONS = ["", " round-robin", " extended", " interface"]
OBJECT_DECORATIONS = {"dynamic": ["", " dns", " interface"], "dynamic pat-pool": ["", " round-robin"],
                      "static": ["", " dns", " service tcp 80 8080", " no-proxy-arp", " route-lookup", " no-proxy-arp route-lookup", " dns no-proxy-arp"]}


def world(full):
    """-> text, access-list rules, NAT rules as ((real source, real destination), (mapped source, mapped destination)) in order"""
    text, rules, sections = DEFS, [], {1: [], 2: [], 3: []}
    # source only: every pair of sides
    for n, ((a, x), (b, y)) in enumerate(itertools.product(NODES + [ANY], repeat=2)):
        text += f"nat (inside,outside) source static {a} {b}\n"
        sections[1].append(((x, None), (y, None)))
        if b == "any":
            continue
        after = n % 3 == 0
        fallback = n % 2 == 0
        text += f"nat (inside,outside){' after-auto' if after else ''} source dynamic {a} {b}{' interface' if fallback else ''}\n"
        sections[3 if after else 1].append(((x, None), (y, None)))
        # neither what stands behind the addresses nor the interfaces have an influence on the selection
        for i, deco in enumerate(DECORATIONS):
            if full or i == n % len(DECORATIONS):
                text += f"nat {INTERFACES[(n + i) % 5]} source static {a} {b}{deco}\n"
                sections[1].append(((x, None), (y, None)))
        for i, deco in enumerate(POOL_DECORATIONS):
            if full or i == n % len(POOL_DECORATIONS):
                text += f"nat {INTERFACES[(n + i) % 5]} source dynamic {a} pat-pool {b}{deco}\n"
                sections[1].append(((x, None), (y, None)))
    for n, (a, x) in enumerate(NODES + [ANY]):
        text += f"nat (inside,outside) source dynamic {a} interface{['', ' dns', ' inactive', ' description x'][n % 4]}\n"
        sections[1].append(((x, None), (IFACE[1], None)))
    # with a destination: the four sides from the nodes
    few = [NODES[i] for i in ((0, 1, 3, 4, 6) if full else (0, 3, 4, 6))]
    decorations = [""] + DECORATIONS
    n = 0
    for (a, w), (b, x), (c, y), (d, z) in itertools.product(few, repeat=4):
        n += 1
        for i, deco in enumerate(decorations):
            if full and i % 3 == n % 3 or not full and i == (n + n // len(decorations)) % len(decorations):
                after = (n // 3 + i) % 2
                text += f"nat (inside,outside){' after-auto' if after else ''} source static {a} {b} destination static {c} {d}{deco}\n"
                sections[3 if after else 1].append(((w, z), (x, y)))
    for (a, x), (b, y) in itertools.product(NODES, repeat=2):
        text += f"nat (inside,outside) after-auto source dynamic any interface destination static {a} {b}\n"
        sections[3].append(((ANY[1], y), (IFACE[1], x)))
        text += f"nat (inside,outside) source static {a} {b} destination static interface {a}\n"
        sections[1].append(((x, x), (y, ("iface", "x"))))
    # object NAT: any on both sides' destination
    i = 0
    for define, x in ((" host 10.1.2.3", OH), (" subnet 10.1.0.0 255.255.0.0", ON), (" range 10.1.2.3 10.1.2.9", OR), (" subnet 2001:db8::/32", O6)):
        for b, y in NODES + [("10.1.2.10", h4("10.1.2.10")), ("2001:db8:0:1::/64", n4("2001:db8:0:1::", 64)), IFACE]:
            dynamic, static = [(k, d) for k, l in OBJECT_DECORATIONS.items() for d in l][:5], [(k, d) for k, l in OBJECT_DECORATIONS.items() for d in l][5:]
            forms = dynamic + static if full else [dynamic[i % 5], static[i % 7], static[(i + 3) % 7]]
            for kind, deco in forms:
                if y == IFACE[1] and ("interface" in deco or "pat-pool" in kind) or "pat-pool" in kind and y[0] not in ("obj", "grp"):
                    continue
                i += 1
                text += f"object network n{i}\n{define}\n nat {INTERFACES[i % 5]} {kind} {b}{deco}\n"
                sections[2].append(((x, ("any",)), (y, ("any",))))
    for (a, x), (b, y) in itertools.product([("any", ("any",)), ("object oh", OH), ("object-group g2", G2)], repeat=2):
        text += f"access-list a extended permit ip {a} {b}\n"
        rules.append(("a", x, y))
    return text, rules, sections[1] + sections[2] + sections[3]


def side_matches(ast, side):
    """ast: a set of address clauses."""
    for d, t in (("src", side[0]), ("dst", side[1])):
        given = [f for it in ast[1] if it[0] == "ip" and it[1] == d for f in it[2]]
        if t is not None and given and not any(cafref.term_matches(f, t) for f in given):
            return False
    return True


def nat_matches(ast, n):
    if ast[0] == "set":
        if len(ast[1]) == 1 and ast[1][0][0] == "expr":
            return nat_matches(ast[1][0][1], n)
        return side_matches(ast, n[0]) or side_matches(ast, n[1])
    a, b = nat_matches(ast[1], n), nat_matches(ast[2], n)
    return {"union": a or b, "intersect": a and b, "except": a and not b}[ast[0]]


def filters(full):
    for d in ("src", "dst"):
        for a in POOL:
            yield ["ip", d, a]
    for a, b in itertools.product(POOL if full else POOL[::2] + ["ANY", "10.1.2.4", "2001:db8::1"], repeat=2):
        yield ["ip", "src", a, "ip", "dst", b]
        if full:
            yield ["ip", "src", a, b]
            yield ["ip", "dst", a, "ip", "dst", b]
    leaves = [["ip", "src", "10.1.2.3"], ["ip", "dst", "10.1.2.0/24"], ["ip", "src", "192.168.1.1", "ip", "dst", "2001:db8::/32"],
              ["ip", "dst", "ANY"], ["ip", "src", "172.16.0.0/12", "192.168.0.0/16"]]
    for a, b in itertools.product(leaves, repeat=2):
        for op in cafref.OPS:
            yield a + [op] + b
            for c in leaves[:3] if full else leaves[:2]:
                for op2 in cafref.OPS:
                    yield a + [op] + b + [op2] + c
                    yield ["("] + a + [op] + b + [")", op2] + c


def judge(config, rules, nats, tokens):
    want = cafref.read(tokens)
    assert want and want[0], tokens
    status, got = guarded(impl.run_filter, config, cafref.text(tokens), seconds=30)
    if status != "ok":
        return "failed", got
    all_ = list(config.rules.rules) + [n for p in (1, 2, 3) for n in config.nat[p]]
    index = {id(r): i for i, r in enumerate(all_)}
    try:
        got = {index[id(r)] for r in got}
    except KeyError:
        return "wrong", "selected something that is no rule of the configuration"
    exp = set(cafref.select(want[1], rules)) | {len(rules) + i for i, n in enumerate(nats) if nat_matches(want[1], n)}
    if got != exp:
        show = lambda s: ", ".join(str((rules + nats)[i]) for i in sorted(s)[:2])
        return "wrong", f"not selected: [{show(exp - got)}] wrongly selected: [{show(got - exp)}]"
    n = sum(1 for i in exp if i >= len(rules))
    return f"selected {'all' if n == len(nats) else 'no' if not n else 'some'} NAT rules", None


def job(result, group, full):
    text, rules, nats = world(full)
    config = impl.parse("asa", text)
    if [len(config.rules.rules), sum(len(config.nat[p]) for p in (1, 2, 3))] != [len(rules), len(nats)]:
        result.violation("the configuration under the filters lost rules", {"full": full, "tokens": group[0]})
        return
    for tokens in group:
        outcome, d = judge(config, rules, nats, tokens)
        result.traces += 1
        result.transitions += len(tokens)
        result.state(tuple(tokens))
        result.outcome(outcome)
        if d is not None:
            result.violation(f"{cafref.text(tokens)}: {d}", {"full": full, "tokens": tokens})
            if result.full():
                return
    result.samples.append({"filter": cafref.text(tokens), "outcome": outcome})


def run(ctx):
    fs = list(filters(not ctx.quick))
    text, rules, nats = world(not ctx.quick)
    ctx.bounds = {"filters": len(fs), "NAT rules": len(nats), "access-list rules": len(rules)}
    ctx.batches(job, fs, (len(fs) + 15) // 16, not ctx.quick)


def replay(result, p):
    job(result, [p["tokens"]], p["full"])
