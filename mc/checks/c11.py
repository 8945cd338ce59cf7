"""Network objects, groups and names hold exactly the addresses written."""
import itertools

from .. import addr, configs
from ..asa import Asa, host, subnet
from ..canon import net
from ..ios import Ios, member, prefix

SLICES = ("network_objects", "groups", "names")
V4 = ["0.0.0.0", "0.0.0.1", "1.0.0.0", "9.99.199.249", "10.0.0.0", "127.255.255.255", "128.0.0.0", "192.0.2.200", "223.250.99.0",
      "224.0.0.5", "250.251.252.253", "255.255.255.254", "255.255.255.255", "100.10.1.0", "20.30.210.249", "19.190.119.109"]
V6 = ["::", "::1", "2001:db8::1", "2001:DB8:0:0:1::F", "fe80::1:2:3:4", "1:2:3:4:5:6:7:8", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff",
      "::ffff:192.0.2.1", "64:ff9b::192.0.2.33", "a::", "0:0:0:0:0:0:0:0"]


def ranges(window, bases):
    for v, base in bases:
        for a in range(window):
            for b in range(a, window):
                yield addr.ip(v, base + a), addr.ip(v, base + b)


def objects(quick):
    """case(model, i)"""
    for a in V4 + V6:
        for d in (None, "a host", "two  blanks "):
            yield lambda m, i, a=a, d=d: m.object_network(f"o{i}", "host", a, description=d)
    for a in V4 if not quick else V4[::3]:
        for p in range(33):
            yield lambda m, i, a=a, p=p: m.object_network(f"o{i}", "subnet", a, p)
    for a in V6 if not quick else V6[1:4]:
        for p in range(129) if not quick else (0, 1, 7, 8, 9, 31, 32, 33, 48, 63, 64, 65, 96, 99, 100, 101, 119, 127, 128):
            yield lambda m, i, a=a, p=p: m.object_network(f"o{i}", "subnet", a, p, description="d" if p % 2 else None)
    w = 32 if quick else 100
    bases = [(4, 0x0A000000), (4, 0x0A0000FA), (4, 0x0AFFFFF9), (4, 2**31 - 7), (4, 2**32 - w), (4, 0), (6, 0x20010DB8 << 96),
             (6, 2**128 - w), (6, (0x20010DB8 << 96) + 2**64 - 9)]
    for a, b in ranges(w, bases):
        yield lambda m, i, a=a, b=b: m.object_network(f"o{i}", "range", a, b)
    for a, b in (("0.0.0.0", "255.255.255.255"), ("0.0.0.1", "255.255.255.254"), ("::", "ffff:" * 7 + "ffff"), ("::1", "::ffff:ffff:fffe"),
                 ("9.255.255.255", "11.0.0.0")):
        yield lambda m, i, a=a, b=b: m.object_network(f"o{i}", "range", a, b, description="r")
    for limit in (None, "v4", "v6"):
        for f in ("example.org", "www.v4.example.org", "v4", "v6.example", "a", "x-1.example.org", "*.example.org"):
            for d in (None, "d"):
                yield lambda m, i, l=limit, f=f, d=d: m.object_network(f"o{i}", "fqdn", l, f, description=d)
    for n in ("a", "A-b_c.d", "host", "any", "network", "0", "x+y", "10.0.0.1", "range", "object"):
        yield lambda m, i, n=n: m.object_network(f"{n}", "host", "10.0.0.1")
    yield lambda m, i: m.object_network(f"o{i}", None)
    for a, h in itertools.product(V4[::4] + V6[1:4], ("h", "h-1.x", "_h", "description")):
        for d in (None, "d", "two words  x"):
            yield lambda m, i, a=a, h=h, d=d: m.name(a, f"{h}{i}" if h != "description" else h, d)


def world():
    m = Asa()
    m.name("192.0.2.10", "srv")
    m.name("2001:db8:9::9", "srv6")
    m.object_network("obj", "host", "10.2.0.1")
    m.object_network("objr", "range", "10.2.0.1", "10.2.0.6", description="r")
    m.group("network", "base", [("network-object host 10.4.0.1", net("10.4.0.1"))], description="b")
    m.group("network", "base2", [("network-object 10.0.0.0 255.0.0.0", net("10.0.0.0/8")), group_member(m, "base")])
    return m


def group_member(m, n):
    return f"group-object {n}", m.groups["network"][n]


def members(m):
    no = lambda t: (f"network-object {t[0]}", t[1])
    s6 = m.named("srv6", 64)
    return [no(host("10.0.0.1")), no(subnet("10.1.0.0", 16)), no(subnet("10.1.2.3", 24)), no(host("2001:db8::1")), no(subnet("2001:db8::", 32)),
            no(m.obj("obj")), no(m.obj("objr")), no(m.named("srv")), no(m.named("srv", 24)), no(m.named("srv6")), no(s6),
            group_member(m, "base"), group_member(m, "base2"), no(subnet("0.0.0.0", 0))]


def asa_groups(top):
    n = len(members(world()))
    for size in range(0, top + 1):
        for pick in itertools.product(range(n), repeat=size):
            for d in (None, "words and more") if size < 3 else (None,):
                def case(m, i, pick=pick, d=d):
                    ms = members(m)
                    m.group("network", f"g{i}", [ms[p] for p in pick], description=d)
                yield case
    for a in V4 + V6:
        yield lambda m, i, a=a: m.group("network", f"g{i}", [(f"network-object host {a}", net(a))])
    for p in range(33):
        for a in V4[3:10:3]:
            yield lambda m, i, a=a, p=p: m.group("network", f"g{i}", [("network-object " + subnet(a, p)[0], net(f"{a}/{p}"))])
    for p in range(33):
        yield lambda m, i, p=p: m.group("network", f"g{i}", [("network-object srv " + m.named("srv", p)[0].split(" ", 1)[1], m.named("srv", p)[1])])
    for p in range(129):
        yield lambda m, i, p=p: m.group("network", f"g{i}", [(f"network-object srv6/{p}", m.named("srv6", p)[1])])
    for p in range(129):
        yield lambda m, i, p=p: m.group("network", f"g{i}", [(f"network-object 2001:db8:1:2:3:4:5:6/{p}", net(f"2001:db8:1:2:3:4:5:6/{p}"))])


def ios_world():
    m = Ios()
    m.group("network", "base", [("host 10.4.0.1", net("10.4.0.1"))], description="b")
    m.group("network", "base2", [member("10.0.0.0", "255.0.0.0"), ("group-object base", m.groups["network"]["base"])])
    return m


def ios_members(m):
    return [("host 10.0.0.1", net("10.0.0.1")), member("10.1.0.0", "255.255.0.0"), member("10.1.2.3", "255.255.255.0"),
            ("host 2001:db8::1", net("2001:db8::1")), prefix("2001:db8::", 32),
            ("group-object base", m.groups["network"]["base"]), ("group-object base2", m.groups["network"]["base2"])]


def ios_groups(top):
    n = len(ios_members(ios_world()))
    for size in range(1, top + 1):
        for pick in itertools.product(range(n), repeat=size):
            for d in (None, "words and more"):
                def case(m, i, pick=pick, d=d):
                    ms = ios_members(m)
                    m.group("network", f"g{i}", [ms[p] for p in pick], description=d)
                yield case
    for a in V4:
        yield lambda m, i, a=a: m.group("network", f"g{i}", [(f"host {a}", net(a))])
    for p in range(33):
        mask = addr.ip(4, (2**32 - 1) & ~((1 << (32 - p)) - 1))
        yield lambda m, i, k=mask: m.group("network", f"g{i}", [member("203.0.113.77", k)])


KINDS = {"objects": ("asa", Asa, SLICES, lambda q: objects(q)),
         "groups": ("asa", world, SLICES, lambda q: asa_groups(3)),
         "ios groups": ("ios", ios_world, ("groups",), lambda q: ios_groups(3 if q else 4))}


def job(result, kind, quick, lo, hi):
    dialect, new, slices, cases = KINDS[kind]
    configs.check_events(result, dialect, new, list(itertools.islice(cases(quick), lo, hi)), slices, kind)
    if not lo:
        m = new()
        next(itertools.islice(cases(quick), 1, None))(m, 0)
        result.samples.append(m.text[-200:])


def run(ctx):
    jobs = []
    for kind, (_, _, _, cases) in KINDS.items():
        n = sum(1 for _ in cases(ctx.quick))
        ctx.bounds[kind] = n
        jobs += [(kind, ctx.quick, lo, min(n, lo + 40)) for lo in range(0, n, 40)]
    ctx.map(job, jobs)


replay = configs.replay
