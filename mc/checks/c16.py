"""IOS interfaces, routes and VLAN lists are read as written."""
import itertools

from .. import configs
from ..asa import mask
from ..ios import Ios

SLICES = ("interfaces", "access_groups", "routes", "header")
ALIASES = ["GigabitEthernet0/1", "GigabitEthernet0/0.100", "Vlan1", "Port-channel1.20", "Loopback0", "Tunnel100", "Serial0/0/0:15"]
V4 = [("ip", "10.0.0.1", "255.255.255.0"), ("ip", "10.0.1.1", "255.255.255.0", "secondary"), ("ip", "0.0.0.1", "128.0.0.0"),
      ("ip", "255.255.255.254", "255.255.255.255"), ("ip", "172.16.99.249", "255.255.255.252")]
V6 = [("ipv6", "2001:db8::1", 64), ("ipv6", "FE80::1", None), ("ipv6", "::1", 128), ("ipv6", "2001:DB8:1:2:3:4:5:6", 0)]
DESC = [("description", t) for t in ("uplink", "to the world, 10 MBit", "ip address 1.1.1.1 255.0.0.0", "x  y ", "!", "switchport mode trunk")]
GROUPS = [("access-group", "101", "in"), ("access-group", "acl-1.x", "out"), ("traffic-filter", "six", "in"), ("traffic-filter", "s6_2", "out")]
NOISE = ["no ip address", "shutdown", "no shutdown", "duplex auto", "ip address dhcp", "ip nat inside", "ip access-group", "ipv6 enable",
         "ipv6 nd ra suppress", "spanning-tree portfast", "switchport access vlan 3", "switchport trunk native vlan 7", "speed 100 ",
         "switchport", "switchport nonegotiate", "switchport trunk encapsulation dot1q", "no switchport", "encapsulation dot1Q 5"]
VLAN_ITEMS = [1, 20, 4094, (2, 5), (100, 200)]


def sections(quick):
    core = [V4[0], V6[0], DESC[0], GROUPS[0], GROUPS[2], NOISE[0]]
    for n in range(len(core) + (0 if quick else 1)):
        yield from itertools.permutations(core, n)
    groups = [V4, V6, DESC, GROUPS, NOISE]
    every = [x for g in groups for x in g]
    for x, y in itertools.product(every, repeat=2):
        if x is not y:
            yield x, y
    for x in every:
        yield x,
    for a, b, c in itertools.permutations(V4[:3] + V6[:3], 3):
        yield a, b, c
    for a, b in itertools.product(("in", "out"), repeat=2):
        for k, l in itertools.product(("access-group", "traffic-filter"), repeat=2):
            yield (k, "a", a), (l, "b", b)  # the last one of a kind and direction holds
    for p in range(1, 33):
        yield ("ip", "10.1.2.3", mask(p)),
    for p in range(129):
        yield ("ipv6", "2001:db8:ffff:ffff:8000::1", p),


def vlan_sections(depth, quick):
    """Sequences of switchport commands."""
    lists = [tuple(VLAN_ITEMS[:1]), (1, (2, 5)), ((100, 200), 20, 4094)]
    cmds = [("mode", "access"), ("mode", "trunk")] + [(k, l) for k in ("vlans", "add") for l in lists] + [
        "switchport trunk native vlan 7", ("description", "d")]
    for n in range(1, depth + 1):
        yield from itertools.product(cmds, repeat=n)
    for n in range(1, 4 if quick else 5):
        for l in itertools.permutations(VLAN_ITEMS, n):
            yield ("mode", "trunk"), ("vlans", l)
            yield ("vlans", l[:1]), ("add", l)


def section_cases(quick):
    for details in itertools.chain(sections(quick), vlan_sections(3 if quick else 4, quick)):
        yield lambda m, i, d=details: m.interface(f"FastEthernet1/{i}", *d)
    for a in ALIASES:
        for d in ((), (V4[0],)):
            for e in ("", "!\n"):
                def case(m, i, a=a, d=d, e=e):
                    m.interface(f"{a}{i}", *d)
                    m.text += e
                yield case


# -- routes: all sets of up to n routes over interfaces with several addresses
def routers():
    def small(m):
        m.interface("GigabitEthernet0/1", V4[0], ("ip", "10.0.1.1", "255.255.255.0", "secondary"), V6[0])
        m.interface("GigabitEthernet0/10", ("ip", "10.0.2.1", "255.255.255.252"))
        m.interface("GigabitEthernet0/1.1", "no ip address")

    def nested(m):
        m.interface("Vlan1", ("ip", "10.0.0.1", "255.255.0.0"))
        m.interface("Vlan10", ("ip", "10.0.0.2", "255.255.255.0"), ("ip", "10.0.1.2", "255.255.255.0", "secondary"))
        m.interface("Vlan100", ("ipv6", "::ffff:10.0.0.0", 96))

    return [small, nested]


def gateways(m):
    return ["10.0.0.9", "10.0.1.9", "10.0.2.2", "10.0.2.4", "192.0.2.1", "0.0.0.0"] + list(m.interfaces)


NETS = [("0.0.0.0", "0.0.0.0"), ("192.0.2.0", "255.255.255.0"), ("198.51.100.1", "255.255.255.255"), ("10.0.0.0", "255.0.0.0")]
REST = ["", " 200", " name x", " permanent", " track 1", " 5 name x track 3", " tag 9", " 10.0.0.9", " dhcp"]


def route_sets(top):
    m = Ios()
    routers()[0](m)
    n = len(gateways(m))
    for r in range(len(routers())):
        for p in range(len(NETS)):
            for g in range(n):
                for e in range(len(REST)):
                    yield r, ((p, g, e),)
        for k in range(2, top + 1):
            for gs in itertools.product(range(n), repeat=k):
                yield r, tuple((i % len(NETS), g, (i + g) % len(REST)) for i, g in enumerate(gs))


def route_job(result, sets):
    for r, routes in sets:
        m = Ios()
        routers()[r](m)
        g = gateways(m)
        for p, gw, e in routes:
            m.route(*NETS[p], g[gw], REST[e])
        configs.check(result, "ios", m.text, m.state("interfaces", "routes"), "routes", events=len(routes))
        if result.full():
            return
    result.samples.append(m.text)


# -- sequences of commands
def events(m):
    return [
        lambda: m.interface("Vlan1", V4[0], ("access-group", "101", "in")),
        lambda: m.interface("Vlan10", ("ip", "10.0.0.2", "255.255.255.0"), ("access-group", "101", "out"), ("description", "d")),
        lambda: m.interface("Vlan100", "shutdown", ("traffic-filter", "101", "in"), ("mode", "trunk"), ("vlans", (1, (3, 4)))),
        lambda: m.route("192.0.2.0", "255.255.255.0", "10.0.0.9"),
        lambda: m.route("0.0.0.0", "0.0.0.0", "Vlan1", " 5"),
        lambda: m.route("10.9.0.0", "255.255.0.0", "Vlan10"),
        lambda: m.header("rtr-1", None),
        lambda: m.header(None, "example.org"),
        lambda: m.raw("!\n"),
        lambda: m.raw("ip forward-protocol nd\n"),
        lambda: m.group("network", "Vlan1", [("host 10.0.0.7", ("net", 4, 0x0A000007, 2**32 - 1, None))]),
        lambda: (m.named("extended", "x"), m.rule("permit", ("ip any any", {"protocol": ("proto", "ip"), "src": ("any",), "dst": ("any",)}))),
        lambda: m.header("rtr.lab.example", None),
    ]


NEEDS = {4: 0, 5: 1}
ONCE = {0, 1, 2, 6, 7, 10, 11, 12}


def sequences(depth):
    n = len(events(Ios()))

    def go(prefix):
        if prefix:
            yield prefix
        if len(prefix) == depth:
            return
        for e in range(n):
            if e in ONCE and e in prefix or e in NEEDS and NEEDS[e] not in prefix:
                continue
            yield from go(prefix + (e,))

    return go(())


def sequence_job(result, seqs):
    for s in seqs:
        m = Ios()
        ev = events(m)
        for e in s:
            ev[e]()
        configs.check(result, "ios", m.text, m.state(*SLICES, "groups", "rules"), "sequence", events=len(s))
        if result.full():
            return


def section_job(result, quick, lo, hi):
    cases = list(itertools.islice(section_cases(quick), lo, hi))
    configs.check_events(result, "ios", Ios, cases, SLICES, "interface section")
    if lo == 0:
        m = Ios()
        cases[-1](m, 0)
        result.samples.append(m.text)


def run(ctx):
    n = sum(1 for _ in section_cases(ctx.quick))
    ctx.bounds["interface sections"] = n
    ctx.map(section_job, [(ctx.quick, lo, min(n, lo + 100)) for lo in range(0, n, 100)])
    top = ctx.pick(2, 3)
    sets = list(route_sets(top))
    ctx.bounds["route sets"] = {"routes": top, "sets": len(sets)}
    ctx.batches(route_job, sets, 60)
    depth = ctx.pick(3, 4)
    seqs = list(sequences(depth))
    ctx.bounds["sequences"] = {"depth": depth, "sequences": len(seqs)}
    ctx.batches(sequence_job, seqs, 60)


replay = configs.replay
