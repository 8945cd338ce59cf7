"""ASA interfaces, access-groups, names and header are read as written, in whatever order."""
import itertools

from .. import configs
from ..asa import ANY, Asa, mask, proto

SLICES = ("interfaces", "access_groups", "names", "header", "rules")
ALIASES = ["Ethernet0/0", "GigabitEthernet0/0.100", "Vlan1", "Port-channel1.20", "Management0/0", "inside", "eth-x_1"]
NAMEIFS = ["inside", "inside2", "out-side", "a.b", "_x", "dmz_1"]
V4 = [("ip", "10.0.0.1", "255.255.255.0", None), ("ip", "10.0.0.1", "255.255.255.0", "10.0.0.2"), ("ip", "0.0.0.1", "128.0.0.0", None),
      ("ip", "255.255.255.254", "255.255.255.255", None), ("ip", "172.16.99.249", "255.255.255.252", "172.16.99.250")]
V6 = [("ipv6", "2001:db8::1", 64, None), ("ipv6", "2001:db8::1", 64, "2001:db8::2"), ("ipv6", "fe80::1", 10, None), ("ipv6", "::1", 128, None),
      ("ipv6", "2001:DB8:1:2:3:4:5:6", 0, None)]
DESC = [("description", t) for t in ("uplink", "to the world, 10 MBit", "nameif inside", "x  y ", "ip address 1.1.1.1 255.0.0.0", "!")]
NOISE = ["no ip address", "no nameif", "security-level 100", "shutdown", "no shutdown", "vlan 3", "speed 100", "ip address dhcp setroute",
         "ipv6 enable", "ospf cost 10", "no security-level", "management-only", "channel-group 1 mode active", "ip addres", "duplex full "]


def sections(quick):
    nameif = ("nameif", "inside")
    core = [nameif, V4[0], V6[0], DESC[0], NOISE[0], NOISE[2]]
    for n in range(len(core) + (0 if quick else 1)):
        for p in itertools.permutations(core, n):
            yield p
    alts = [[("nameif", n) for n in NAMEIFS], V4, V6, DESC, NOISE]
    for group in alts:
        for x in group:
            yield (x,)
            yield (nameif, x)
            for y in V4 + V6:
                if y is not x:
                    yield (x, y)
                    yield (y, x)
    for x, y in itertools.product(NOISE, repeat=2):
        yield (x, nameif, y, V4[1], V6[1])
    for a, b, c in itertools.permutations(V4[:4] + V6[:3], 3):
        yield (nameif, a, b, c)
    for p in range(1, 33):
        yield (("ip", "10.1.2.3", mask(p), None),)
    for p in range(129):
        yield (("ipv6", "2001:db8:ffff:ffff:8000::1", p, None),)


def section_cases(quick):
    for details in sections(quick):
        yield lambda m, i, d=details: m.section(f"Ethernet0/{i}", *d)
    for a in ALIASES:
        for d in ((), (("nameif", "n"), V4[0])):
            for e in ("", "!\n"):
                def case(m, i, a=a, d=d, e=e):
                    m.section(f"{a}{i}", *d)
                    m.text += e
                yield case


# -- sequences of commands
def events(m):
    out = [
        lambda: m.section("Ethernet0/0", ("nameif", "inside"), V4[0]),
        lambda: m.section("Ethernet0/1", V4[1], ("nameif", "inside2")),
        lambda: m.section("inside", ("nameif", "outside"), V6[1]),
        lambda: m.section("Ethernet0/2", "no nameif", "shutdown"),
    ]
    for acl, d, n in (("acl", "in", "inside"), ("acl", "out", "inside"), ("acl", "in", "inside2"), ("acl-2", "in", "outside"),
                      ("acl-2", "out", "inside2"), ("x", "in", "nowhere")):
        out.append(lambda acl=acl, d=d, n=n: m.access_group(acl, d, n))
    out += [
        lambda: m.say("access-group g global"),
        lambda: m.header("fw-1", None),
        lambda: m.header(None, "example.org"),
        lambda: m.name("192.0.2.1", "inside"),
        lambda: m.name("2001:db8::9", "acl", "a description"),
        lambda: m.rule("acl", "permit", proto("ip"), ANY, ANY),
        lambda: m.object_network("inside", "host", "10.0.0.7"),
        lambda: m.say("!"),
        lambda: m.header("fw.lab.example", None),
    ]
    return out


NEEDS = {4: 0, 5: 0, 6: 1, 7: 2, 8: 1}  # an access-group follows the interface it names
ONCE = set(range(10)) | {16}


def sequences(depth):
    n = len(events(Asa()))
    def go(prefix):
        if prefix:
            yield prefix
        if len(prefix) == depth:
            return
        for e in range(n):
            if e in ONCE and e in prefix or e in NEEDS and NEEDS[e] not in prefix:
                continue
            yield from go(prefix + (e,))
    return go(())


def sequence_job(result, seqs):
    for s in seqs:
        m = Asa()
        ev = events(m)
        for e in s:
            ev[e]()
        configs.check(result, "asa", m.text, m.state(*SLICES, "network_objects"), "sequence", events=len(s))
        if result.full():
            return


def section_job(result, quick, lo, hi):
    cases = list(itertools.islice(section_cases(quick), lo, hi))
    configs.check_events(result, "asa", Asa, cases, SLICES, "interface section")
    if lo == 0:
        m = Asa()
        cases[-1](m, 0)
        result.samples.append(m.text)


def bindings_job(result, lo, hi, n):
    """All assignments of access lists to the directions of n interfaces."""
    acls = [None, "a", "a1", "b"]
    slots = [(i, d) for i in range(n) for d in ("in", "out")]
    for pick in itertools.islice(itertools.product(acls, repeat=len(slots)), lo, hi):
        m = Asa()
        for i in range(n):
            m.section(f"Ethernet0/{i}", ("nameif", ["in", "in2", "out"][i]), V4[i])
        for (i, d), a in reversed(list(zip(slots, pick))):
            if a:
                m.access_group(a, d, ["in", "in2", "out"][i])
        configs.check(result, "asa", m.text, m.state("interfaces", "access_groups"), "bindings", events=sum(1 for a in pick if a))
        if result.full():
            return


def run(ctx):
    n = sum(1 for _ in section_cases(ctx.quick))
    ctx.bounds["interface sections"] = n
    ctx.map(section_job, [(ctx.quick, lo, min(n, lo + 100)) for lo in range(0, n, 100)])
    depth = ctx.pick(3, 4)
    seqs = list(sequences(depth))
    ctx.bounds["sequences"] = {"depth": depth, "sequences": len(seqs)}
    ctx.batches(sequence_job, seqs, 100)
    k = ctx.pick(2, 3)
    ctx.bounds["bindings"] = {"interfaces": k, "assignments": 4 ** (2 * k)}
    ctx.map(bindings_job, [(lo, lo + 64, k) for lo in range(0, 4 ** (2 * k), 64)])


replay = configs.replay
