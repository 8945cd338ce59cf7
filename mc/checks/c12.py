"""Service, port, protocol and ICMP definitions are read as written."""
import itertools

from .. import canon, configs
from ..asa import Asa, op, rng, service
from ..ios import Ios
from ..vocab import ICMP, PORTS, PROTOCOLS

SLICES = ("service_objects", "groups")
OPS = ("eq", "gt", "lt", "neq")
NUMBERS = [0, 1, 9, 10, 79, 80, 99, 100, 255, 256, 999, 1000, 1023, 9999, 10000, 32768, 65534, 65535]
TCP = ("tcp", "udp", "tcp-udp")


def ports():
    return list(PORTS) + NUMBERS


def sides(full):
    """Alternatives for one side of a service."""
    out = [None]
    out += [op(o, p) for o in OPS for p in (("www", "ftp-data", 80, 65535) if not full else ports())]
    out += [rng(1, 2), rng(9, 10), rng(80, 443), rng(1023, 65535), rng("ftp-data", "ftp"), rng(999, 1000), rng(0, 65535)]
    return out


def services(full):
    """-> argument tuples of a service"""
    for p in TCP:
        for s, d in itertools.product(sides(False), repeat=2):
            yield (p, s, d)
    for p in TCP:
        for s in sides(True)[1:]:
            yield (p, s, None)
            yield (p, None, s)
    pairs = list(itertools.product(NUMBERS, repeat=2))
    for a, b in pairs:
        if a < b:
            yield ("tcp", None, rng(a, b))
            yield ("udp", rng(a, b), None)
    for p in ("icmp", "icmp6"):
        yield (p,)
        for t in list(ICMP) + list(range(256) if full else (0, 1, 3, 8, 9, 10, 13, 99, 100, 128, 254, 255)):
            for c in (None, 0, 1, 9, 15, 99, 100, 255):
                yield (p, None, None, t, c)


def obj_case(a, d):
    return lambda m, i: m.object_service(f"o{i}", *a, description=d)


def grp_case(kind, build, d=None, proto=None):
    def case(m, i):
        m.group(kind, f"g{i}", build(m), description=d, proto=proto)
    return case


def objects(full):
    for i, a in enumerate(services(full)):
        yield obj_case(a, (None, "words of it")[i % 2])
    for p in range(256):
        yield obj_case((p,), None)


def service_groups(full):
    for a in services(full):
        yield grp_case("service", lambda m, a=a: [service(*a)])
    for p in PROTOCOLS:
        yield grp_case("service", lambda m, p=p: [service(p)])
    for p in range(256):
        yield grp_case("service", lambda m, p=p: [service(p)])
    n = len(service_members(world()))
    for size in range(0, 4 if full else 3):
        for pick in itertools.product(range(n), repeat=size):
            yield grp_case("service", lambda m, pick=pick: [service_members(m)[p] for p in pick], "d e f" if size != 1 else None)


def service_members(m):
    return [service("tcp", None, op("eq", 443)), service("udp", op("gt", 53), rng(10, 20)), service("tcp-udp"), service("icmp"),
            service("icmp6", None, None, "echo", 2), service("ip"), service(47), ref(m, "service-object object", "so"), ref(m, "service-object object", "so2"),
            ("group-object base", m.groups["service"]["base"]), ("group-object base2", m.groups["service"]["base2"])]


def ref(m, text, n):
    return f"{text} {n}", m.sobj(n)[1]


def world():
    m = Asa()
    m.object_service("so", "tcp", None, op("eq", 25))
    m.object_service("so2", "icmp", icmp_type="echo", description="x")
    m.group("service", "base", [service("tcp", None, op("eq", 1))])
    m.group("service", "base2", [service("udp"), ("group-object base", m.groups["service"]["base"])], description="d")
    m.group("port", "pbase", [pm("eq", 7)], proto="tcp")
    m.group("port", "pbase2", [pm("range", 8, 10), ("group-object pbase", m.groups["port"]["pbase"])], proto="tcp")
    m.group("protocol", "rbase", [prm("tcp")])
    m.group("protocol", "rbase2", [prm(17), ("group-object rbase", m.groups["protocol"]["rbase"])])
    m.group("icmp", "ibase", [im("echo")])
    m.group("icmp", "ibase2", [im(3), ("group-object ibase", m.groups["icmp"]["ibase"])])
    return m


def pm(o, *a):
    t, c = op(o, *a) if o == "eq" else rng(*a)
    return f"port-object {t}", c


def prm(p):
    return f"protocol-object {p}", ("proto", canon.number(p))


def im(t):
    return f"icmp-object {t}", ("icmp", canon.number(t), None)


def port_groups(full):
    for proto in TCP:
        for p in ports():
            yield grp_case("port", lambda m, p=p: [pm("eq", p)], proto=proto)
        for a, b in itertools.product(NUMBERS, repeat=2):
            if a < b:
                yield grp_case("port", lambda m, a=a, b=b: [pm("range", a, b)], "d", proto)
        for a, b in (("ftp-data", "ftp"), ("pop2", "pop3"), ("www", "https")):
            yield grp_case("port", lambda m, a=a, b=b: [pm("range", a, b)], None, proto)
        pool = lambda m: [pm("eq", 80), pm("eq", "domain"), pm("range", 90, 100), ("group-object pbase", m.groups["port"]["pbase"]),
                          ("group-object pbase2", m.groups["port"]["pbase2"])]
        for size in range(0, 4):
            for pick in itertools.product(range(5), repeat=size):
                yield grp_case("port", lambda m, pick=pick: [pool(m)[p] for p in pick], "d e" if size == 2 else None, proto)
    if full:
        for p in range(0, 65536, 251):
            yield grp_case("port", lambda m, p=p: [pm("eq", p)], proto="tcp")


def small_groups(full):
    for p in list(PROTOCOLS) + list(range(256)):
        yield grp_case("protocol", lambda m, p=p: [prm(p)])
    for t in list(ICMP) + list(range(256)):
        yield grp_case("icmp", lambda m, t=t: [im(t)])
    rp = lambda m: [prm("tcp"), prm("ip"), prm(47), prm(0), ("group-object rbase", m.groups["protocol"]["rbase"]),
                    ("group-object rbase2", m.groups["protocol"]["rbase2"])]
    ip = lambda m: [im("echo"), im("echo-reply"), im(3), im(0), ("group-object ibase", m.groups["icmp"]["ibase"]),
                    ("group-object ibase2", m.groups["icmp"]["ibase2"])]
    for size in range(0, 4):
        for pick in itertools.product(range(6), repeat=size):
            for d in (None, "d e"):
                yield grp_case("protocol", lambda m, pick=pick: [rp(m)[p] for p in pick], d)
                yield grp_case("icmp", lambda m, pick=pick: [ip(m)[p] for p in pick], d)


# ---------------------------------------------------------------- IOS: members without the keyword
def ios_service(a):
    t, c = service(*a)
    return t.split(" ", 1)[1], c


def ios_world():
    m = Ios()
    m.group("service", "base", [ios_service(("tcp", None, op("eq", 1)))])
    m.group("service", "base2", [ios_service(("udp",)), ("group-object base", m.groups["service"]["base"])], description="d")
    return m


def ios_services(full):
    def g(build, d=None):
        return lambda m, i: m.group("service", f"g{i}", build(m), description=d)

    for a in services(full):
        yield g(lambda m, a=a: [ios_service(a)])
    for p in list(PROTOCOLS) + list(range(256)):
        yield g(lambda m, p=p: [ios_service((p,))], "d")
    pool = lambda m: [ios_service(("tcp", None, op("eq", 443))), ios_service(("udp", op("gt", 53), rng(10, 20))), ios_service(("icmp", None, None, "echo")),
                      ios_service((47,)), ios_service(("ip",)), ("group-object base", m.groups["service"]["base"]), ("group-object base2", m.groups["service"]["base2"])]
    for size in range(1, 4):
        for pick in itertools.product(range(7), repeat=size):
            yield g(lambda m, pick=pick: [pool(m)[p] for p in pick])


KINDS = {"objects": ("asa", world, objects), "service groups": ("asa", world, service_groups), "port groups": ("asa", world, port_groups),
         "protocol and icmp groups": ("asa", world, small_groups), "ios service groups": ("ios", ios_world, ios_services)}


def job(result, kind, full, lo, hi):
    dialect, new, cases = KINDS[kind]
    slices = SLICES if dialect == "asa" else ("groups",)
    configs.check_events(result, dialect, new, list(itertools.islice(cases(full), lo, hi)), slices, kind)
    if not lo:
        m = new()
        next(itertools.islice(cases(full), 1, None))(m, 0)
        result.samples.append(m.text[-200:])


def run(ctx):
    jobs = []
    for kind, (_, _, cases) in KINDS.items():
        n = sum(1 for _ in cases(not ctx.quick))
        ctx.bounds[kind] = n
        jobs += [(kind, not ctx.quick, lo, min(n, lo + 60)) for lo in range(0, n, 60)]
    ctx.map(job, jobs)


replay = configs.replay
