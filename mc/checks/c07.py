"""Resolving a selection yields exactly what it refers to."""
import itertools

from .. import asa as asa_
from .. import canon, impl, worlds
from ..asa import ANY, host, icmp, log, op, proto, subnet, timed
from ..canon import net
from ..core import guarded


def asa():
    m = worlds.asa_world()
    svc = lambda n: m.sobj(n)
    g = lambda kind, n: (f"object-group {n}", m.groups[kind][n])
    hosts = [m.obj("net"), m.obj("net10"), m.obj("net-1"), m.grp("grp"), m.grp("grp1"), m.grp("grp-1"), m.named("srv"),
             m.named("srv-1", 28), m.named("srv6"), host("10.0.0.9"), subnet("10.0.0.0", 24), ("interface outside", ("iface", "outside"))]
    for a in hosts:
        m.rule("A", "permit", proto("ip"), a, ANY)
        m.rule("B", "permit", proto("tcp"), ANY, a, None, op("eq", 80))
    for p in ("ports", "ports1"):
        m.rule("A", "permit", proto("tcp"), ANY, ANY, None, g("port", p))
        m.rule("A", "deny", proto("udp"), m.grp("grp1"), m.obj("net1"), g("port", "xgp"), g("port", p))
    for s in ("svc", "svc1"):
        m.rule("B", "permit", svc(s), ANY, m.obj("net6"))
    for kind, n in (("service", "sg"), ("service", "sg1"), ("protocol", "pg"), ("protocol", "pg1")):
        m.rule("C", "permit", g(kind, n), m.grp("xg"), ANY)
    for n in ("ig", "ig1"):
        m.rule("C", "permit", proto("icmp"), ANY, ANY, icmp=g("icmp", n))
    m.rule("C", "permit", proto("icmp6"), ANY, ANY, icmp=icmp("echo"))
    m.rule("D", "permit", proto("ip"), ANY, ANY, options=(timed(m.time["tr"]),))
    m.rule("D", "permit", proto("tcp"), m.obj("x"), m.obj("net1"), op("eq", 1), op("eq", 2), options=(timed(m.time["tr-1"]),))
    # every kind of group three levels deep, an object at the bottom where there is one
    leaf = {"network": ("network-object host 10.6.0.%d", lambda n: net(f"10.6.0.{n}")), "port": ("port-object eq %d", lambda n: ("port", "eq", n)),
            "service": ("service-object tcp destination eq %d", lambda n: ("svc", ("proto", "tcp"), None, ("port", "eq", n), None, None)),
            "protocol": ("protocol-object %d", lambda n: ("proto", n)), "icmp": ("icmp-object %d", lambda n: ("icmp", n, None))}
    for kind, (text, value) in leaf.items():
        inner = [(text % 1, value(1))]
        if kind == "network":
            inner.append(("network-object object net10", m.obj("net10")[1]))
        if kind == "service":
            inner.append(("service-object object svc1", m.sobj("svc1")[1]))
        for level in (1, 2, 3):
            m.group(kind, f"{kind}-l{level}", inner, proto="tcp")
            inner = [(text % (10 * level), value(10 * level)), (f"group-object {kind}-l{level}", m.groups[kind][f"{kind}-l{level}"])]
            inner = inner if level % 2 else inner[::-1]
    for n in ("l1", "l2", "l3"):
        m.rule("E", "permit", proto("ip"), m.grp("network-" + n), ANY)
        m.rule("E", "permit", proto("tcp"), ANY, m.grp("network-" + n), g("port", "port-" + n), None)
        m.rule("F", "permit", g("service", "service-" + n), ANY, ANY)
        m.rule("F", "permit", g("protocol", "protocol-" + n), m.grp("network-l2"), ANY)
        m.rule("F", "permit", proto("icmp"), ANY, ANY, icmp=g("icmp", "icmp-" + n))
    tr = timed(m.time["tr"])
    for o in [(log(), tr), (tr, log()), (asa_.INACTIVE, tr), (tr, asa_.INACTIVE), (log("critical", "interval 300"), timed(m.time["tr-1"]), asa_.INACTIVE)]:
        m.rule("G", "permit", proto("udp"), ANY, m.obj("net1"), options=o)
    m.access_group("A", "in", "inside")
    m.access_group("A", "out", "inside2")
    m.access_group("B", "in", "outside")
    m.access_group("D", "in", "inside2")
    m.text += (
        "nat (inside,outside) source static net net1\n"
        "nat (inside,outside) source dynamic grp pat-pool grp1 interface\n"
        "nat (inside,any) source static net net destination static grp1 net10 service svc svc\n"
        "nat (inside,outside) after-auto source dynamic any interface\n"
        "object network onat\n host 10.77.0.1\n nat (inside,outside) static net1 service tcp www 8080\n"
        "object network onat2\n subnet 10.78.0.0 255.255.0.0\n nat (inside2,outside) dynamic grp-1 interface\n"
    )
    return m.text


IOS = """interface Gi0/1
 ip address 10.0.0.1 255.255.255.0
 ip access-group 101 in
!
interface Gi0/2
 ip address 10.0.1.1 255.255.255.0
 ip access-group L in
 ip access-group 101 out
!
object-group network g1
 host 10.1.0.1
 10.2.0.0 255.255.0.0
!
object-group network g2
 group-object g1
 host 10.3.0.1
!
object-group service s1
 tcp destination eq 80
 udp source gt 1023 destination eq 53
!
ip access-list extended L
 permit ip object-group g1 any
 permit object-group s1 object-group g2 host 10.9.9.9
 deny tcp any eq 80 10.8.0.0 0.0.0.255 range 1 2
 permit icmp any any echo
!
access-list 101 permit tcp any host 10.1.1.1 eq www
access-list 101 deny ip 10.0.0.1 0.0.255.0 any
access-list 7 permit host 10.4.4.4
"""
PF = """<pfsense><system><hostname>h</hostname><domain>d</domain></system>
<aliases><alias><name>hosts</name><type>host</type><address>10.0.0.1 10.0.0.2</address><descr/></alias>
<alias><name>nets</name><type>network</type><address>10.1.0.0/16</address><descr/></alias>
<alias><name>ports</name><type>port</type><address>80 90:99</address><descr/></alias></aliases>
<interfaces><wan><if>em0</if><ipaddr>dhcp</ipaddr></wan><lan><if>em1</if><ipaddr>10.0.0.1</ipaddr><subnet>24</subnet></lan></interfaces>
<filter>%s</filter></pfsense>"""


def pf():
    rules = ""
    for s, d in itertools.product(("<any/>", "<address>hosts</address>", "<address>nets</address><port>ports</port>", "<address>10.9.9.9</address>",
                                   "<network>lan</network>"), repeat=2):
        rules += (f"<rule><type>pass</type><interface>wan</interface><protocol>tcp</protocol><source>{s}</source>"
                  f"<destination>{d}</destination><descr/></rule>")
    rules += ("<rule><type>pass</type><interface>lan</interface><protocol>icmp</protocol><icmptype>echoreq</icmptype>"
              "<source><any/></source><destination><any/></destination><descr/></rule>")
    return PF % rules


def ios():
    return IOS


WORLDS = {"asa": asa, "ios": ios, "pf": pf}


def references(config, o):
    """What one thing refers to: (must be in the result, may be in the result)."""
    k = canon.kinds(o)
    if "ACLRule" in k:
        r = [o.protocol, o.src.host, o.src.port, o.dst.host, o.dst.port, o.icmp]
        r += [v for v in o.options.values() if "TimeRange" in canon.kinds(v)]
        r += list(config.access_groups.get(o.id, ()))
        return r, []
    if "NATObject" in k:
        r, may = [], []
        for side in (o.real, o.mapped):
            r += [side.iface, side.service] + [x.node for x in (side.src, side.dst) if x]
            may += [side.src and getattr(getattr(side.src, "fallback", None), "interface", None)]
        return r, may
    if "_Group" in k:
        return list(o.objects), []
    if "NetworkObject" in k:
        return [], list(o.addresses)
    if "Service" in k:
        return [], [o.protocol, o.src, o.dst]
    if "InterfaceAccessGroup" in k:
        return [o.iface], []
    t = getattr(o, "target", None)
    return ([t] if t is not None else []), []


def closure(config, selection):
    must, may = {}, {}
    todo = list(selection)
    while todo:
        o = todo.pop()
        if o is None or isinstance(o, str) or id(o) in must:
            continue
        must[id(o)] = o
        r, m = references(config, o)
        todo += r
        may.update((id(x), x) for x in m)
    return must, may


def differs(config, selection):
    must, may = closure(config, selection)
    status, got = guarded(lambda: impl._quiet(config.resolve, set(selection)), seconds=20)
    if status != "ok":
        return str(got)
    have = {id(o): o for o in got if o is not None and not isinstance(o, str)}
    lost = [must[i] for i in must if i not in have]
    extra = [have[i] for i in have if i not in must and i not in may]
    if lost or extra:
        return f"missing: {lost[:4]} not referred to: {extra[:4]}"
    return None


def everything(config):
    return list(config.rules.rules) + [n for p in (1, 2, 3) for n in config.nat[p]]


def job(result, world, subsets):
    config = impl.parse(world, WORLDS[world]())
    all_ = everything(config)
    for s in subsets:
        d = differs(config, [all_[i] for i in s])
        result.traces += 1
        result.transitions += len(s)
        result.state((world, s))
        if d is not None:
            result.violation(f"{world} {[repr(all_[i]) for i in s]}: {d}"[:1500], {"world": world, "subset": list(s)})
            if result.full():
                return
    result.outcome(world, len(subsets))
    result.samples.append({"world": world, "selection": [repr(all_[i]) for i in s][:3]})


def run(ctx):
    for w in WORLDS:
        status, config = guarded(lambda: impl.parse(w, WORLDS[w]()))
        if status != "ok":
            ctx.total.violation(f"{w}: {config}", {"world": w, "subset": [0]})
            continue
        n = len(everything(config))
        subsets = [()] + [c for k in range(1, ctx.pick(2, 3) + 1) for c in itertools.combinations(range(n), k)]
        subsets += [tuple(j for j in range(n) if j != i) for i in range(n)] + [tuple(range(n))]
        ctx.bounds[w] = {"rules and NAT rules": n, "selections": len(subsets)}
        ctx.map(job, [(w, subsets[i::16]) for i in range(16)])


def replay(result, p):
    job(result, p["world"], [tuple(p["subset"])])
