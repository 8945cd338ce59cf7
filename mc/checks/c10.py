"""Every reference is bound to the definition of exactly that name and kind, or rejected."""
import itertools
import os

from .. import configs
from ..asa import ANY, Asa, host, op, proto
from ..canon import net
from ..ios import Ios
from .. import ios as iosmod

# names which are prefixes of one another, differ in case only, or match one another as patterns
FAMILY = ["x", "x-x", "xx", "x.x", "X", "x-", "x_x", "x1", "xax", "x-x-x"]
PLUS = ["x+", "x+x"]
MASK = "255.255.255.0"


def chain(step):
    """A name of 130 characters and its beginnings: names which agree in any number of characters."""
    letters = "abcdefghij-klmnop_qrstuvw.xyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
    name = (letters * 3)[:130]
    return [name[:i] for i in (1, 2, 3, *range(4, 66, step), 66, 96, 128, 130)]


def base():
    m = Asa()
    m.interface("Ethernet0/0", "inside")
    m.interface("Ethernet0/1", "outside")
    m.object_network("ozz", "host", "10.99.0.1")
    m.object_network("ozy", "host", "10.99.0.2")
    m.object_service("szd", "tcp", None, op("eq", 99))
    m.object_service("szs", "tcp", op("eq", 99), None)
    return m


# names which start like a word of the language
WORDY = """any1 any-x any4x any4-x any6x host1 host-x hosts object1 object-x object-groupx object-group-x interface1 interface-x range1 range-x eq1 eq-x neq-x lt1 gt-x tcp1
tcp-x tcp-udpx udp-x icmp1 icmp-x icmp6-x ip1 ip-x log1 log-x inactive1 inactive-x time-range1 time-range-x permit-x deny-x remark-x source-x destination-x service-x
static-x dynamic-x pat-poolx pat-pool-x dns-x unidirectional-x no-proxy-arp-x description-x standby-x network-x extended-x www-x http1 echo-x daily-x a--b""".split()


# -- definitions: (model, name, number)
def d_netobj(m, n, j):
    m.object_network(n, "host", f"10.0.0.{j + 1}")


def d_netgrp(m, n, j):
    m.group("network", n, [(f"network-object host 10.1.0.{j + 1}", net(f"10.1.0.{j + 1}"))])


def d_svcobj(m, n, j):
    m.object_service(n, "tcp", None, op("eq", 1000 + j))


def d_svcobj_src(m, n, j):
    m.object_service(n, "tcp", op("eq", 1000 + j), None)


def d_svcgrp(m, n, j):
    m.group("service", n, [(f"service-object tcp destination eq {j + 1}", ("svc", ("proto", "tcp"), None, ("port", "eq", j + 1), None, None))])


def d_portgrp(m, n, j):
    m.group("port", n, [(f"port-object eq {j + 1}", ("port", "eq", j + 1))], proto="tcp")


def d_protogrp(m, n, j):
    m.group("protocol", n, [(f"protocol-object {j + 1}", ("proto", j + 1))])


def d_icmpgrp(m, n, j):
    m.group("icmp", n, [(f"icmp-object {j + 1}", ("icmp", j + 1, None))])


def d_name(m, n, j):
    m.name(f"10.2.0.{j + 1}", n)


def d_name6(m, n, j):
    m.name(f"2001:db8::{j + 1}", n)


def d_time(m, n, j):
    m.time_range(n, (f"periodic daily {j}:00 to 23:00", ("periodic", ("daily",), (j, 0), None, (23, 0))))


def d_iface(m, n, j):
    m.section(f"Ethernet1/{j}", ("nameif", n))


def d_alias(m, n, j):
    m.section(n)


# -- what a name stands for; of a name that is not defined only the text matters
def v(table, name, wrap=lambda n, x: x):
    return wrap(name, table[name]) if name in table else ("undefined", name)


def netobj(m, n):
    return f"object {n}", v(m.netobj, n, lambda n, x: ("obj", n, x))


def group(kind):
    return lambda m, n: (f"object-group {n}", v(m.groups[kind], n))


def svcobj(m, n):
    return f"object {n}", v(m.svcobj, n, lambda n, x: ("sobj", n) + x)


def address(m, n):
    return next((a[1] for a in m.names if a[0] == n), "10.77.0.7")


def bare(t):
    return t[0].split()[-1], t[1]


def rule(**kw):
    def f(m, a):
        d = dict(proto=proto("tcp"), src=ANY, dst=ANY)
        d.update({k: x for k, x in kw.items()})
        m.rule("a", "permit", d.pop("proto"), d.pop("src"), d.pop("dst"), **d)

    return f


def node_contexts(term, member_word):
    """Places where a network object or group may stand."""
    ozz = lambda m: ("ozz", ("obj", "ozz", m.netobj["ozz"]))
    ozy = lambda m: ("ozy", ("obj", "ozy", m.netobj["ozy"]))

    def member(m, n):
        t = term(m, n)
        m.group("network", f"member-{n}", [(f"{member_word} " + (t[0] if member_word == "network-object" else n), t[1])])

    return {
        "source": lambda m, n: rule(src=term(m, n))(m, 0),
        "destination": lambda m, n: rule(dst=term(m, n))(m, 0),
        "source and destination with ports": lambda m, n: rule(src=term(m, n), dst=term(m, n), sport=op("eq", 1), dport=op("eq", 2))(m, 0),
        "icmp source": lambda m, n: rule(proto=proto("icmp"), src=term(m, n))(m, 0),
        "icmp destination": lambda m, n: rule(proto=proto("icmp"), dst=term(m, n))(m, 0),
        "standard": lambda m, n: m.standard("s", "permit", term(m, n)),
        "webtype": lambda m, n: m.webtype("w", "permit", ("tcp", term(m, n), None)),
        "group member": member,
        "nat real": lambda m, n: m.twice_nat("inside", "outside", "static", bare(term(m, n)), ozz(m)),
        "nat mapped": lambda m, n: m.twice_nat("inside", "outside", "static", ozz(m), bare(term(m, n))),
        "dynamic nat mapped": lambda m, n: m.twice_nat("inside", "outside", "dynamic", ozz(m), bare(term(m, n)), "interface"),
        "nat pool": lambda m, n: m.twice_nat("inside", "outside", "dynamic", ANY, ("pat-pool " + n, term(m, n)[1]), after="after-auto"),
        "nat mapped destination": lambda m, n: m.twice_nat("inside", "outside", "static", ozz(m), ozy(m), dst=(bare(term(m, n)), ozz(m))),
        "nat real destination": lambda m, n: m.twice_nat("inside", "outside", "static", ozz(m), ozy(m), dst=(ozz(m), bare(term(m, n)))),
        "object nat": lambda m, n: m.object_nat(f"nat-{n}", "inside", "outside", "static", bare(term(m, n)), type="host", args=("10.98.0.1",)),
        "object nat pool": lambda m, n: m.object_nat(f"pool-{n}", "inside", "outside", "dynamic", ("pat-pool " + n, term(m, n)[1]), type="host", args=("10.98.0.2",)),
    }


def nested(kind, word="group-object"):
    return lambda m, n: m.group(kind, f"member-{n}", [(f"{word} {n}", v(m.groups[kind], n))], **({"proto": "tcp"} if kind == "port" else {}))


def name_host(m, n):
    return f"host {n}", net(address(m, n), n)


def name_mask(m, n):
    return f"{n} {MASK}", net(f"{address(m, n)}/24", n)


def name_len(m, n):
    a = address(m, n)
    return f"{n}/64", net(f"{a if ':' in a else '2001::'}/64", n)


def named_members(*terms):
    def f(m, n):
        m.group("network", f"named-{n}", [("network-object " + t(m, n)[0], t(m, n)[1]) for t in terms])

    return f


def service_pair(m, n, other, static):
    val = lambda k: (("proto", m.svcobj[k][0][1]),) + m.svcobj[k][1:] if k in m.svcobj else ("undefined",)
    src, dst = ("ozz", ("obj", "ozz", m.netobj["ozz"])), ("ozy", ("obj", "ozy", m.netobj["ozy"]))
    for a, b in ((n, other), (other, n)):
        # of a pair of destinations the first is the mapped one, of a pair of sources the real one
        real, mapped = (a, b) if other == "szs" else (b, a)
        m.twice_nat("inside", "outside", "static" if static else "dynamic", src, dst, service=(f"{a} {b}", val(real), val(mapped)))


def nat_iface(place):
    def f(m, n):
        src, dst = ("ozz", ("obj", "ozz", m.netobj["ozz"])), ("ozy", ("obj", "ozy", m.netobj["ozy"]))
        if place == "real":
            m.twice_nat(n, "outside", "static", src, dst)
        elif place == "mapped":
            m.twice_nat("inside", n, "static", src, dst, after="after-auto")
        elif place == "keyword":
            m.twice_nat("inside", n, "dynamic", src, ("interface", "interface"))
        elif place == "fallback":
            m.twice_nat("inside", n, "dynamic", src, dst, "interface")
        else:
            m.object_nat(f"nat-{n}", n if place == "object real" else "any", n if place == "object mapped" else "any", "static", dst, type="host", args=("10.98.0.1",))

    return f


KINDS = {
    "network object": (d_netobj, node_contexts(netobj, "network-object"), FAMILY + PLUS),
    "network group": (d_netgrp, node_contexts(group("network"), "group-object"), FAMILY + PLUS),
    "service object": (d_svcobj, {
        "protocol": lambda m, n: rule(proto=svcobj(m, n))(m, 0),
        "protocol of an address pair": lambda m, n: rule(proto=svcobj(m, n), src=host("10.3.0.1"), dst=host("10.3.0.2"))(m, 0),
        "group member": lambda m, n: m.group("service", f"member-{n}", [("service-object object " + n, svcobj(m, n)[1])]),
        "static nat": lambda m, n: service_pair(m, n, "szd", True),
        "dynamic nat": lambda m, n: service_pair(m, n, "szd", False),
    }, FAMILY + PLUS),
    "source service object": (d_svcobj_src, {"static nat": lambda m, n: service_pair(m, n, "szs", True)}, FAMILY),
    "service group": (d_svcgrp, {
        "protocol": lambda m, n: rule(proto=group("service")(m, n))(m, 0),
        "group member": nested("service"),
    }, FAMILY + PLUS),
    "port group": (d_portgrp, {
        "source port": lambda m, n: rule(sport=group("port")(m, n))(m, 0),
        "destination port": lambda m, n: rule(dport=group("port")(m, n))(m, 0),
        "both ports": lambda m, n: rule(sport=group("port")(m, n), dport=group("port")(m, n))(m, 0),
        "webtype port": lambda m, n: m.webtype("w", "permit", ("tcp", ANY, group("port")(m, n))),
        "group member": nested("port"),
    }, FAMILY + PLUS),
    "protocol group": (d_protogrp, {
        "protocol": lambda m, n: rule(proto=group("protocol")(m, n))(m, 0),
        "group member": nested("protocol"),
    }, FAMILY + PLUS),
    "icmp group": (d_icmpgrp, {
        "icmp type": lambda m, n: rule(proto=proto("icmp"), icmp=group("icmp")(m, n))(m, 0),
        "group member": nested("icmp"),
    }, FAMILY + PLUS),
    "name": (d_name, {
        "host": lambda m, n: rule(src=name_host(m, n), dst=name_host(m, n))(m, 0),
        "icmp host": lambda m, n: rule(proto=proto("icmp"), src=name_host(m, n), dst=name_host(m, n))(m, 0),
        "network": lambda m, n: rule(src=name_mask(m, n), dst=name_mask(m, n))(m, 0),
        "standard": lambda m, n: m.standard("s", "permit", name_mask(m, n)),
        "group host": named_members(name_host),
        "group network": named_members(name_mask),
    }, FAMILY),
    "IPv6 name": (d_name6, {
        "host": lambda m, n: rule(src=name_host(m, n), dst=name_host(m, n))(m, 0),
        "network": lambda m, n: rule(src=name_len(m, n), dst=name_len(m, n))(m, 0),
        "group host": named_members(name_host),
        "group network": named_members(name_len),
    }, FAMILY),
    "time range": (d_time, {
        "option": lambda m, n: rule(options=((f"time-range {n}", ("time-range", v(m.time, n))),))(m, 0),
    }, FAMILY + PLUS),
    "interface": (d_iface, {p: nat_iface(p) for p in ("real", "mapped", "keyword", "fallback", "object real", "object mapped")}, FAMILY + ["any-x", "any1"]),
    "unnamed interface": (d_alias, {p: nat_iface(p) for p in ("real", "mapped", "object real", "object mapped")}, FAMILY + ["any-x", "any1"]),
}
# definitions of the same names that are of another kind
DECOYS = {
    "network object": [d_netgrp, d_svcobj, d_name, d_time, d_iface],
    "network group": [d_netobj, d_svcgrp, d_portgrp, d_name, d_time],
    "service object": [d_netobj, d_svcgrp, d_protogrp, d_time],
    "service group": [d_svcobj, d_netgrp, d_icmpgrp, d_time],
    "port group": [d_svcobj, d_netgrp, d_icmpgrp, d_protogrp],
    "protocol group": [d_svcobj, d_netgrp, d_icmpgrp, d_portgrp],
    # a group of ports would be read as the port of the destination
    "icmp group": [d_netgrp, d_svcobj, d_protogrp],
    "name": [d_netobj, d_netgrp, d_time, d_iface],
    "time range": [d_netobj, d_netgrp, d_svcobj, d_iface],
    "interface": [d_netobj, d_netgrp, d_name, d_time],
}
SLICES = ("rules", "groups", "nat", "network_objects", "service_objects", "time")


def text_of(context, m, n):
    k = Asa()
    k.__dict__.update({a: b.copy() if hasattr(b, "copy") else b for a, b in m.__dict__.items()})
    k.netobj = dict(m.netobj)
    k.nat = {p: list(r) for p, r in m.nat.items()}
    k.groups = {p: dict(r) for p, r in m.groups.items()}
    k.group_desc = {p: dict(r) for p, r in m.group_desc.items()}
    k.text = ""
    context(k, n)
    return k.text


def shared(a, b):
    return os.path.commonprefix([a, b])


def asa_job(result, kind, sets, singles, few):
    define, contexts, family = KINDS[kind]
    for names in sets:
        m = base()
        for j, n in enumerate(names):
            define(m, n, j)
        before = m.text
        absent = [n for n in family if n not in names]
        # all references to what is defined, in one configuration
        lines = [(c, n) for c in contexts for n in names]
        for c, n in lines:
            contexts[c](m, n)
        ok = configs.check(result, "asa", m.text, m.state(*SLICES), f"{kind}: {', '.join(names)}")
        if not ok and result.full():
            return
        # every reference to what is not defined
        # of sets of names: the names which are closest to a defined one
        absent.sort(key=lambda n: -max(len(shared(n, d)) for d in names))
        for n in absent if singles else absent[:few]:
            for c in contexts:
                k = base()
                for j, d in enumerate(names):
                    define(k, d, j)
                configs.check(result, "asa", before + text_of(contexts[c], k, n), configs.REJECTED, f"{kind}: {c} {n}, defined: {', '.join(names)}")
                if result.full():
                    return
    result.samples.append({"kind": kind, "text": m.text})


def decoy_job(result, kind, count):
    """The name is defined, but as something else; or only after its use."""
    define, contexts, family = KINDS[kind]
    for n in family[:count]:
        for c in contexts:
            for d in DECOYS.get(kind, []):
                m = base()
                if n in PLUS and d is d_name or "nat" in c and d in (d_netobj, d_netgrp):
                    continue  # NAT takes objects and groups alike
                define(m, "zz", 9)
                d(m, n, 0)
                configs.check(result, "asa", m.text + text_of(contexts[c], m, n), configs.REJECTED, f"{kind}: {c} {n}, which is something else")
            m = base()
            define(m, "zz", 9)
            use = text_of(contexts[c], m, n)
            k = base()
            define(k, n, 0)
            define(m, n, 0)
            later = k.text[len(base().text):]
            configs.check(result, "asa", base().text + use + later, configs.REJECTED, f"{kind}: {c} {n}, which is defined later")
            if result.full():
                return


def namesake_job(result, kind, count):
    """Things of other kinds have the same name, defined before, after, or both.

    Group names share one name space on an ASA, so a group of ports or services is no namesake of a group of networks:
    the rule could be read both ways.
    """
    define, contexts, family = KINDS[kind]
    for n in family[:count]:
        for d in DECOYS.get(kind, []):
            if n in PLUS and d is d_name:
                continue
            usable = [c for c in contexts if not ("nat" in c and d in (d_netobj, d_netgrp) or d in (d_portgrp, d_svcgrp) and kind == "network group")]
            for order in (("define", "decoy"), ("decoy", "define"), ("decoy", "define", "another decoy")):
                m = base()
                if len(order) == 3 and d is d_iface:
                    continue
                for step in order:
                    if step == "define":
                        define(m, n, 0)
                    elif step == "decoy":
                        d(m, n, 1)
                    else:
                        next(o for o in DECOYS[kind] if o is not d and o not in (d_portgrp, d_svcgrp) and not (n in PLUS and o is d_name))(m, n, 2)
                        usable = [c for c in usable if "nat" not in c]
                for c in usable:
                    contexts[c](m, n)
                configs.check(result, "asa", m.text, m.state(*SLICES), f"{kind} {n} and {d.__name__[2:]} of the same name, {order}")
                if result.full():
                    return


# -- IOS
def i_netgrp(m, n, j):
    m.group("network", n, [(f"host 10.1.0.{j + 1}", net(f"10.1.0.{j + 1}"))])


def i_svcgrp(m, n, j):
    m.group("service", n, [(f"tcp destination eq {j + 1}", ("svc", ("proto", "tcp"), None, ("port", "eq", j + 1), None, None))])


def i_iface(m, n, j):
    m.interface(n, ("ip", f"10.3.{j}.1", MASK))


def i_rule(style, **kw):
    def f(m, a):
        d = dict(proto=iosmod_proto("tcp"), src=iosmod.ANY, dst=iosmod.ANY)
        d.update(kw)
        body = iosmod.extended(d["proto"], d["src"], d["dst"], d.get("sport"), d.get("dport"))
        if style == "named":
            m.named("extended", "acl")
            m.rule("permit", body)
        elif style == "numbered":
            m.rule("permit", body, acl="101")
        else:
            m.named("standard", "std")
            m.rule("permit", iosmod.standard(d["src"]))

    return f


iosmod_proto = proto
IGRP = lambda kind: (lambda m, n: (f"object-group {n}", v(m.groups[kind], n)))
IOS_KINDS = {
    "network group": (i_netgrp, {
        "source": lambda m, n: i_rule("named", src=IGRP("network")(m, n))(m, 0),
        "destination": lambda m, n: i_rule("named", dst=IGRP("network")(m, n))(m, 0),
        "numbered": lambda m, n: i_rule("numbered", src=IGRP("network")(m, n), dst=IGRP("network")(m, n), dport=op("eq", 1))(m, 0),
        "icmp": lambda m, n: i_rule("numbered", proto=proto("icmp"), src=IGRP("network")(m, n), dst=IGRP("network")(m, n))(m, 0),
        "standard": lambda m, n: i_rule("standard", src=IGRP("network")(m, n))(m, 0),
        "group member": lambda m, n: m.group("network", f"member-{n}", [(f"group-object {n}", v(m.groups["network"], n))]),
    }, FAMILY + PLUS),
    "service group": (i_svcgrp, {
        "protocol": lambda m, n: i_rule("named", proto=IGRP("service")(m, n))(m, 0),
        "numbered": lambda m, n: i_rule("numbered", proto=IGRP("service")(m, n))(m, 0),
        "group member": lambda m, n: m.group("service", f"member-{n}", [(f"group-object {n}", v(m.groups["service"], n))]),
    }, FAMILY + PLUS),
    "interface": (i_iface, {
        "route": lambda m, n: m.route("10.50.0.0", "255.255.0.0", n),
    }, FAMILY),
}


def ios_job(result, kind, sets):
    define, contexts, family = IOS_KINDS[kind]
    for names in sets:
        def start():
            m = Ios()
            for j, n in enumerate(names):
                define(m, n, j)
            return m

        m = start()
        for c in contexts:
            for n in names:
                contexts[c](m, n)
        configs.check(result, "ios", m.text, m.state("rules", "groups", "interfaces", "routes"), f"IOS {kind}: {', '.join(names)}")
        if kind == "interface":
            continue  # a route through an interface that is not configured is no error
        for n in [n for n in family if n not in names and len(names) < 9]:
            for c in contexts:
                m = start()
                contexts[c](m, n)
                configs.check(result, "ios", m.text, configs.REJECTED, f"IOS {kind}: {c} {n}, defined: {', '.join(names)}")
                if result.full():
                    return


def arrangements(family, upto):
    return [p for k in range(1, upto + 1) for p in itertools.permutations(family, k)]


def run(ctx):
    jobs, dec, ios, counts = [], [], [], {}
    full, pairs, few = ctx.pick(1, 2), ctx.pick(2, 3), ctx.pick(1, 2)
    for kind, (_, _, family) in KINDS.items():
        one = arrangements(family, full)
        rest = [p for p in arrangements(family if ctx.quick else family[:7], pairs) if p not in one]
        counts[kind] = len(one) + len(rest)
        jobs += [(kind, one[i : i + 3], True, 0) for i in range(0, len(one), 3)]
        jobs += [(kind, rest[i : i + 10], False, few) for i in range(0, len(rest), 10)]
    for kind, (_, _, family) in IOS_KINDS.items():
        sets = arrangements(family, ctx.pick(1, 2)) + list(itertools.permutations(family[:5], 3))
        ios += [(kind, sets[i : i + 10]) for i in range(0, len(sets), 10)]
    lengths = chain(ctx.pick(5, 1))
    orders = [tuple(lengths), tuple(lengths[::-1]), tuple(lengths[1::2] + lengths[::2]), *(tuple(WORDY[i::3]) for i in range(3))]
    jobs += [(kind, [o], False, 0) for kind in KINDS for o in orders]
    ios += [(kind, [o]) for kind in IOS_KINDS for o in orders]
    ctx.map(asa_job, jobs)
    ctx.map(decoy_job, [(k, ctx.pick(4, 99)) for k in KINDS])
    ctx.map(namesake_job, [(k, ctx.pick(3, 99)) for k in DECOYS])
    ctx.map(ios_job, ios)
    ctx.bounds = {"ordered sets of defined names": counts, "every undefined name of the family up to": full, "closest undefined names": few, "names which continue each other": len(lengths), "of sets up to": pairs,
                  "IOS sets": sum(len(s) for _, s in ios)}


replay = configs.replay
