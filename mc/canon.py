"""Canonical form of what a parsed configuration means.

Only public attributes and class names are read.  Equivalent spellings share one form: a host is a
network with a full mask, a wildcard whose inverse is a netmask is that network, numbers are ints.
References carry the definition they point to, so that a rule bound to the wrong object differs.
"""
import ipaddress

FULL = {4: 2**32 - 1, 6: 2**128 - 1}


def kinds(o):
    return [c.__name__ for c in type(o).__mro__]


class Strange(Exception):
    pass


def number(v):
    """'80' and 80 are the same; names stay names."""
    if v is None or isinstance(v, bool):
        return v
    s = str(v)
    return int(s) if s.isdigit() else s


def net(text, name=None):
    """Canonical address of 'a', 'a/len', 'a/mask' -- the oracle's own reading of an address."""
    n = ipaddress.ip_network(text, strict=False)
    return ("net", n.version, int(n.network_address), int(n.netmask), name)


def wild(address, wildcard):
    a, w = int(ipaddress.IPv4Address(address)), int(ipaddress.IPv4Address(wildcard))
    return ("net", 4, a & ~w, FULL[4] & ~w, None)


def text(v):
    if v is None:
        return None
    if not isinstance(v, str):
        raise Strange(f"text expected: {v!r}")
    return v


def node(o, deep=True):
    """A network-like object."""
    if o is None:
        return None
    k = kinds(o)
    if "NetworkHost" in k:
        a = ipaddress.ip_address(str(o.address))
        t = getattr(o, "target", None)
        return ("net", a.version, int(a), FULL[a.version], t.hostname if t is not None else None)
    if "Network" in k:
        n = o.network
        t = getattr(o, "target", None)
        return ("net", n.version, int(n.network_address), int(n.netmask), t.hostname if t is not None else None)
    if "NetworkWildcard" in k:
        a, w = o.address, int(o.wildcard)
        f = FULL[a.version]
        return ("net", a.version, int(a) & ~w & f, f & ~w, None)
    if "NetworkObject" in k:
        return ("obj", o.name) + ((tuple(node(i) for i in o.addresses),) if deep else ())
    if "NetworkGroup" in k:
        return ("grp", o.name) + ((tuple(node(i) for i in o.objects),) if deep else ())
    if "NetworkInterface" in k:
        return ("iface", o.name)
    if "Webtype" in k:
        return ("url", o.url)
    for n in ("NetworkAny", "NetworkAny4", "NetworkAny6"):
        if n in k:
            return (n[7:].lower(),)
    raise Strange(f"not a network: {o!r}")


def port(o):
    if o is None:
        return None
    k = kinds(o)
    if "PortGroup" in k:
        return ("pgrp", o.name, protocol(o.protocol), tuple(port(i) for i in o.objects))
    if "PortRange" in k:
        return ("range", number(o.start), number(o.stop))
    if "Port" in k:
        return ("port", o.op, number(o.num))
    raise Strange(f"not a port: {o!r}")


def protocol(o):
    if o is None:
        return None
    k = kinds(o)
    if "Protocol" in k:
        return ("proto", number(o.name))
    if "ServiceObject" in k:
        return ("sobj", o.name) + _service(o)
    if "Service" in k:
        return ("svc",) + _service(o)
    if "ServiceGroup" in k:
        return ("sgrp", o.name, tuple(protocol(i) for i in o.objects))
    if "ProtocolGroup" in k:
        return ("protogrp", o.name, tuple(protocol(i) for i in o.objects))
    raise Strange(f"not a protocol: {o!r}")


def _service(o):
    return (protocol(o.protocol), port(o.src), port(o.dst), number(o.icmp_type), number(o.icmp_code))


def icmp(o):
    if o is None:
        return None
    k = kinds(o)
    if "ICMP" in k:
        return ("icmp", number(o.type), number(o.code))
    if "ICMPGroup" in k:
        return ("icmpgrp", o.name, tuple(icmp(i) for i in o.objects))
    raise Strange(f"not icmp: {o!r}")


def flat(v):
    """All tokens of a nested AST value."""
    if v is None:
        return []
    if isinstance(v, str):
        return [v] if v.strip() else []
    if isinstance(v, dict):
        return [t for x in v.values() for t in flat(x)]
    if isinstance(v, (list, tuple, set)):
        return [t for x in v for t in flat(x)]
    return [str(v)]


def option(v):
    k = kinds(v)
    if "ACLRuleOptionLog" in k:
        return ("log", tuple(flat(v.options)))
    if "ACLRuleOptionInActive" in k:
        return ("inactive",)
    if "ACLRuleOptionInterface" in k:
        return ("interfaces", tuple(v.interfaces), v.direction)
    if "TimeRange" in k:
        return time_range(v)
    if v is None or isinstance(v, (str, int)):
        return number(v)
    raise Strange(f"option {v!r}")


def options(o):
    return tuple(sorted(((str(k), option(v)) for k, v in (o or {}).items()), key=repr))


def rule(r):
    return {
        "id": r.id,
        "mode": r.mode,
        "protocol": protocol(r.protocol),
        "src": node(r.src.host),
        "sport": port(r.src.port),
        "dst": node(r.dst.host),
        "dport": port(r.dst.port),
        "icmp": icmp(r.icmp),
        "options": options(r.options),
        "remark": tuple(text(t) for t in r.remark),
    }


def make_rule(id, mode, protocol, src, dst, sport=None, dport=None, icmp=None, options=(), remark=()):
    """The oracle's rule, same shape as rule()."""
    return {
        "id": id,
        "mode": mode,
        "protocol": protocol,
        "src": src,
        "sport": sport,
        "dst": dst,
        "dport": dport,
        "icmp": icmp,
        "options": tuple(sorted(options, key=repr)),
        "remark": tuple(remark),
    }


def rules(cfg):
    return [rule(r) for r in cfg.rules.rules]


def network_object(o):
    return {"name": o.name, "description": o.description, "addresses": tuple(node(i) for i in o.addresses)}


def network_objects(cfg):
    return {k: network_object(o) for k, o in cfg.objects.network.items()}


def service_objects(cfg):
    return {k: {"description": o.description, "value": protocol(o)} for k, o in cfg.objects.service.items()}


def group(o):
    k = kinds(o)
    for n, f in (
        ("NetworkGroup", node),
        ("PortGroup", port),
        ("ServiceGroup", protocol),
        ("ProtocolGroup", protocol),
        ("ICMPGroup", icmp),
    ):
        if n in k:
            return {"description": o.description, "value": f(o)}
    raise Strange(f"not a group: {o!r}")


GROUPS = ("network", "service", "port", "protocol", "icmp")


def groups(cfg):
    return {g: {k: group(o) for k, o in getattr(cfg.groups, g).items()} for g in GROUPS}


def names(cfg):
    return [(n.hostname, str(n.address), n.description) for n in cfg.names.objects]


def access_group(g):
    return (getattr(g.iface, "alias", g.iface), g.name, g.direction)


def vlans(v):
    if v is None:
        return None
    r = []
    for i in v.items:
        k = kinds(i)
        if "VLANRange" in k:
            r.append((number(i.start), number(i.end)))
        elif "VLAN" in k:
            r.append(number(i.value))
        else:
            raise Strange(f"vlan {i!r}")
    return tuple(r)


def interface(i):
    sp = i.switchport
    return {
        "alias": i.alias,
        "nameif": i.nameif,
        "description": i.description,
        "addresses": tuple(str(a.interface) for a in i.addresses),
        "access_groups": tuple(sorted(access_group(g) for g in i.access_groups.values())),
        "routes": tuple(sorted(route(r) for r in i.routes)),
        "switchport": None if sp is None else (sp.mode, vlans(sp.trunk)),
    }


def interfaces(cfg):
    return {k: interface(i) for k, i in cfg.interfaces.items()}


def access_groups(cfg):
    return {k: tuple(sorted(access_group(g) for g in v)) for k, v in cfg.access_groups.items() if v}


def route(r):
    return (str(r.network), getattr(r.gw, "alias", None) or str(r.gw))


def when(d):
    return None if d is None else (d.year, d.month, d.day, d.hour, d.minute)


def time_range(t):
    r = []
    for o in t.objects:
        if "TimeRangeObjectAbsolute" in kinds(o):
            r.append(("absolute", when(o.start), when(o.end)))
        else:
            e = o.endDays
            if isinstance(e, (list, tuple)):
                e = " ".join(e)
            r.append(
                (
                    "periodic",
                    tuple(flat(o.startDays)),
                    (o.startTime.hour, o.startTime.minute),
                    e or None,
                    (o.endTime.hour, o.endTime.minute),
                )
            )
    return ("time", t.name, tuple(r))


def nat(n):
    def service(s):
        if s is None:
            return None
        side = lambda p: ("port", "eq", number(p)) if isinstance(p, (str, int)) else port(p)
        return (protocol(s.protocol), side(s.src), side(s.dst), number(s.icmp_type), number(s.icmp_code))

    real, mapped = n.real, n.mapped
    fb = mapped.src.fallback if mapped.src else None

    def mapped_dst(d):
        # which interface the keyword stands for is not stated
        return ("iface",) if d and "NetworkInterface" in kinds(d.node) else node(d.node) if d else None

    return {
        "type": mapped.src.type if mapped.src else None,
        "real_iface": real.iface.name,
        "real_src": node(real.src.node) if real.src else None,
        "real_dst": node(real.dst.node) if real.dst and hasattr(real.dst, "node") else node(real.dst),
        "real_service": service(real.service),
        "mapped_iface": mapped.iface.name,
        "mapped_src": node(mapped.src.node) if mapped.src else None,
        "mapped_dst": mapped_dst(mapped.dst),
        "mapped_service": service(mapped.service),
        "fallback": None if fb is None or not getattr(fb, "interface", None) else (fb.interface.name, bool(fb.ipv6)),
        "description": n.description,
        "options": tuple(sorted(n.options)),
    }


def nats(cfg):
    return {p: [nat(n) for n in cfg.nat[p]] for p in (1, 2, 3)}


def header(cfg):
    return {"hostname": cfg.hostname or "", "domain": cfg.domainname or "", "name": cfg.name}


def everything(cfg):
    d = {
        "header": header(cfg),
        "names": names(cfg),
        "rules": rules(cfg),
        "network_objects": network_objects(cfg),
        "service_objects": service_objects(cfg),
        "groups": groups(cfg),
        "interfaces": interfaces(cfg),
        "access_groups": access_groups(cfg),
        "time": {k: time_range(t) for k, t in cfg.objects.time.items()},
        "nat": nats(cfg),
    }
    if hasattr(cfg, "routes"):
        d["routes"] = [route(r) for r in cfg.routes]
    return d


def definitions(cfg):
    """identity -> label of every named definition."""
    d = {}
    for i, n in enumerate(cfg.names.objects):
        d[id(n)] = f"name {i} {n.hostname}"
    for kind in ("network", "service", "time"):
        for k, o in getattr(cfg.objects, kind).items():
            d[id(o)] = f"{kind} object {k}"
    for kind in GROUPS:
        for k, o in getattr(cfg.groups, kind).items():
            d[id(o)] = f"{kind} group {k}"
    for k, o in cfg.interfaces.items():
        d[id(o)] = f"interface {k}"
    return d


def shared(cfg):
    """Which definition each reference is bound to, by identity: {path: label}."""
    d = definitions(cfg)
    r = {}

    def ref(path, o):
        if o is None or isinstance(o, (str, int)):
            return
        if id(o) in d:
            r[path] = d[id(o)]
        t = getattr(o, "target", None)
        if t is not None:
            r[path + ".target"] = d.get(id(t), "another name")

    for n, x in enumerate(cfg.rules.rules):
        p = f"rule {n}"
        for what, o in (("protocol", x.protocol), ("src", x.src.host), ("sport", x.src.port), ("dst", x.dst.host), ("dport", x.dst.port),
                        ("icmp", x.icmp)):
            ref(f"{p} {what}", o)
        for k, v in (x.options or {}).items():
            ref(f"{p} option {k}", v)
    for kind in GROUPS:
        for k, g in getattr(cfg.groups, kind).items():
            for i, o in enumerate(g.objects):
                ref(f"{kind} group {k} {i}", o)
    for k, o in cfg.objects.network.items():
        for i, a in enumerate(o.addresses):
            ref(f"object {k} {i}", a)
    for pos in (1, 2, 3):
        for n, x in enumerate(cfg.nat[pos]):
            for side in ("real", "mapped"):
                s = getattr(x, side)
                for what in ("src", "dst"):
                    e = getattr(s, what)
                    ref(f"nat {pos} {n} {side} {what}", getattr(e, "node", e))
                ref(f"nat {pos} {n} {side} service", s.service)
    for k, v in cfg.access_groups.items():
        for i, g in enumerate(v):
            ref(f"access-group {k} {i}", g.iface)
            own = getattr(g.iface, "access_groups", None)
            if own is not None:
                r[f"access-group {k} {i} known to its interface"] = any(x is g for x in own.values())
    return r


# -- what expanding every group of a configuration makes of its canonical form
GROUP_TERMS = {"grp": 2, "sgrp": 2, "protogrp": 2, "icmpgrp": 2, "pgrp": 3}


def expanded(v):
    """Groups inside groups become their members, objects inside groups what they stand for."""
    if isinstance(v, dict):
        return {k: expanded(x) for k, x in v.items()}
    if isinstance(v, list):
        return [expanded(x) for x in v]
    if not isinstance(v, tuple):
        return v
    if v and v[0] in GROUP_TERMS and len(v) == GROUP_TERMS[v[0]] + 1 and isinstance(v[-1], tuple):
        members = []
        for m in v[-1]:
            m = expanded(m)
            if m[0] == v[0]:
                members.extend(m[-1])
            elif m[0] == "obj":
                members.extend(m[-1])
            elif m[0] == "sobj":
                members.append(("svc",) + m[2:])
            else:
                members.append(m)
        return v[:-1] + (tuple(members),)
    return tuple(expanded(x) for x in v)
