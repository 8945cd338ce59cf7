"""Model of the ASA/FWSM configuration language: every method is one event that appends the command
text and moves the model state, in the canonical form of mc.canon.  Nothing here imports acltk."""
import ipaddress

from . import canon
from .canon import net


def cidrs(first, last):
    """Minimal cover of an address range by networks (the oracle's own)."""
    a, b = ipaddress.ip_address(first), ipaddress.ip_address(last)
    bits = 32 if a.version == 4 else 128
    lo, hi = int(a), int(b)
    out = []
    while lo <= hi:
        size = lo & -lo if lo else 1 << bits
        while size > hi - lo + 1:
            size >>= 1
        out.append(("net", a.version, lo, canon.FULL[a.version] & ~(size - 1), None))
        lo += size
    return tuple(out)


def mask(prefix):
    return str(ipaddress.IPv4Address((2**32 - 1) & ~((1 << (32 - prefix)) - 1)))


class Asa:
    """State of the configuration, reached event by event."""

    def __init__(self):
        self.text = ""
        self.rules = []
        self.pending = []  # remarks waiting for their rule: (id, text)
        self.names = []
        self.netobj = {}
        self.netobj_desc = {}
        self.svcobj = {}
        self.svcobj_desc = {}
        self.groups = {g: {} for g in canon.GROUPS}
        self.group_desc = {g: {} for g in canon.GROUPS}
        self.interfaces = {}
        self.access_groups = {}
        self.time = {}
        self.nat = {1: [], 2: [], 3: []}
        self.hostname = ""
        self.domain = ""

    # -- events
    def raw(self, line):
        """A command that is ignored."""
        self.text += line
        self.pending = []

    def say(self, line):
        self.text += line + "\n"

    def header(self, hostname=None, domain=None):
        if hostname is not None:
            self.say(f"hostname {hostname}")
            self.hostname = hostname
        if domain is not None:
            self.say(f"domain-name {domain}")
            self.domain = domain

    def name(self, address, hostname, description=None):
        self.say(f"name {address} {hostname}" + (f" description {description}" if description else ""))
        # the text after the keyword belongs to the description as it is
        self.names.append((hostname, str(ipaddress.ip_address(address)), f" {description}" if description else None))

    def interface(self, alias, nameif=None, v4=None, v6=None, description=None, noise=()):
        """noise: detail lines which are ignored; v4/v6: [(address, mask or length, standby)]"""
        self.say(f"interface {alias}")
        addresses = []
        if description is not None:
            self.say(f" description {description}")
        for l in noise:
            self.say(" " + l)
        if nameif is not None:
            self.say(f" nameif {nameif}")
        for a, m, s in v4 or ():
            self.say(f" ip address {a} {m}" + (f" standby {s}" if s else ""))
            addresses.append(str(ipaddress.ip_interface(f"{a}/{m}")))
        for a, m, s in v6 or ():
            self.say(f" ipv6 address {a}/{m}" + (f" standby {s}" if s else ""))
            addresses.append(str(ipaddress.ip_interface(f"{a}/{m}")))
        self.interfaces[alias] = {
            "alias": alias,
            "nameif": nameif,
            "description": description,
            "addresses": tuple(addresses),
            "access_groups": (),
            "routes": (),
            "switchport": None,
        }

    def section(self, alias, *details, trailing=""):
        """An interface section with its lines in any order; a plain string is a line which is ignored."""
        self.say(f"interface {alias}{trailing}")
        i = {"alias": alias, "nameif": None, "description": None, "addresses": (), "access_groups": (), "routes": (),
             "switchport": None}
        for d in details:
            if isinstance(d, str):
                self.say(" " + d)
            elif d[0] == "nameif":
                self.say(f" nameif {d[1]}")
                i["nameif"] = d[1]
            elif d[0] == "description":
                self.say(f" description {d[1]}")
                i["description"] = d[1]
            else:
                k, a, m, standby = d
                self.say((f" ip address {a} {m}" if k == "ip" else f" ipv6 address {a}/{m}") + (f" standby {standby}" if standby else ""))
                i["addresses"] += (str(ipaddress.ip_interface(f"{a}/{m}")),)
        self.interfaces[alias] = i

    def access_group(self, acl, direction, nameif):
        self.say(f"access-group {acl} {direction} interface {nameif}")
        for i in self.interfaces.values():
            if i["nameif"] == nameif:
                i["access_groups"] = tuple(
                    sorted([g for g in i["access_groups"] if g[2] != direction] + [(i["alias"], acl, direction)])
                )
                self.access_groups[acl] = self.access_groups.get(acl, ()) + ((i["alias"], acl, direction),)
                break

    def object_network(self, name, kind, *args, description=None, nat=None):
        self.say(f"object network {name}")
        if kind == "host":
            (a,) = args
            self.say(f" host {a}")
            value = (net(a),)
        elif kind == "subnet":
            a, l = args
            if ":" in a:
                self.say(f" subnet {a}/{l}")
                value = (net(f"{a}/{l}"),)
            else:
                self.say(f" subnet {a} {mask(l)}")
                value = (net(f"{a}/{l}"),)
        elif kind == "range":
            a, b = args
            self.say(f" range {a} {b}")
            value = cidrs(a, b)
        elif kind == "fqdn":
            limit, f = args
            self.say(f" fqdn {limit + ' ' if limit else ''}{f}")
            value = ({None: ("any",), "v4": ("any4",), "v6": ("any6",)}[limit],)
        elif kind is None:
            value = ()
        if nat is not None:
            self.say(nat)
        if description is not None:
            self.say(f" description {description}")
        if name not in self.netobj:
            self.netobj[name] = value
            self.netobj_desc[name] = description
        return self.obj(name)

    # NAT: interfaces by name; mapped is (text, canonical), fallback None | "interface" | "interface ipv6"
    def object_nat(self, name, real, mapped, kind, term, fallback=None, service=None, options=(), reopen=False, **define):
        """NAT line of a network object; define: kind and arguments of the object (not for a re-opened one)."""
        t = f" nat ({real},{mapped}) {kind} {term[0]}"
        if fallback:
            t += " " + fallback
        if service:
            t += f" service {service[0]} {service[1]} {service[2]}"
        for o in options:
            t += " " + o
        if reopen:
            self.say(f"object network {name}")
            self.say(t)
        else:
            args = define.pop("args")
            self.object_network(name, define.pop("type"), *args, nat=t, **define)
        dst = lambda p: service and (("proto", service[0]), None, ("port", "eq", canon.number(p)), None, None)
        self.nat[2].append({
            "type": kind,
            "real_iface": real, "real_src": ("obj", name, self.netobj[name]), "real_dst": ("any",),
            "real_service": service and dst(service[1]),
            "mapped_iface": mapped, "mapped_src": ("iface", mapped) if term[1] == "interface" else term[1],
            "mapped_dst": ("any",), "mapped_service": service and dst(service[2]),
            "fallback": (mapped, fallback.endswith("ipv6")) if fallback else None,
            "description": None, "options": tuple(sorted(("auto",) + tuple(options))),
        })

    def twice_nat(self, real, mapped, kind, src, to, fallback=None, dst=None, service=None, options=(), description=None,
                  after=None):
        """src, to: terms; dst: (mapped term, real term); service: (text, real, mapped); after: words in front of source"""
        t = f"nat ({real},{mapped})" + (f" {after}" if after else "") + f" source {kind} {src[0]} {to[0]}"
        if fallback:
            t += " " + fallback
        if dst:
            t += f" destination static {dst[0][0]} {dst[1][0]}"
        if service:
            t += " service " + service[0]
        for o in options:
            t += " " + o
        if description is not None:
            t += f" description {description}"
        self.say(t)
        opts = tuple(options) + (("after-auto",) if after else ())
        iface = lambda v: ("iface", mapped) if v == "interface" else v
        self.nat[3 if after else 1].append({
            "type": kind,
            "real_iface": real, "real_src": src[1], "real_dst": dst and dst[1][1], "real_service": service and service[1],
            "mapped_iface": mapped, "mapped_src": iface(to[1]),
            "mapped_dst": dst and (("iface",) if dst[0][1] == "interface" else dst[0][1]),
            "mapped_service": service and service[2],
            "fallback": (mapped, fallback.endswith("ipv6")) if fallback else None,
            "description": description, "options": tuple(sorted(opts)),
        })

    def object_service(self, name, proto, src=None, dst=None, icmp_type=None, icmp_code=None, description=None):
        self.say(f"object service {name}")
        self.say(" service " + service_text(proto, src, dst, icmp_type, icmp_code))
        if description is not None:
            self.say(f" description {description}")
        self.svcobj[name] = (
            ("proto", canon.number(proto)),
            src and src[1],
            dst and dst[1],
            canon.number(icmp_type),
            canon.number(icmp_code),
        )
        self.svcobj_desc[name] = description

    def group(self, kind, name, members, description=None, proto=None):
        """members: [(text after the indent, canonical member)]"""
        word = {"network": "network", "service": "service", "port": "service", "protocol": "protocol",
                "icmp": "icmp-type"}[kind]
        self.say(f"object-group {word} {name}" + (f" {proto}" if kind == "port" else ""))
        if description is not None:
            self.say(f" description {description}")
        for t, _ in members:
            self.say(" " + t)
        value = tuple(c for _, c in members)
        if kind == "port":
            value = ("pgrp", name, ("proto", proto), value)
        else:
            value = ({"network": "grp", "service": "sgrp", "protocol": "protogrp", "icmp": "icmpgrp"}[kind], name, value)
        self.groups[kind][name] = value
        self.group_desc[kind][name] = description
        return value

    def time_range(self, name, *items):
        """items: (text, canonical)"""
        self.say(f"time-range {name}")
        for t, _ in items:
            self.say(" " + t)
        self.time[name] = ("time", name, tuple(c for _, c in items))
        return self.time[name]

    def remark(self, acl, text):
        self.say(f"access-list {acl} remark {text}")
        self.pending.append((acl, text))

    def _add(self, rule):
        rule["remark"] = tuple(t for i, t in self.pending if i == rule["id"])
        self.pending = []
        self.rules.append(rule)
        return rule

    def rule(self, acl, mode, proto, src, dst, sport=None, dport=None, icmp=None, options=()):
        """Each argument is a (text, canonical) pair, options a sequence of them."""
        line, r = rule_line(acl, mode, proto, src, dst, sport, dport, icmp, options)
        self.text += line
        return self._add(r)

    def standard(self, acl, mode, src):
        line, r = standard_line(acl, mode, src)
        self.text += line
        return self._add(r)

    def webtype(self, acl, mode, what, options=()):
        line, r = webtype_line(acl, mode, what, options)
        self.text += line
        return self._add(r)

    def ethertype(self, acl, rest):
        self.say(f"access-list {acl} ethertype {rest}")
        self.pending = []

    # -- terms: (text, canonical)
    def obj(self, name):
        return f"object {name}", ("obj", name, self.netobj[name])

    def grp(self, name):
        return f"object-group {name}", self.groups["network"][name]

    def sobj(self, name):
        return f"object {name}", ("sobj", name) + self.svcobj[name]

    def named(self, hostname, prefix=None):
        a = [n[1] for n in self.names if n[0] == hostname][-1]
        if prefix is None:
            return f"host {hostname}", net(a, hostname)
        if ":" in a:
            return f"{hostname}/{prefix}", net(f"{a}/{prefix}", hostname)
        return f"{hostname} {mask(prefix)}", net(f"{a}/{prefix}", hostname)

    # -- observation
    def state(self, *slices):
        full = {
            "rules": lambda: self.rules,
            "names": lambda: self.names,
            "network_objects": lambda: {
                k: {"name": k, "description": self.netobj_desc[k], "addresses": v} for k, v in self.netobj.items()
            },
            "service_objects": lambda: {
                k: {"description": self.svcobj_desc[k], "value": ("sobj", k) + v} for k, v in self.svcobj.items()
            },
            "groups": lambda: {
                g: {k: {"description": self.group_desc[g][k], "value": v} for k, v in self.groups[g].items()}
                for g in canon.GROUPS
            },
            "interfaces": lambda: self.interfaces,
            "access_groups": lambda: {k: tuple(sorted(v)) for k, v in self.access_groups.items()},
            "time": lambda: self.time,
            "nat": lambda: self.nat,
            "header": lambda: {
                "hostname": self.hostname,
                "domain": self.domain,
                "name": f"{self.hostname}.{self.domain}",
            },
        }
        return {s: full[s]() for s in slices}


# ------------------------------------------------------------------------------------------
# terms
ANY, ANY4, ANY6 = ("any", ("any",)), ("any4", ("any4",)), ("any6", ("any6",))


def host(a):
    return f"host {a}", net(a)


def subnet(a, prefix):
    if ":" in a:
        return f"{a}/{prefix}", net(f"{a}/{prefix}")
    return f"{a} {mask(prefix)}", net(f"{a}/{prefix}")


def op(o, num):
    return f"{o} {num}", ("port", o, canon.number(num))


def rng(a, b):
    return f"range {a} {b}", ("range", canon.number(a), canon.number(b))


def proto(p):
    return str(p), ("proto", canon.number(p))


def icmp(t, code=None):
    return (str(t) if code is None else f"{t} {code}"), ("icmp", canon.number(t), canon.number(code))


def service_text(proto, src=None, dst=None, icmp_type=None, icmp_code=None):
    t = str(proto)
    if src:
        t += f" source {src[0]}"
    if dst:
        t += f" destination {dst[0]}"
    if icmp_type is not None:
        t += f" {icmp_type}"
    if icmp_code is not None:
        t += f" {icmp_code}"
    return t


def service(proto, src=None, dst=None, icmp_type=None, icmp_code=None):
    """A service-object member."""
    return (
        "service-object " + service_text(proto, src, dst, icmp_type, icmp_code),
        ("svc", ("proto", canon.number(proto)), src and src[1], dst and dst[1], canon.number(icmp_type),
         canon.number(icmp_code)),
    )


def log(*tokens):
    return " ".join(("log",) + tokens), ("log", ("log", tuple(t for x in tokens for t in x.split())))


INACTIVE = ("inactive", ("inactive", ("inactive",)))


def timed(value):
    return f"time-range {value[1]}", ("time-range", value)


def rule_line(acl, mode, proto, src, dst, sport=None, dport=None, icmp=None, options=()):
    t = f"access-list {acl} extended {mode} {proto[0]} {src[0]}"
    if sport:
        t += " " + sport[0]
    t += " " + dst[0]
    if dport:
        t += " " + dport[0]
    if icmp:
        t += " " + icmp[0]
    for o in options:
        t += " " + o[0]
    r = canon.make_rule(
        acl, mode, proto[1], src[1], dst[1], sport and sport[1], dport and dport[1], icmp and icmp[1],
        tuple(o[1] for o in options),
    )
    return t + "\n", r


def standard_line(acl, mode, src):
    return (
        f"access-list {acl} standard {mode} {src[0]}\n",
        canon.make_rule(acl, mode, ("proto", "ip"), src[1], ("any",)),
    )


def webtype_line(acl, mode, what, options=()):
    """what: ('url', text) | ('tcp', node term, port term or None)"""
    if what[0] == "url":
        t, dst, dport = f"url {what[1]}", ("url", what[1]), None
    else:
        t, dst = f"tcp {what[1][0]}", what[1][1]
        dport = what[2] and what[2][1]
        if what[2]:
            t += " " + what[2][0]
    t = f"access-list {acl} webtype {mode} {t}" + "".join(" " + o[0] for o in options)
    return t + "\n", canon.make_rule(acl, mode, ("proto", what[0]), ("any",), dst, None, dport, None,
                                     tuple(o[1] for o in options))
