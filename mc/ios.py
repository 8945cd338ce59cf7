"""Model of the IOS configuration language: every method is one event that appends the command text
and moves the model state, in the canonical form of mc.canon.  Nothing here imports acltk."""
import ipaddress

from . import canon
from .canon import net, wild


class Ios:
    def __init__(self):
        self.text = ""
        self.rules = []
        self.pending = []
        self.acl = None
        self.groups = {g: {} for g in canon.GROUPS}
        self.group_desc = {g: {} for g in canon.GROUPS}
        self.interfaces = {}
        self.routes = []
        self.hostname = ""
        self.domain = ""

    def say(self, line):
        self.text += line + "\n"

    def raw(self, lines):
        """Ignored commands."""
        self.text += lines
        self.pending = []

    def header(self, hostname=None, domain=None):
        if hostname is not None:
            self.say(f"hostname {hostname}")
            self.hostname = hostname
        if domain is not None:
            self.say(f"ip domain name {domain}")
            self.domain = domain

    # -- interfaces
    def interface(self, alias, *details):
        """details: tuples, see below; a plain string is a line which is ignored."""
        self.pending = []
        self.say(f"interface {alias}")
        i = {"alias": alias, "nameif": None, "description": None, "addresses": (), "access_groups": (), "routes": (),
             "switchport": None}
        groups = {}
        mode, trunk = "", None
        for d in details:
            if isinstance(d, str):
                self.say(" " + d)
                continue
            k, a = d[0], d[1:]
            if k == "description":
                self.say(f" description {a[0]}")
                i["description"] = a[0]
            elif k == "ip":
                self.say(f" ip address {a[0]} {a[1]}" + (f" {a[2]}" if len(a) > 2 else ""))
                i["addresses"] += (str(ipaddress.ip_interface(f"{a[0]}/{a[1]}")),)
            elif k == "ipv6":
                self.say(f" ipv6 address {a[0]}" + (f"/{a[1]}" if a[1] is not None else " link-local"))
                i["addresses"] += (str(ipaddress.ip_interface(f"{a[0]}/{128 if a[1] is None else a[1]}")),)
            elif k == "access-group":
                self.say(f" ip access-group {a[0]} {a[1]}")
                groups["ip", a[1]] = (alias, a[0], a[1])
            elif k == "traffic-filter":
                self.say(f" ipv6 traffic-filter {a[0]} {a[1]}")
                groups["ipv6", a[1]] = (alias, a[0], a[1])
            elif k == "mode":
                self.say(f" switchport mode {a[0]}")
                mode = a[0]
                i["switchport"] = True
            elif k in ("vlans", "add"):
                items = ",".join(str(v) if isinstance(v, int) else f"{v[0]}-{v[1]}" for v in a[0])
                self.say(" switchport trunk allowed vlan " + ("add " if k == "add" else "") + items)
                trunk = ((trunk or ()) if k == "add" else ()) + tuple(a[0])
                i["switchport"] = True
            else:
                raise ValueError(d)
        i["access_groups"] = tuple(sorted(groups.values()))
        if i["switchport"]:
            i["switchport"] = (mode, trunk)
        self.interfaces[alias] = i

    def route(self, prefix, mask, gw, rest=""):
        self.pending = []
        self.say(f"ip route {prefix} {mask} {gw}{rest}")
        self.routes.append((str(ipaddress.ip_network(f"{prefix}/{mask}")), gw))

    # -- object groups
    def group(self, kind, name, members, description=None):
        self.pending = []
        self.say(f"object-group {kind} {name}")
        if description is not None:
            self.say(f" description {description}")
        for t, _ in members:
            self.say(" " + t)
        value = ({"network": "grp", "service": "sgrp"}[kind], name, tuple(c for _, c in members))
        self.groups[kind][name] = value
        self.group_desc[kind][name] = description
        return value

    def grp(self, name):
        return f"object-group {name}", self.groups["network"][name]

    # -- access lists.  A rule is (text after the action, fields); see rule()
    def named(self, kind, name):
        self.pending = []
        self.say(f"ip access-list {kind} {name}")
        self.acl = name

    def ipv6(self, name):
        self.pending = []
        self.say(f"ipv6 access-list {name}")
        self.acl = name

    def remark(self, text, seq=None, acl=None):
        """acl: of a numbered list; otherwise of the open named list."""
        if acl is not None:
            self.say(f"access-list {acl} remark {text}")
        else:
            self.say(" " + (f"{seq} " if seq else "") + f"remark {text}")
        self.pending.append((acl or self.acl, text))

    def rule(self, mode, body, seq=None, acl=None):
        """body: see extended(), standard()."""
        text, fields = body
        if acl is not None:
            self.say(f"access-list {acl} {mode} {text}")
        else:
            self.say(" " + (f"{seq} " if seq else "") + f"{mode} {text}")
        self._add(acl or self.acl, mode, fields)

    def rule6(self, seq, mode, body):
        text, fields = body
        self.say(f" sequence {seq} {mode} {text}")
        fields = dict(fields)
        fields["options"] = tuple(fields.get("options", ())) + (("sequence", seq),)
        self._add(self.acl, mode, fields)

    def _add(self, acl, mode, f):
        r = canon.make_rule(acl, mode, f["protocol"], f["src"], f["dst"], f.get("sport"), f.get("dport"), f.get("icmp"),
                            f.get("options", ()), tuple(t for i, t in self.pending if i == acl))
        self.pending = []
        self.rules.append(r)

    # -- observation
    def state(self, *slices):
        def interfaces():
            out = {k: dict(v) for k, v in self.interfaces.items()}
            for n, gw in self.routes:
                for k, i in out.items():
                    if gw in self.interfaces:
                        hit = k == gw
                    else:
                        g = ipaddress.ip_address(gw)
                        hit = sum(g in ipaddress.ip_interface(a).network for a in i["addresses"]) > 0
                    if hit:
                        i["routes"] = tuple(sorted(i["routes"] + ((n, gw),)))
            return out

        def access_groups():
            r = {}
            for i in self.interfaces.values():
                for g in i["access_groups"]:
                    r.setdefault(g[1], []).append(g)
            return {k: sorted(v) for k, v in r.items()}

        full = {
            "rules": lambda: self.rules,
            "groups": lambda: {g: {k: {"description": self.group_desc[g][k], "value": v} for k, v in self.groups[g].items()}
                               for g in canon.GROUPS},
            "interfaces": interfaces,
            "access_groups": access_groups,
            "routes": lambda: list(self.routes),
            "header": lambda: {"hostname": self.hostname, "domain": self.domain, "name": f"{self.hostname}.{self.domain}"},
        }
        return {s: full[s]() for s in slices}


# ------------------------------------------------------------------------------------------
# terms: (text, canonical)
ANY = ("any", ("any",))


def host(a):
    return f"host {a}", net(a)


def bare(a):
    return a, net(a)


def masked(a, w):
    return f"{a} {w}", wild(a, w)


def prefix(a, n):
    return f"{a}/{n}", net(f"{a}/{n}")


def member(a, mask):
    return f"{a} {mask}", net(f"{a}/{mask}")


def extended(proto, src, dst, sport=None, dport=None, icmp=None, options=()):
    """options: (text, name, value)"""
    t = f"{proto[0]} {src[0]}"
    if sport:
        t += " " + sport[0]
    t += " " + dst[0]
    if dport:
        t += " " + dport[0]
    if icmp:
        t += " " + icmp[0]
    for o in options:
        t += " " + o[0]
    return t, {"protocol": proto[1], "src": src[1], "dst": dst[1], "sport": sport and sport[1], "dport": dport and dport[1],
               "icmp": icmp and icmp[1], "options": tuple((o[1], o[2]) for o in options)}


def standard(src, options=()):
    t = src[0] + "".join(" " + o[0] for o in options)
    return t, {"protocol": ("proto", "ip"), "src": src[1], "dst": ("any",), "options": tuple((o[1], o[2]) for o in options)}
