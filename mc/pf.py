"""Model of the pfSense/OPNsense configuration: every method is one event that adds an element and
moves the model state.  Nothing here imports acltk."""
import html
import ipaddress
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape

from . import canon
from .canon import net


def element(tag, value=None):
    """value: None -> empty element, str -> text, list -> children (already text)."""
    if value is None:
        return f"<{tag}/>"
    if isinstance(value, list):
        return f"<{tag}>{''.join(value)}</{tag}>"
    return f"<{tag}>{escape(value)}</{tag}>"


class Pf:
    SECTIONS = ("system", "aliases", "interfaces", "filter")

    def __init__(self, root="pfsense"):
        self.root = root
        self.parts = {"aliases": [], "interfaces": [], "filter": []}
        self.hostname, self.domain = "pf", "example.org"
        self.groups = {"network": {}, "port": {}}
        self.desc = {"network": {}, "port": {}}
        self.map = {}  # tag -> name rules are filed under
        self.interfaces = {}
        self.rules = []
        self.rows = []  # the name each rule is filed under
        self.separators = []
        self.order = list(self.SECTIONS)
        self.comment = ""
        self.style = "plain"

    # -- spelling: the children of an element in another order, text as CDATA, indented files
    STYLES = ("plain", "reversed", "rotated", "odd first", "cdata", "indented", "comments")

    def e(self, tag, value=None):
        if isinstance(value, list) and tag not in (self.root, "aliases", "interfaces", "filter", "separator"):
            value = {"reversed": lambda v: v[::-1], "rotated": lambda v: v[1:] + v[:1], "odd first": lambda v: v[1::2] + v[::2],
                     "comments": lambda v: [x for c in v for x in (c, f"<!-- {tag} -->")]}.get(self.style, lambda v: v)(value)
        elif isinstance(value, str) and self.style == "cdata":
            return f"<{tag}><![CDATA[{value}]]></{tag}>"
        return element(tag, value)

    # -- events
    def alias(self, name, kind, entries, descr=""):
        """entries: texts; descr: as the user typed it (None: no text in the element)"""
        a = [self.e("name", name), self.e("type", kind)]
        if kind == "urltable":
            a.append(self.e("url", entries))
            value = (("any",),)
        else:
            a.append(self.e("address", " ".join(entries) or None))
            if kind == "host":
                value = tuple(self.host(e) for e in entries)
            elif kind == "network":
                value = tuple(net(e) for e in entries)
            else:
                value = tuple(("range",) + tuple(int(x) for x in e.split(":")) if ":" in e else ("port", "eq", int(e) if e.isdigit() else e)
                              for e in entries)
        a.append(self.e("descr", None if descr is None else html.escape(descr)))
        self.parts["aliases"].append(self.e("alias", a))
        self.define(name, kind, value, descr)

    def define(self, name, kind, value, descr=""):
        where = "port" if kind == "port" else "network"
        self.groups[where][name] = ("pgrp", name, ("proto", "any"), value) if kind == "port" else ("grp", name, value)
        self.desc[where][name] = descr or ""

    @staticmethod
    def host(e):
        try:
            ipaddress.ip_address(e)
        except ValueError:
            return ("any",)  # a host name
        return net(e)

    def interface(self, tag, device, descr=None, address=None):
        """address: None, 'dhcp' or 'a/len'"""
        d = [self.e("if", device)]
        if descr is not None:
            d.append(self.e("descr", html.escape(descr)))
        i = {"nameif": device, "addresses": ()}
        if address == "dhcp":
            d.append(self.e("ipaddr", "dhcp"))
        elif address:
            a, l = address.split("/")
            d += [self.e("ipaddr", a), self.e("subnet", l)]
            i = {"nameif": None, "addresses": (address,)}
        self.parts["interfaces"].append(self.e(tag, d))
        optional = tag.startswith("opt")
        alias = (descr or tag) if optional else tag
        self.map[tag] = alias
        self.interfaces[alias] = {"alias": alias, "description": tag if optional else descr or "", "access_groups": (), "routes": (),
                                  "switchport": None, **i}

    def side(self, what, port=None):
        """what: None (no element), ('any',), ('address', text), ('network', tag); port: None or text
        -> (list of children or None, canonical host, canonical port)"""
        if what is None:
            return None, ("any",), None
        c = []
        if what[0] == "any":
            c.append(self.e("any"))
            host = ("any",)
        elif what[0] == "address":
            c.append(self.e("address", what[1]))
            host = self.groups["network"].get(what[1]) or net(what[1])
        else:
            c.append(self.e("network", what[1]))
            host = ("iface", self.map[what[1]])
        p = None
        if port is not None:
            c.append(self.e("port", port))
            p = self.groups["port"].get(port)
            if p is None:
                a = port.split("-")
                p = ("range", int(a[0]), int(a[1])) if len(a) == 2 else ("port", "eq", int(port) if port.isdigit() else port)
        return c, host, p

    def rule(self, interface, type="pass", protocol=None, source=("any",), sport=None, destination=("any",), dport=None, icmptype=None, descr="",
             log=False, disabled=False, statetype=None, tracker=None, floating=None, direction=None, noise=(), times=None):
        e = [self.e("type", type), self.e("interface", interface)]
        if floating:
            e.append(self.e("floating", floating))
        if direction:
            e.append(self.e("direction", direction))
        for n in noise:
            e.append(n)
        if protocol:
            e.append(self.e("protocol", protocol))
        if icmptype:
            e.append(self.e("icmptype", icmptype))
        sc, src, sp = self.side(source, sport)
        dc, dst, dp = self.side(destination, dport)
        if sc is not None:
            e.append(self.e("source", sc))
        if dc is not None:
            e.append(self.e("destination", dc))
        if descr is not False:
            e.append(self.e("descr", html.escape(descr) or None))
        if log:
            e.append(self.e("log"))
        if disabled:
            e.append(self.e("disabled"))
        if statetype:
            e.append(self.e("statetype", statetype))
        if tracker:
            e.append(self.e("tracker", tracker))
        for k, t in (times or {}).items():
            e.append(self.e(k, [self.e("time", str(t)), self.e("username", "admin@10.0.0.1")]))
        self.parts["filter"].append(self.e("rule", e))
        opts = [("xref", canon.number(tracker) if tracker else "-1")]
        if floating == "yes":
            opts.append(("floating", ("interfaces", tuple(self.map.get(i, i) for i in interface.split(",")), direction)))
            id = "floating"
        else:
            id = self.map.get(interface, interface)
        if disabled:
            opts.append(("inactive", ("inactive",)))
        if log:
            opts.append(("log", ("log", ())))
        if statetype and statetype != "keep state":
            opts.append(("statetype", statetype))
        r = canon.make_rule(id, "permit" if type == "pass" else "deny", ("proto", canon.number(protocol or "any")), src, dst, sp, dp,
                            icmptype and ("icmp", canon.number(icmptype), None), tuple(opts), (descr or "",))
        self.rules.append(r)
        self.rows.append(id)

    def separator(self, interface, row, text, color="bg-info"):
        self.separators.append((interface, row, text, color))

    def place_separators(self, at=None):
        """at: how many rules come before the element (default: all)"""
        by = {}
        for s in self.separators:
            by.setdefault(s[0], []).append(s)
        if not by:
            return
        e = []
        for iface, l in by.items():
            # separators of an interface in their order
            e.append(element(iface, [
                self.e(f"sep{n}", [self.e("row", f"fr{row}"), self.e("text", html.escape(text)), self.e("color", color), self.e("if", iface)])
                for n, (_, row, text, color) in enumerate(l)
            ]))
        n = len(self.parts["filter"]) if at is None else at
        self.parts["filter"].insert(n, self.e("separator", e))

    # -- observations
    @property
    def text(self):
        s = {"system": self.e("system", [self.e("optimization", "normal"), self.e("hostname", self.hostname), self.e("domain", self.domain),
                                      self.e("dnsserver", "192.0.2.53"), self.e("group", [self.e("name", "all")]), self.e("timezone", "Etc/UTC")])}
        for k, v in self.parts.items():
            s[k] = self.e(k, v)
        text = self.e(self.root, [self.comment] + [s[k] + "\n" for k in self.order])
        if self.style == "indented":
            root = ET.fromstring(text)
            ET.indent(root, "\t")
            text = ET.tostring(root, "unicode") + "\n"
        return '<?xml version="1.0"?>\n' + text

    def captions(self):
        want, count = [], {}
        tag = {v: k for k, v in self.map.items()}
        for name in self.rows:
            row = count.get(name, 0)
            count[name] = row + 1
            of = "floatingrules" if name == "floating" else tag.get(name, name)
            want.append([(t, c) for i, r, t, c in self.separators if i == of and r == row])
        return want

    def state(self, *slices):
        r = {}
        if "pf rules" in slices:
            r["pf rules"] = self.rules
        if "groups" in slices:
            r["groups"] = {g: {k: {"description": self.desc[g][k], "value": v} for k, v in self.groups.get(g, {}).items()} for g in canon.GROUPS}
        if "interfaces" in slices:
            r["interfaces"] = self.interfaces
        if "captions" in slices:
            r["captions"] = self.captions()
        if "ids" in slices:
            r["ids"] = self.rows
        if "header" in slices:
            r["header"] = {"hostname": self.hostname, "domain": self.domain, "name": f"{self.hostname}.{self.domain}"}
        return r


def pf_rules(cfg):
    """Rules without the line about dates, which depends on the day."""
    out = []
    for r in canon.rules(cfg):
        r["remark"] = r["remark"][:1]
        out.append(r)
    return out


def captions(cfg):
    return [[(c.text, c.bg) for c in (r.head or [])] for r in cfg.rules.rules]


SLICES = {"pf rules": pf_rules, "captions": captions, "ids": lambda c: [r.id for r in c.rules.rules]}
