"""Reference recogniser of the configuration languages: any text -> what it means, or that it is malformed.

Written from the command references, not from the grammar files; it imports nothing of acltk.  The
verdict on a text is one of
    state            the text is well-formed and means exactly this
    REJECTED         the text is malformed
    (LOOSE, state)   the text is at the fringe of the language: it may be refused, but if it is
                     accepted it must be read in full, as this state
    UNSPECIFIED      the language says nothing about the text
"""
import ipaddress
import re

from . import canon, vocab
from .asa import Asa, mask
from .canon import net

REJECTED, LOOSE, UNSPECIFIED = "rejected", "loose", "unspecified"
SLICES = ("header", "names", "rules", "network_objects", "service_objects", "groups", "interfaces", "access_groups", "time", "nat")
IDENT = r"[A-Za-z_][A-Za-z0-9_.-]*"
NAME = r"[A-Za-z0-9_.+-]+"
DAYS = "Monday Tuesday Wednesday Thursday Friday Saturday Sunday".split()
MONTHS = "January February March April May June July August September October November December".split()


class Malformed(Exception):
    pass


class BadValue(Malformed):
    """The words are in place, but a value is impossible."""


class Unspecified(Exception):
    pass


class Words:
    """The words of a line, taken one after the other."""

    def __init__(self, reader, line):
        self.reader = reader
        self.line = line
        if "\t" in line or line != line.strip(" "):
            reader.loose = True
        self.w = line.split()
        self.i = 0

    def peek(self, n=0):
        return self.w[self.i + n] if self.i + n < len(self.w) else None

    def take(self):
        if self.i >= len(self.w):
            raise Malformed("words missing")
        self.i += 1
        return self.w[self.i - 1]

    def want(self, *words):
        for w in words:
            if self.take() != w:
                raise Malformed(f"{w} expected")

    def opt(self, *words):
        if self.w[self.i : self.i + len(words)] == list(words):
            self.i += len(words)
            return True
        return False

    def one(self, *words):
        w = self.take()
        if w not in words:
            raise Malformed(w)
        return w

    def match(self, pattern):
        w = self.take()
        if not re.fullmatch(pattern, w):
            raise Malformed(w)
        return w

    def rest(self):
        """The text behind the words taken so far, as it is written."""
        m = re.match(r"\s*" + r"\s+".join(re.escape(x) for x in self.w[: self.i]), self.line)
        self.i = len(self.w)
        return self.line[m.end():]

    def done(self):
        if self.i != len(self.w):
            raise Malformed(f"{self.w[self.i]} is too much")

    @property
    def more(self):
        return self.i < len(self.w)


def is_ip4(w):
    return w is not None and re.fullmatch(r"\d{1,3}(\.\d{1,3}){3}", w) is not None


def ip4(w):
    if not is_ip4(w) or any(int(x) > 255 for x in w.split(".")):
        raise Malformed(w)
    if any(len(x) > 1 and x[0] == "0" for x in w.split(".")):
        raise Unspecified("octet with leading zero")
    return w


def ip6(w):
    try:
        ipaddress.IPv6Address(w)
    except (ValueError, TypeError):
        raise Malformed(w)
    return w


def netmask(w):
    """-> prefix length"""
    v = int(ipaddress.IPv4Address(ip4(w)))
    if v not in MASKS:
        if v ^ (2**32 - 1) in MASKS:
            raise Unspecified(INVERSE)
        raise BadValue(w)
    return MASKS[v]


DETAIL = "malformed line of an interface section"  # a known finding: such lines are ignored
INVERSE = "wildcard in the place of a netmask"  # a known finding: it is read as the netmask it inverts
MASKS = {int(ipaddress.IPv4Address(mask(p))): p for p in range(33)}


def number(w, last):
    if not re.fullmatch(r"[0-9]+", w or ""):
        raise Malformed(w)
    if int(w) > last:
        raise BadValue(w)
    return int(w)


def port(w):
    return w if w in vocab.PORTS else number(w, 65535)


def icmp_number(w):
    return w if w in vocab.ICMP else number(w, 255)


def is_port_op(w):
    return w in ("eq", "neq", "lt", "gt", "range")


IGNORED = """aaa-server aaa app-agent arp-inspection arp asdm auth-prompt boot call-home class-map clock console command-alias
Cryptochecksum: crypto dhcpd dhcprelay dns-guard dns dynamic-access-policy-record enable eou established failover firewall
flow-export fragment ftp global group-policy hpm http icmp ipv6 ip license ldap logging mac-address-table mac-address
management-access monitor-interface mtu multicast-routing nac-policy names nat-control no ntp pager passwd password-policy
policy-map privilege prompt resource router route same-security-traffic service-module service-policy service sla snmp-map
snmp-server smtp-server ssh ssl static sysopt tcp-map telnet terminal tftp-server threat-detection timeout tls-proxy
tunnel-group-map tunnel-group user-identity username url-cache virtual vpdn vpn-group-policy vpn webvpn xlate-bypass xlate""".split()
BLOCKS = """aaa-server call-home class-map crypto dns dynamic-access-policy-record group-policy license ldap nac-policy policy-map
router sla snmp-map ssh tcp-map tunnel-group username vpn webvpn""".split()
COMMANDS = "hostname domain-name interface name time-range object object-group access-list access-group nat".split()


class AsaReader:
    def __init__(self):
        self.m = Asa()
        self.loose = False
        self.owner = {}  # name -> kind of the definition it has

    def read(self, text):
        lines = text.split("\n")
        if lines and lines[-1] == "":
            lines.pop()
        sections = []  # [line, [indented lines]]
        for l in lines:
            if l.startswith(" ") and sections:
                sections[-1][1].append(l[1:])
            else:
                sections.append([l, []])
        if not sections:
            raise Malformed("nothing")
        for head, body in sections:
            self.section(head, body)
        return self.m.state(*self.slices)

    slices = SLICES

    def section(self, head, body):
        m = self.m
        if head.startswith(" "):
            raise Malformed("indented")
        words = head.split()
        first = words[0] if words else ""
        pending, m.pending = m.pending, []
        if head == "":
            if body:
                raise Unspecified("indented lines behind an empty one")
            return
        if head[0] in ":!":
            return self.no_body(body)
        if re.match(r"(ASA|FWSM) Version ", head):
            return self.no_body(body)
        handler = {
            "hostname": self.hostname, "domain-name": self.domain, "interface": self.interface, "name": self.name,
            "time-range": self.time_range, "object": self.object, "object-group": self.object_group,
            "access-list": self.access_list, "access-group": self.access_group, "nat": self.nat,
        }.get(first)
        if handler:
            w = Words(self, head)
            w.take()
            if handler == self.access_list:
                m.pending = pending
            if handler in (self.interface, self.time_range, self.object, self.object_group):
                return handler(w, body)
            handler(w)
            return self.no_body(body)
        if first in IGNORED:
            if first == "names" and head != "names":
                raise Unspecified("words behind names")
            if len(words) == 1 and first != "names":
                raise Unspecified("an ignored command without arguments")
            if body and first not in BLOCKS:
                raise Unspecified("body of an ignored command")
            return
        if any(first.startswith(i) for i in IGNORED):
            raise Unspecified("looks like an ignored command")
        if any(first.startswith(i) for i in COMMANDS):
            raise Malformed(first)
        raise Malformed(first)

    def no_body(self, body):
        if body:
            raise Malformed("indented line")

    def define(self, kind, name):
        if self.owner.get(name, kind) != kind:
            raise Unspecified("one name for two things")
        if name in self.owner:
            raise Unspecified("defined twice")
        if name in KEYWORDS:
            raise Unspecified("a keyword as name")
        self.owner[name] = kind

    # -- simple commands
    def hostname(self, w):
        n = w.take()
        if re.match(r"\d", n):
            raise Unspecified("digit in front")
        if not re.fullmatch(IDENT, n):
            raise Malformed(n)
        w.done()
        self.m.hostname = n

    def domain(self, w):
        n = w.take()
        if re.match(r"\d", n):
            raise Unspecified("digit in front")
        if not re.fullmatch(IDENT, n):
            raise Malformed(n)
        w.done()
        self.m.domain = n

    def name(self, w):
        a = w.take()
        a = ip4(a) if is_ip4(a) else ip6(a)
        h = w.match(IDENT)
        d = None
        if w.more:
            w.want("description")
            if not w.more:
                raise Malformed("no description")
            d = w.rest()
        self.define("name", h)
        self.m.name(a, h, d and d[1:])

    def access_group(self, w):
        acl = w.match(NAME)
        if w.opt("global"):
            return w.done()
        d = w.one("in", "out")
        w.want("interface")
        n = w.match(NAME)
        if w.peek() in ("per-user-override", "control-plane"):
            raise Unspecified("option of an access-group")
        w.done()
        if any(g[1:] == (acl, d) and i["nameif"] == n for i in self.m.interfaces.values() for g in i["access_groups"]) or \
           any(g[2] == d for i in self.m.interfaces.values() if i["nameif"] == n for g in i["access_groups"]):
            raise Unspecified("second access-group")
        self.m.access_group(acl, d, n)

    def interface(self, w, body):
        alias = w.take()
        w.done()
        if alias in self.m.interfaces:
            raise Unspecified("second section of an interface")
        details = []
        for l in body:
            if l.strip() == "":
                raise Unspecified("blank line")
            try:
                d = self.detail(Words(self, l), l)
            except BadValue:
                raise
            except Malformed:
                raise Unspecified(DETAIL)
            if d:
                details.append(d)
        names = [d[1] for d in details if d[0] == "nameif"]
        if len(names) > 1 or sum(d[0] == "description" for d in details) > 1:
            raise Unspecified("said twice")
        if names and any(i["nameif"] == names[0] for i in self.m.interfaces.values()):
            raise Unspecified("one name for two interfaces")
        if any(n in [i["nameif"] for i in self.m.interfaces.values()] + list(self.m.interfaces) for n in names + [alias]):
            raise Unspecified("name and alias")
        self.m.section(alias, *details)

    def detail(self, d, l):
        """A line of an interface section."""
        if d.opt("description"):
            if len(l.rstrip()) < 13:
                raise Unspecified("empty description")
            return "description", l[12:].lstrip()
        if d.opt("nameif"):
            n = d.match(IDENT)
            d.done()
            if n == "any":
                raise Unspecified("interface any")
            return "nameif", n
        if d.peek() == "ip" and d.peek(1) == "address" and is_ip4(d.peek(2)):
            d.want("ip", "address")
            a, m, s = ip4(d.take()), d.take(), None
            ip4(m)
            if d.opt("standby"):
                s = ip4(d.take())
            d.done()
            return "ip", a, mask(netmask(m)), s
        if d.peek() == "ipv6" and d.peek(1) == "address" and ":" in (d.peek(2) or ""):
            d.want("ipv6", "address")
            a, slash, p = d.take().partition("/")
            if not slash:
                raise Unspecified("link-local address")
            ip6(a)
            if not p.isdigit():
                raise Malformed(p)
            s = ip6(d.take()) if d.opt("standby") else None
            d.done()
            return "ipv6", a, number(p, 128), s
        if d.peek() in ("nameif", "ip", "ipv6", "description") and d.peek(1) in (None, "address"):
            raise Unspecified("address of another kind")
        return None  # any other line is ignored

    # -- time
    def clock(self, w):
        t = w.match(r"\d{1,2}:\d{1,2}")
        h, mi = map(int, t.split(":"))
        if h > 23 or mi > 59:
            raise Malformed(t)
        if not re.fullmatch(r"\d{1,2}:\d\d", t):
            self.loose = True
        return h, mi

    def date(self, w):
        h, mi = self.clock(w)
        d, mo, y = w.match(r"\d{1,2}"), w.one(*MONTHS), w.match(r"\d{4}")
        d, mo, y = int(d), MONTHS.index(mo) + 1, int(y)
        import datetime

        try:
            datetime.date(y, mo, d)
        except ValueError:
            raise Malformed("no such day")
        if not 1993 <= y <= 2035:
            self.loose = True
        return y, mo, d, h, mi

    def time_range(self, w, body):
        name = w.take()
        w.done()
        items = []
        for l in body:
            d = Words(self, l)
            k = d.take()
            if k == "absolute":
                start = self.date(d) if d.opt("start") else None
                end = self.date(d) if d.opt("end") else None
                d.done()
                if start is None and end is None or (start and end and end <= start):
                    self.loose = True
                items.append(("absolute", start, end))
            elif k == "periodic":
                if d.peek() in ("daily", "weekdays", "weekend"):
                    days, several = (d.take(),), True
                else:
                    days, several = (), False
                    while d.peek() in DAYS:
                        days += (d.take(),)
                    if not days:
                        raise Malformed("no day")
                    if len(set(days)) < len(days):
                        self.loose = True
                start = self.clock(d)
                d.want("to")
                last = d.take() if not several and d.peek() in DAYS else None
                end = self.clock(d)
                d.done()
                if not last and end <= start:
                    self.loose = True
                items.append(("periodic", days, start, last, end))
            elif k == "no":
                raise Unspecified("no inside a time-range")
            else:
                raise Malformed(k)
        if not items or sum(i[0] == "absolute" for i in items) > 1:
            self.loose = True
        self.define("time", name)
        self.m.time[name] = ("time", name, tuple(items))

    # -- objects
    def description(self, l):
        if not l.startswith("description "):
            raise Malformed(l)
        if not l[12:].strip():
            raise Unspecified("empty description")
        return l[12:].lstrip()

    def object(self, w, body):
        kind = w.one("network", "service")
        name = w.match(NAME)
        w.done()
        body = list(body)
        if any(not l.strip() for l in body):
            raise Unspecified("blank line")
        return (self.object_network if kind == "network" else self.object_service)(name, body)

    def object_network(self, name, body):
        m = self.m
        value, args, nat, desc = None, None, None, None
        kinds = [l.split()[0] for l in body]
        for k in kinds:
            if k not in ("host", "subnet", "range", "fqdn", "nat", "description"):
                raise Malformed(k)
        if len(set(kinds)) < len(kinds) or len([k for k in kinds if k not in ("nat", "description")]) > 1:
            # the later line would replace the earlier one
            raise Unspecified("said twice")
        rank = {"nat": 1, "description": 2}
        if sorted(kinds, key=lambda k: rank.get(k, 0)) != kinds:
            self.loose = True
        if kinds and all(k == "description" for k in kinds):
            self.loose = True
        if not kinds:
            self.loose = True
        later = None
        for l in body:
            d = Words(self, l)
            k = d.take()
            if k == "host":
                a = d.take()
                args = ("host", ip4(a) if is_ip4(a) else ip6(a))
            elif k == "subnet":
                a = d.take()
                if is_ip4(a):
                    args = ("subnet", ip4(a), netmask(d.take()))
                else:
                    a, slash, p = a.partition("/")
                    args = ("subnet", ip6(a), number(p, 128))
                    if not slash:
                        raise Malformed(a)
                if ipaddress.ip_network(f"{args[1]}/{args[2]}", strict=False).network_address != ipaddress.ip_address(args[1]):
                    self.loose = True  # host bits
            elif k == "range":
                a, b = d.take(), d.take()
                f = ip4 if is_ip4(a) else ip6
                args = ("range", f(a), f(b))
                if int(ipaddress.ip_address(b)) < int(ipaddress.ip_address(a)):
                    raise Malformed("range upside down")
            elif k == "fqdn":
                limit = d.take() if d.peek() in ("v4", "v6") else None
                if limit and not d.more:
                    raise Unspecified("a domain of that name")
                args = ("fqdn", limit, d.take())
            elif k == "nat":
                later = d
                continue
            elif k == "description":
                desc = self.description(l)
                continue
            d.done()
        if name in m.netobj:
            if args is not None:
                raise Unspecified("defined twice")
            if desc is not None or not later:
                raise Unspecified("opened again")
        else:
            self.define("network object", name)
            m.object_network(name, *(args or (None,)), description=desc)
        if later:
            self.object_nat(name, later)

    def object_service(self, name, body):
        if not body:
            self.loose = True
            raise Unspecified("an object without a service")
        d = Words(self, body[0])
        d.want("service")
        v = self.service(d, numbers_only=True)
        desc = None
        if len(body) > 1:
            if len(body) > 2:
                raise Malformed("too many lines")
            desc = self.description(body[1])
        self.define("service object", name)
        self.m.svcobj[name] = v
        self.m.svcobj_desc[name] = desc

    def port_term(self, w):
        op = w.one("eq", "neq", "lt", "gt", "range")
        if op == "range":
            a, b = port(w.take()), port(w.take())
            if isinstance(a, int) and isinstance(b, int):
                if b < a:
                    raise Malformed("range upside down")
                if a == b:
                    self.loose = True
            return ("range", canon.number(a), canon.number(b))
        return ("port", op, canon.number(port(w.take())))

    def service(self, w, numbers_only=False):
        p = w.take()
        if p in ("icmp", "icmp6"):
            t = c = None
            if w.more:
                t = icmp_number(w.take())
                if w.more:
                    c = number(w.take(), 255)
            w.done()
            return ("proto", p), None, None, t, c
        if p in ("tcp", "udp", "tcp-udp"):
            src = self.port_term(w) if w.opt("source") else None
            dst = self.port_term(w) if w.opt("destination") else None
            w.done()
            return ("proto", p), src, dst, None, None
        if p in vocab.PROTOCOLS:
            if numbers_only or p == "icmpv6":
                self.loose = True
            if w.more and p == "icmpv6":
                raise Unspecified("types of icmpv6")
            w.done()
            return ("proto", p), None, None, None, None
        n = number(p, 255)
        w.done()
        return ("proto", n), None, None, None, None

    def object_group(self, w, body):
        m = self.m
        kind = w.one("network", "service", "icmp-type", "protocol")
        name = w.match(NAME)
        proto = None
        if kind == "service" and w.more:
            proto = w.one("tcp", "udp", "tcp-udp")
            kind = "port"
        w.done()
        body = list(body)
        if any(not l.strip() for l in body):
            raise Unspecified("blank line")
        desc = None
        if body and body[0].split()[0] == "description":
            desc = self.description(body.pop(0))
        if not body:
            self.loose = True
        members = []
        for l in body:
            d = Words(self, l)
            members.append(getattr(self, "member_" + kind.replace("-", "_"))(d))
            d.done()
        kind = "icmp" if kind == "icmp-type" else kind
        self.define(kind + " group", name)
        m.group(kind, name, [("", c) for c in members], desc, proto)

    def group_ref(self, w, kind):
        n = w.take()
        if n not in self.m.groups[kind]:
            raise Malformed(f"{n} is not defined")
        return self.m.groups[kind][n]

    def object_ref(self, w):
        n = w.take()
        if n not in self.m.netobj:
            raise Malformed(f"{n} is not defined")
        return self.m.obj(n)[1]

    def named(self, w):
        return w in [n[0] for n in self.m.names]

    def network(self, w):
        """address mask | name mask | address/length | name/length"""
        a = w.take()
        if "/" in a:
            a, p = a.split("/", 1)
            p = number(p, 128)
            if self.named(a):
                if ":" not in self.m.named(a)[1][0] and p > 32 and self.m.named(a)[1][1] == 4:
                    raise Malformed("length")
                if self.m.named(a)[1][1] == 4:
                    self.loose = True
                return net(f"{self.address_of(a)}/{p}", a)
            return net(f"{ip6(a)}/{p}")
        if is_ip4(a):
            return net(f"{ip4(a)}/{netmask(w.take())}")
        if self.named(a):
            if self.m.named(a)[1][1] == 6:
                raise Malformed("a mask for IPv6")
            return net(f"{self.address_of(a)}/{netmask(w.take())}", a)
        raise Malformed(a)

    def address_of(self, name):
        return [n[1] for n in self.m.names if n[0] == name][-1]

    def single(self, w):
        a = w.take()
        if is_ip4(a):
            return net(ip4(a))
        if self.named(a):
            return net(self.address_of(a), a)
        return net(ip6(a))

    def member_network(self, w):
        k = w.one("network-object", "group-object")
        if k == "group-object":
            return self.group_ref(w, "network")
        if w.opt("host"):
            return self.single(w)
        if w.opt("object"):
            return self.object_ref(w)
        return self.network(w)

    def member_port(self, w):
        k = w.one("port-object", "group-object")
        if k == "group-object":
            return self.group_ref(w, "port")
        if w.peek() not in ("eq", "range"):
            raise Malformed("operator")
        return self.port_term(w)

    def member_service(self, w):
        k = w.one("service-object", "group-object")
        if k == "group-object":
            return self.group_ref(w, "service")
        if w.opt("object"):
            n = w.take()
            if n not in self.m.svcobj:
                raise Malformed(n)
            return self.m.sobj(n)[1]
        return ("svc",) + self.service(w)

    def member_protocol(self, w):
        k = w.one("protocol-object", "group-object")
        if k == "group-object":
            return self.group_ref(w, "protocol")
        p = w.take()
        return ("proto", p if p in vocab.PROTOCOLS else number(p, 255))

    def member_icmp_type(self, w):
        k = w.one("icmp-object", "group-object")
        if k == "group-object":
            return self.group_ref(w, "icmp")
        return ("icmp", canon.number(icmp_number(w.take())), None)

    # -- access lists
    def host(self, w):
        k = w.peek()
        if k in ("any", "any4", "any6"):
            w.take()
            return (k,)
        if k == "host":
            w.take()
            return self.single(w)
        if k == "ip":
            raise Unspecified("ip for host")
        if k == "interface":
            w.take()
            return ("iface", w.match(IDENT))
        if k == "object":
            w.take()
            return self.object_ref(w)
        if k == "object-group":
            w.take()
            return self.group_ref(w, "network")
        return self.network(w)

    def ports(self, w):
        if is_port_op(w.peek()):
            return self.port_term(w)
        if w.peek() == "object-group" and w.peek(1) in self.m.groups["port"]:
            w.take()
            return self.group_ref(w, "port")
        if w.peek() == "object-group" and w.peek(1) in self.m.groups["service"]:
            raise Unspecified("service group in the place of a port")
        return None

    def options(self, w):
        out = []
        while w.more:
            o = w.take()
            if any(x[0] == o for x in out):
                self.loose = True
                raise Unspecified("option twice")
            if o == "log":
                tokens, level = [], None
                while w.more:
                    if w.peek() in ("debugging", "disable", "default", "notifications", "warnings", "critical") or w.peek() in list("01234567"):
                        if tokens:
                            self.loose = True
                        tokens.append(w.take())
                    elif w.peek() in ("alerts", "emergencies", "errors", "informational"):
                        self.loose = True
                        tokens.append(w.take())
                    elif w.peek() == "interval":
                        if "interval" in tokens:
                            self.loose = True
                        tokens.append(w.take())
                        n = w.match(r"[0-9]+")
                        if not 1 <= int(n) <= 600:
                            self.loose = True
                        tokens.append(n)
                    else:
                        break
                out.append(("log", ("log", tuple(tokens))))
            elif o == "time-range":
                n = w.take()
                if n not in self.m.time:
                    raise Malformed(n)
                out.append(("time-range", self.m.time[n]))
            elif o == "inactive":
                out.append(("inactive", ("inactive",)))
            else:
                raise Malformed(o)
        return tuple(out)

    def access_list(self, w):
        m = self.m
        acl = w.match(NAME)
        kind = w.take()
        if kind == "remark":
            t = w.rest()
            if t in ("", " ") or not t.startswith(" "):
                raise Unspecified("empty remark")
            m.pending.append((acl, t[1:]))
            return
        if kind == "ethertype":
            m.pending = []
            return
        if kind in ("line", "permit", "deny"):
            raise Unspecified("older form")
        if kind not in ("extended", "standard", "webtype"):
            raise Malformed(kind)
        mode = w.one("permit", "deny")
        if kind == "standard":
            if w.peek() in ("object", "object-group", "interface", "any6") or ":" in (w.peek() or "") or ":" in (w.peek(1) or ""):
                self.loose = True
            src = self.host(w)
            w.done()
            m._add(canon.make_rule(acl, mode, ("proto", "ip"), src, ("any",)))
            return
        if kind == "webtype":
            what = w.one("url", "tcp")
            dport = None
            if what == "url":
                dst = ("url", w.take())
            else:
                if w.peek() in ("object", "object-group", "interface"):
                    self.loose = True
                dst, dport = self.host(w), self.ports(w)
            o = self.options(w)
            if any(x[0] == "inactive" for x in o):
                self.loose = True
            m._add(canon.make_rule(acl, mode, ("proto", what), ("any",), dst, None, dport, None, o))
            return
        p = w.take()
        icmpish = ported = False
        if p == "object":
            n = w.take()
            if n not in m.svcobj:
                raise Malformed(n)
            proto = m.sobj(n)[1]
        elif p == "object-group":
            n = w.take()
            if n in m.groups["service"]:
                proto = m.groups["service"][n]
            elif n in m.groups["protocol"]:
                proto = m.groups["protocol"][n]
            else:
                raise Malformed(n)
        else:
            proto = ("proto", p if p in vocab.PROTOCOLS else number(p, 255))
            icmpish = p in ("icmp", "icmp6")
            ported = p in ("tcp", "udp")
            if p == "icmpv6":
                self.loose = True
        src = self.host(w)
        sport = self.ports(w)
        dst = self.host(w)
        dport = self.ports(w)
        if (sport or dport) and not ported:
            self.loose = True
        icmp = None
        if icmpish and not dport and w.more and (w.peek() == "object-group" or w.peek() in vocab.ICMP or w.peek().isdigit()):
            if w.opt("object-group"):
                icmp = self.group_ref(w, "icmp")
            else:
                t = icmp_number(w.take())
                c = None
                if w.more and w.peek().isdigit():
                    c = number(w.take(), 255)
                icmp = ("icmp", canon.number(t), c)
            if sport:
                raise Unspecified("port and type")
        o = self.options(w)
        m._add(canon.make_rule(acl, mode, proto, src, dst, sport, dport, icmp, o))

    # -- nat
    def interfaces_of(self, w):
        t = w.take()
        g = re.fullmatch(r"\(([^,()]+),([^,()]+)\)", t)
        if not g:
            raise Malformed(t)
        known = {i["nameif"] for i in self.m.interfaces.values() if i["nameif"]} | set(self.m.interfaces)
        for i in g.groups():
            if i != "any" and i not in known:
                raise Malformed(i)
            if i != "any" and i in self.m.interfaces and not any(x["nameif"] == i for x in self.m.interfaces.values()):
                self.loose = True
        return g.groups()

    def net_ref(self, w):
        n = w.take()
        if n in self.m.netobj:
            return self.m.obj(n)[1]
        if n in self.m.groups["network"]:
            return self.m.groups["network"][n]
        raise Malformed(n)

    def keyword_interface(self, w, mapped):
        if mapped == "any":
            raise Unspecified("interface of any")
        if w.peek() == "ipv6":
            raise Unspecified("interface ipv6 as source")
        return "interface"

    def pool(self, w):
        v = self.net_ref(w)
        seen = []
        while w.peek() in ("round-robin", "extended", "flat"):
            o = w.take()
            if o == "flat":
                w.opt("include-reserve")
            if o in seen:
                self.loose = True
            seen.append(o)
        if seen != [o for o in ("round-robin", "extended", "flat") if o in seen]:
            self.loose = True
        return v

    def fallback(self, w, mapped):
        if not w.opt("interface"):
            return None
        if mapped == "any":
            raise Unspecified("interface of any")
        return "interface ipv6" if w.opt("ipv6") else "interface"

    def object_nat(self, name, w):
        m = self.m
        real, mapped = self.interfaces_of(w)
        kind = w.one("static", "dynamic")
        p = w.peek()
        if p is None:
            raise Malformed("nothing mapped")
        plain = False
        if p == "interface":
            w.take()
            to = self.keyword_interface(w, mapped)
        elif p == "pat-pool":
            w.take()
            to = self.pool(w)
            if kind == "static":
                self.loose = True
        elif is_ip4(p):
            to = net(ip4(w.take()))
        elif ":" in p:
            w.take()
            a, slash, l = p.partition("/")
            to = net(f"{ip6(a)}/{number(l, 128)}") if slash else net(ip6(a))
        else:
            to = self.net_ref(w)
        fb = None
        if w.peek() == "interface":
            if kind == "static" or to == "interface":
                self.loose = True
                if to == "interface":
                    raise Malformed("interface twice")
            fb = self.fallback(w, mapped)
        service, options = None, []
        if kind == "static" and w.opt("service"):
            service = (w.one("tcp", "udp"), port(w.take()), port(w.take()))
        while w.more:
            o = w.take()
            if o not in ("dns", "no-proxy-arp", "route-lookup"):
                if o in ("net-to-net",):
                    raise Unspecified(o)
                if o == "service":
                    raise Unspecified("order of the options")
                raise Malformed(o)
            if o in options:
                raise Unspecified("option twice")
            options.append(o)
        if kind == "dynamic" and set(options) - {"dns"}:
            self.loose = True
        if service and "dns" in options:
            self.loose = True
        if any(n["real_src"] == ("obj", name, m.netobj[name]) for n in m.nat[2]):
            raise Unspecified("second translation of an object")
        m.object_nat(name, real, mapped, kind, ("", to), fb, service, tuple(options), reopen=True)

    def nat(self, w):
        m = self.m
        t = w.peek()
        g = re.match(r"\(([^,()]+)\)", t or "")
        if g:
            if not any(i["nameif"] == g.group(1) for i in m.interfaces.values()):
                raise Malformed(g.group(1))
            return
        real, mapped = self.interfaces_of(w)
        after = None
        if w.peek() in ("after-object", "after-auto"):
            after = w.take()
            if w.peek() and w.peek().isdigit():
                w.take()
        elif w.peek() and w.peek().isdigit():
            raise Unspecified("line number")
        w.want("source")
        kind = w.one("static", "dynamic")
        src = ("any",) if w.opt("any") else self.net_ref(w)
        fb = None
        if w.opt("interface"):
            to = self.keyword_interface(w, mapped)
        elif w.opt("any"):
            if kind == "dynamic":
                raise Malformed("any")
            to = ("any",)
        elif w.opt("pat-pool"):
            if kind == "static":
                raise Malformed("pat-pool")
            to = self.pool(w)
        else:
            to = self.net_ref(w)
        if w.peek() == "interface":
            if to == "interface":
                raise Malformed("interface twice")
            if kind == "static":
                raise Malformed("interface behind a static translation")
            fb = self.fallback(w, mapped)
        dst = None
        if w.opt("destination"):
            w.want("static")
            if w.opt("interface"):
                md = self.keyword_interface(w, mapped)
            elif w.opt("any"):
                md = ("any",)
                self.loose = True
            else:
                md = self.net_ref(w)
            if w.peek() == "any":
                raise Unspecified("any as real destination")
            dst = (("", md), ("", self.net_ref(w)))
        service = None
        if w.opt("service"):
            pair = []
            for _ in range(2):
                n = w.take()
                if n not in m.svcobj:
                    raise Malformed(n)
                v = m.svcobj[n]
                pair.append((n, (("proto", v[0][1]),) + v[1:]))
            sides = {tuple(x is not None for x in v[1][1:3]) for v in pair}
            if sides == {(False, True)}:
                service = ("", pair[1][1], pair[0][1])
            elif sides == {(True, False)} and kind == "static":
                service = ("", pair[0][1], pair[1][1])
            else:
                raise Unspecified("kinds of service")
        options, description = [], None
        while w.more:
            o = w.take()
            if o == "description":
                description = w.rest()[1:]
                if not description:
                    raise Unspecified("empty description")
                break
            if o not in ("net-to-net", "dns", "unidirectional", "no-proxy-arp", "inactive", "route-lookup"):
                raise Malformed(o)
            if o in options:
                raise Unspecified("option twice")
            if kind == "dynamic" and o in ("net-to-net", "no-proxy-arp", "route-lookup"):
                self.loose = True
            options.append(o)
        m.twice_nat(real, mapped, kind, ("", src), ("", to), fb, dst, service, tuple(options), description, after)


IOS_IGNORED = """aaa alias appfw archive arp banner boot-start-marker boot-end-marker boot bridge call-home class-map clock control-plane
crypto cts Current define diagnostic dialer-list dial-peer dot11 enable encryption errdisable file firewall hw-module isdn key license
lldp logging login mac-address-table mac-address memory mls mmi multilink no platform policy-map port-channel power redundancy resource
rmon route-map router rtr security switch service snmp-server snmp spanning-tree system transceiver username Using vlan vpdn vrf vtp
wism version""".split()
IOS_BLOCKS = """appfw archive call-home class-map control-plane crypto dot11 key policy-map redundancy route-map router transceiver vlan vpdn
vrf""".split()
IP_IGNORED = """cef as-path inspect domain name-server http nat subnet-zero dhcp tcp scp ssh classless forward-protocol ips flow-cache
flow-export vrf multicast-routing accounting-threshold host ftp default-gateway sla slb flow-aggregation flow-top-talkers prefix-list
pim routing tftp""".split()
IP_BLOCKS = "dhcp ssh vrf sla slb flow-aggregation flow-top-talkers".split()
ICMP6_TYPES = ["nd-ns", "nd-na"] + vocab.ICMP


class IosReader(AsaReader):
    def __init__(self):
        from .ios import Ios

        self.m = Ios()
        self.loose = False
        self.owner = {}

    slices = ("header", "rules", "groups", "interfaces", "access_groups", "routes")

    def read(self, text):
        lines = text.split("\n")
        if lines and lines[-1] == "":
            lines.pop()
        sections, i = [], 0
        while i < len(lines):
            l = lines[i]
            i += 1
            if l.startswith(" ") and sections:
                sections[-1][1].append(l[1:])
                continue
            if l in ("end", "line") or l.startswith("line "):
                break
            if l.startswith(("end", "line")):
                raise Unspecified("looks like the end")
            if l.startswith("banner"):
                if l != "banner motd ^C":
                    raise Unspecified("another banner")
                while i < len(lines) and "^" not in lines[i]:
                    i += 1
                if i == len(lines):
                    raise Malformed("banner without end")
                if lines[i] != "^C":
                    raise Unspecified("text around the end of a banner")
                i += 1
                sections.append(["!", []])
                continue
            sections.append([l, []])
        if not sections:
            raise Unspecified("nothing")
        for head, body in sections:
            self.section(head, body)
        if self.m.pending:
            raise Unspecified("remark without a rule")
        return self.m.state(*self.slices)

    def section(self, head, body):
        m = self.m
        if head.startswith(" "):
            raise Malformed("indented")
        first = head.split()[0] if head else ""
        pending, m.pending = m.pending, []
        if pending and first != "access-list":
            raise Unspecified("remark without a rule")
        if head == "" or head[0] in ":!":
            if body and not head:
                raise Unspecified("indented lines behind an empty one")
            return self.no_body(body)
        w = Words(self, head)
        w.take()
        if first == "access-list":
            m.pending = pending
            self.numbered(w)
            return self.no_body(body)
        if first == "ip":
            return self.ip(w, body)
        if first == "ipv6":
            return self.ipv6(w, body)
        if first == "interface":
            return self.interface(w, body)
        if first == "object-group":
            return self.object_group(w, body)
        if first == "hostname":
            self.hostname(w)
            return self.no_body(body)
        if first == "domain-name":
            raise Unspecified("domain-name")
        if first in IOS_IGNORED:
            if len(head.split()) == 1 or first in ("Current", "Using", "define", "boot-start-marker", "boot-end-marker"):
                raise Unspecified("an ignored command without arguments")
            if body and first not in IOS_BLOCKS:
                raise Unspecified("body of an ignored command")
            return
        if any(first.startswith(i) for i in IOS_IGNORED):
            raise Unspecified("looks like an ignored command")
        raise Malformed(first)

    def interface(self, w, body):
        alias = w.take()
        w.done()
        if alias in self.m.interfaces:
            raise Unspecified("second section of an interface")
        details = []
        for l in body:
            if l.strip() == "":
                raise Unspecified("blank line")
            try:
                d = self.detail(Words(self, l), l)
            except BadValue:
                raise
            except Malformed:
                raise Unspecified(DETAIL)
            if d:
                details.append(d)
        if sum(d[0] == "description" for d in details) > 1:
            raise Unspecified("said twice")
        self.m.interface(alias, *details)

    def detail(self, d, l):
        if d.opt("description"):
            if len(l.rstrip()) < 13:
                raise Unspecified("empty description")
            return "description", l[12:].lstrip()
        two = (d.peek(), d.peek(1))
        if two == ("ip", "address") and is_ip4(d.peek(2)):
            d.want("ip", "address")
            a, n = ip4(d.take()), d.take()
            ip4(n)
            d.opt("secondary")
            d.done()
            return "ip", a, mask(netmask(n))
        if two == ("ipv6", "address") and ":" in (d.peek(2) or ""):
            d.want("ipv6", "address")
            a, slash, p = d.take().partition("/")
            ip6(a)
            if slash and not p.isdigit():
                raise Malformed(p)
            local = d.opt("link-local")
            if local == bool(slash):
                self.loose = True
            d.done()
            return "ipv6", a, number(p, 128) if slash else None
        if two in (("ip", "access-group"), ("ipv6", "traffic-filter")) and d.peek(2):
            d.want(*two)
            n, x = d.match(NAME), d.one("in", "out")
            d.done()
            return two[1], n, x
        if two == ("switchport", "mode"):
            d.want(*two)
            v = d.one("access", "trunk")
            if d.more:
                raise Unspecified("words behind the mode")
            return "mode", v
        if d.w[:4] == ["switchport", "trunk", "allowed", "vlan"] and d.peek(4):
            d.want("switchport", "trunk", "allowed", "vlan")
            kind = "add" if d.opt("add") else "vlans"
            out = []
            for v in d.take().split(","):
                g = re.fullmatch(r"(\d+)(?:-(\d+))?", v)
                if not g:
                    raise Malformed(v)
                a, b = int(g[1]), g[2] and int(g[2])
                if not 1 <= a <= 4094 or (b is not None and not a < b <= 4094):
                    raise Unspecified("no such VLAN")
                out.append(a if b is None else (a, b))
            if d.more:
                raise Unspecified("words behind the list")
            return kind, tuple(out)
        if d.peek() in ("ip", "ipv6", "switchport", "description") and d.peek(1) in (None, "address", "access-group", "traffic-filter", "trunk", "mode"):
            raise Unspecified(DETAIL)
        return None

    # -- groups
    def object_group(self, w, body):
        m = self.m
        kind = w.one("network", "service", "icmp-type", "protocol")
        name = w.match(NAME)
        if kind in ("icmp-type", "protocol") or w.more:
            raise Unspecified("a group of ASA")
        body = list(body)
        if any(not l.strip() for l in body):
            raise Unspecified("blank line")
        desc = None
        if body and body[0].split()[0] == "description":
            desc = self.description(body.pop(0))
        if not body:
            self.loose = True
        members = []
        for l in body:
            d = Words(self, l)
            members.append(("", getattr(self, "member_" + kind)(d)))
            d.done()
        self.define(kind + " group", name)
        m.group(kind, name, members, desc)

    def member_network(self, w):
        if w.opt("group-object"):
            return self.group_ref(w, "network")
        if w.opt("host"):
            a = w.take()
            return net(ip4(a) if is_ip4(a) else ip6(a))
        if w.peek() == "range":
            raise Unspecified("range")
        if w.peek() == "any":
            raise Unspecified("any")
        a = w.take()
        if is_ip4(a):
            return net(f"{ip4(a)}/{netmask(w.take())}")
        a, slash, p = a.partition("/")
        if not slash:
            raise Malformed(a)
        if is_ip4(a):
            raise Unspecified("length of an IPv4 network")
        return net(f"{ip6(a)}/{number(p, 128)}")

    def member_service(self, w):
        if w.opt("group-object"):
            return self.group_ref(w, "service")
        if w.peek() in ("tcp", "udp", "tcp-udp") and w.peek(1) not in (None, "source", "destination"):
            # the keyword of the destination may be omitted on a device
            raise Unspecified("destination without the keyword")
        return ("svc",) + self.service(w)

    # -- ip, ipv6
    def ip(self, w, body):
        m = self.m
        what = w.take()
        if what == "access-list":
            kind = w.one("standard", "extended")
            name = w.match(NAME)
            w.done()
            m.named(kind, name)
            if not body:
                self.loose = True
            for l in body:
                d = Words(self, l)
                if d.w and d.w[0].isdigit():
                    d.take()
                k = d.take() if d.more else ""
                if k == "remark":
                    t = d.rest()
                    if t.strip() == "":
                        raise Unspecified("empty remark")
                    m.pending.append((name, t[1:]))
                    continue
                if k not in ("permit", "deny"):
                    raise Malformed(k)
                self.no_tail(l)
                m._add(name, k, self.standard(d) if kind == "standard" else self.extended(d))
            return
        if what == "domain" and w.peek() == "name":
            w.take()
            if not w.more:
                raise Unspecified("no name")
            n = w.match(NAME)
            w.done()
            m.domain = n
            return self.no_body(body)
        if what == "route":
            if not is_ip4(w.peek()) or not is_ip4(w.peek(1)):
                raise Unspecified("another kind of route")
            try:
                a, k = ip4(w.take()), ip4(w.take())
                g = w.take()
                if g not in m.interfaces:
                    ip4(g)
            except Malformed:
                raise Unspecified("another kind of route")
            p = netmask(k)
            try:
                ipaddress.ip_network(f"{a}/{p}")
            except ValueError:
                raise Malformed("host bits")
            m.route(a, mask(p), g)
            return self.no_body(body)
        if what in IP_IGNORED:
            if len(w.w) == 2 and what not in ("cef", "subnet-zero", "classless") or what in ("dhcp", "cef", "subnet-zero", "classless") and w.more:
                raise Unspecified("ignored")
            if body and what not in IP_BLOCKS:
                raise Unspecified("body of an ignored command")
            return
        if any(what.startswith(i) for i in IP_IGNORED + ["route"]):
            raise Unspecified("looks like an ignored command")
        raise Malformed(what)

    def ipv6(self, w, body):
        m = self.m
        what = w.take()
        if what == "access-list":
            name = w.match(NAME)
            w.done()
            m.ipv6(name)
            if not body:
                raise Malformed("empty list")
            for l in body:
                d = Words(self, l)
                if not d.w or d.w[0] != "sequence":
                    raise Unspecified("rule without a sequence") if d.w and d.w[0] in ("permit", "deny", "remark") else Malformed(l)
                d.take()
                seq = d.match(r"\d+")
                mode = d.one("permit", "deny")
                self.no_tail(l)
                f = self.six(d)
                f["options"] = tuple(f["options"]) + (("sequence", int(seq)),)
                m._add(name, mode, f)
            return
        if any(what.startswith(i) for i in ("unicast-routing", "nd", "route", "prefix-list", "ipv6")):
            raise Unspecified("ignored")
        raise Malformed(what)

    def no_tail(self, l):
        if l != l.rstrip():
            raise Unspecified("trailing blanks")

    def numbered(self, w):
        m = self.m
        acl = w.take()
        if w.opt("remark"):
            if not re.fullmatch(NAME, acl):
                raise Malformed(acl)
            t = w.rest()
            if t.strip() == "":
                raise Unspecified("empty remark")
            m.pending.append((acl, t.lstrip()))
            return
        self.no_tail(w.line)
        if not acl.isdigit():
            raise Malformed(acl)
        n = int(acl)
        if str(n) != acl:
            raise Unspecified("leading zero")
        if 1 <= n <= 99 or 1300 <= n <= 1399:
            mode = w.one("permit", "deny")
            return m._add(acl, mode, self.standard(w))
        if 100 <= n <= 199 or 2000 <= n <= 2699:
            mode = w.one("permit", "deny")
            return m._add(acl, mode, self.extended(w))
        if 1400 <= n <= 1999 or 200 <= n <= 1299:
            raise Unspecified("number of another kind")
        raise Malformed(acl)

    def ios_host(self, w):
        a = w.take()
        if a == "any":
            return ("any",)
        if a == "host":
            return net(ip4(w.take()))
        if a == "object-group":
            return self.group_ref(w, "network")
        if is_ip4(w.peek()):
            return canon.wild(ip4(a), ip4(w.take()))
        return "bare", net(ip4(a))

    def standard(self, w):
        h = self.ios_host(w)
        if h[0] == "bare":
            h = h[1]
        elif h[0] == "grp":
            self.loose = True
        o = []
        if w.opt("log"):
            o.append(("log", w.match(IDENT) if w.more else None))
            if w.more and w.peek() == "log":
                raise Unspecified("option twice")
        w.done()
        return {"protocol": ("proto", "ip"), "src": h, "dst": ("any",), "options": tuple(o)}

    def full_host(self, w):
        h = self.ios_host(w)
        if h[0] == "bare":
            self.loose = True
            return h[1]
        return h

    def extended(self, w):
        m = self.m
        p = w.take()
        icmpish = ported = False
        if p == "object-group":
            proto = self.group_ref(w, "service")
        elif p == "object":
            raise Malformed(p)
        else:
            proto = ("proto", p if p in vocab.PROTOCOLS else number(p, 255))
            icmpish, ported = p in ("icmp", "icmp6"), p in ("tcp", "udp")
            if p in ("icmp6", "icmpv6", "ipv6"):
                self.loose = True
        src = self.full_host(w)
        sport = self.ports(w)
        dst = self.full_host(w)
        dport = self.ports(w)
        if (sport or dport) and not ported:
            self.loose = True
        icmp = None
        if icmpish and not dport and w.more and (w.peek() in vocab.ICMP or w.peek().isdigit()):
            t, c = icmp_number(w.take()), None
            if w.more and w.peek().isdigit():
                c = number(w.take(), 255)
            icmp = ("icmp", canon.number(t), c)
            if sport:
                raise Unspecified("port and type")
        return {"protocol": proto, "src": src, "dst": dst, "sport": sport, "dport": dport, "icmp": icmp, "options": self.ios_options(w, ported)}

    OPTIONS = {"precedence": True, "dscp": True, "tos": True, "time-range": True, "fragments": False, "log-input": None, "log": None, "established": False}

    def ios_options(self, w, tcp):
        return self.some_options(w, self.OPTIONS)

    def some_options(self, w, known):
        """known: name -> argument needed (True), impossible (False) or possible (None)"""
        out = []
        while w.more:
            o = w.take()
            if o not in known:
                raise Malformed(o)
            if any(x[0] == o for x in out):
                raise Unspecified("option twice")
            v = None
            if known[o] is True or known[o] == "int":
                v = w.take()
                if known[o] == "int":
                    v = int(v) if v.isdigit() else self.bad(v)
                elif v[:1].isdigit():
                    raise Unspecified("a number for a name")
                elif not re.fullmatch(IDENT, v):
                    raise Malformed(v)
                elif v in known:
                    self.loose = True
            elif known[o] is None and w.more:
                v = w.take()
                if v in known or not re.fullmatch(IDENT, v):
                    raise Unspecified("an option or a word of the log")
            elif known[o] == "maybe int" and w.more and w.peek().isdigit():
                v = int(w.take())
            out.append((o, v))
        return tuple(out)

    def bad(self, v):
        raise Malformed(v)

    OPTIONS6 = {"dest-option-type": True, "dscp": True, "flow-label": True, "fragments": False, "log-input": False, "log": False,
                "mobility-type": "int", "mobility": False, "routing-type": "maybe int", "routing": False, "time-range": True}

    def six_host(self, w):
        a = w.take()
        if a == "any":
            return ("any",)
        if a == "host":
            return net(ip6(w.take()))
        a, slash, p = a.partition("/")
        if not slash:
            raise Malformed(a)
        return net(f"{ip6(a)}/{number(p, 128)}")

    def six(self, w):
        p = w.take()
        if p == "object-group":
            proto = self.group_ref(w, "service")
        else:
            proto = ("proto", p if p in vocab.PROTOCOLS else number(p, 255))
        if p in ("ip",):
            self.loose = True
        src = self.six_host(w)
        sport = self.ports(w)
        dst = self.six_host(w)
        dport = self.ports(w)
        if (sport or dport) and p not in ("tcp", "udp"):
            self.loose = True
        if p in ("icmp", "icmp6") and w.more and w.peek() in ICMP6_TYPES:
            o = []
            if sport or dport:
                raise Unspecified("port and type")
            while w.more and w.peek() in ICMP6_TYPES:
                o.append((w.take(), None))
            if w.more or len(set(o)) < len(o):
                raise Unspecified("options of ICMP")
            if len(o) > 1:
                self.loose = True
            o = tuple(o)
        else:
            o = self.some_options(w, self.OPTIONS6)
            if p in ("icmp", "icmp6") and o:
                self.loose = True
        return {"protocol": proto, "src": src, "dst": dst, "sport": sport, "dport": dport, "icmp": None, "options": o}


KEYWORDS = set("""any any4 any6 host object object-group interface eq neq lt gt range log inactive time-range extended standard webtype
remark permit deny ip tcp udp icmp service static dynamic source destination description network""".split()) | set(vocab.PORTS) | set(vocab.ICMP) | set(vocab.PROTOCOLS)


def verdict(dialect, text):
    r = {"asa": AsaReader, "ios": IosReader}[dialect]()
    try:
        state = r.read(text)
    except Malformed as e:
        return REJECTED, str(e)
    except Unspecified as e:
        return UNSPECIFIED, str(e)
    return (LOOSE if r.loose else "state"), state
