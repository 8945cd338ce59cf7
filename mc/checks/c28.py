"""Looking up a service by name: every name, every protocol, every spelling, against the documented table."""
import itertools

from ..core import guarded

# Cisco ASA 7.2 configuration guide, "TCP and UDP Ports" and "ICMP Types"
TABLE = """
aol tcp 5190, bgp tcp 179, biff udp 512, bootpc udp 68, bootps udp 67, chargen tcp 19, citrix-ica tcp 1494, cmd tcp 514, ctiqbe tcp 2748, daytime tcp
13, discard tcp/udp 9, domain tcp/udp 53, dnsix udp 195, echo tcp/udp 7, exec tcp 512, finger tcp 79, ftp tcp 21, ftp-data tcp 20, gopher tcp 70,
https tcp 443, h323 tcp 1720, hostname tcp 101, ident tcp 113, imap4 tcp 143, irc tcp 194, isakmp udp 500, kerberos tcp/udp 750, klogin tcp 543,
kshell tcp 544, ldap tcp 389, ldaps tcp 636, lpd tcp 515, login tcp 513, lotusnotes tcp 1352, mobile-ip udp 434, nameserver udp 42, netbios-ns udp
137, netbios-dgm udp 138, netbios-ssn tcp 139, nntp tcp 119, ntp udp 123, pcanywhere-status udp 5632, pcanywhere-data tcp 5631, pim-auto-rp tcp/udp
496, pop2 tcp 109, pop3 tcp 110, pptp tcp 1723, radius udp 1645, radius-acct udp 1646, rip udp 520, secureid-udp udp 5510, smtp tcp 25, snmp udp 161,
snmptrap udp 162, sqlnet tcp 1521, ssh tcp 22, sunrpc tcp/udp 111, syslog udp 514, tacacs tcp/udp 49, talk tcp/udp 517, telnet tcp 23, tftp udp 69,
time udp 37, uucp tcp 540, who udp 513, whois tcp 43, www tcp 80, xdmcp udp 177, echo icmp 8, echo-reply icmp 0, information-reply icmp 16,
information-request icmp 15, mask-reply icmp 18, mask-request icmp 17, mobile-redirect icmp 32, parameter-problem icmp 12, redirect icmp 5,
router-advertisement icmp 9, router-solicitation icmp 10, source-quench icmp 4, time-exceeded icmp 11, timestamp-reply icmp 14, timestamp-request icmp
13, unreachable icmp 3, traceroute icmp 30
"""


def table():
    t = {}
    for entry in TABLE.replace("\n", " ").split(","):
        name, protocols, number = entry.split()
        for p in protocols.split("/"):
            t[name, p] = int(number)
    return t


def spell(p):
    return list(dict.fromkeys([p, p.upper(), p.capitalize(), p[:-1] + p[-1].upper()]))


def cases(t):
    names = list(dict.fromkeys(n for n, _ in t))
    known = set(names)
    others = ["", "nosuch", "80", "tcp"] + [n + x for n in names for x in ("x", "-", " ")] + [n[:-1] for n in names] + ["x" + n for n in names]
    others = [n for n in dict.fromkeys(others) if n not in known]
    for n in names:
        got = [k for (m, _), k in t.items() if m == n]
        yield n, None, got
        for p in ("tcp", "udp", "icmp"):
            for s in spell(p):
                yield n, s, [t.get((n, p))]
        for s in ("", "ip", "tcp,udp", "TCP,UDP", "sctp", "tc", "tcpx", " tcp", "icmp6", "esp"):
            yield n, s, [None]
    for n in others:
        for s in (None, "tcp", "udp", "icmp", "UDP"):
            yield n, s, [None]


def job(result, part):
    from acltk.aclObjects import PortUtil

    for name, p, want in part:
        s, got = guarded(PortUtil.getservbyname, name, p) if p is not None else guarded(PortUtil.getservbyname, name)
        result.traces += 1
        result.transitions += 1
        result.state((name, p))
        result.outcome("a number" if want != [None] else "nothing")
        if s != "ok" or got not in want or isinstance(got, str):
            result.violation(f"port of {name!r} for {p!r} is {want[0]}, the implementation says {got!r}", {"name": name, "protocol": p}, want, got)
    result.samples.append({"name": name, "protocol": p, "number": want})


def listing(result):
    """The list of all services, in the order the histories of iteration and lookup may interleave."""
    from acltk.aclObjects import PortUtil

    t = table()
    for steps in itertools.product((0, 1, 5), repeat=3):
        it = PortUtil.services()
        seen = []
        for k in steps:
            for _ in range(k):
                seen.append(next(it))
            PortUtil.getservbyname("www", "tcp")
        seen += list(it)
        result.traces += 1
        got = sorted((s.name, s.protocol.strip().lower(), int(s.port)) for s in seen)
        if got != sorted((n, p, k) for (n, p), k in t.items()):
            result.violation("the list of services is not the documented table", {"steps": steps})


def run(ctx):
    t = table()
    c = list(cases(t))
    ctx.bounds = {"names": len({n for n, _ in t}), "lookups": len(c)}
    ctx.batches(job, c, 500)
    listing(ctx.total)


def replay(result, p):
    if "steps" in p:
        return listing(result)
    job(result, [c for c in cases(table()) if c[0] == p["name"] and c[1] == p["protocol"]])
