"""IOS rules, remarks, banners, ignored commands and definitions in every order."""
from .. import configs
from ..asa import icmp, op, proto
from ..canon import net
from ..core import explore
from ..ios import ANY, Ios, bare, extended, host, masked, prefix, standard
from .c17 import opt

DECOY = "access-list 101 permit ip any any"
IGNORED = [l for l in """
!|! access-list 101 permit ip any any|: saved|aaa new-model|alias exec x show|appfw policy-name x|archive|arp 10.0.0.1 0000.0000.0001 ARPA|boot-start-marker|boot-end-marker
boot system flash|bridge irb|call-home|class-map match-any x|clock timezone CET 1|control-plane|crypto isakmp policy 1|crypto pki certificate chain x|cts logging verbose
Current configuration : 99 bytes|define interface-range x|diagnostic bootup level minimal|dialer-list 1 protocol ip permit|dial-peer cor custom|dot11 syslog
enable secret 5 x|encryption x|errdisable recovery cause all|file prompt quiet|firewall x|hw-module x|isdn switch-type x|key chain x|license udi x|lldp run|logging buffered 4096
login block-for 1 attempts 2 within 3|mac-address-table aging-time 5|mac-address x|memory free low-watermark 1|mls qos|mmi polling-interval 60|multilink bundle-name authenticated
no ip http server|no access-list 101 permit ip any any|no service pad|platform x|policy-map x|port-channel load-balance src-dst-ip|power redundancy-mode redundant|redundancy
resource policy|rmon event 1|route-map x permit 10|router ospf 1|rtr responder|security authentication failure rate 3|switch 1 provision x|service timestamps debug datetime msec
snmp-server community x RO 10|snmp mib persist|spanning-tree mode pvst|system mtu routing 1500|transceiver type all|username x secret 5 y|Using 99 out of 999 bytes
vlan internal allocation policy ascending|vlan 10|vpdn enable|vrf definition x|vtp mode transparent|wism service-vlan 1
ip cef|ip as-path access-list 1 permit .*|ip inspect name x tcp|ip domain lookup|ip name-server 10.0.0.1|ip route vrf x 10.0.0.0 255.0.0.0 10.0.0.1|ip http server
ip nat inside source list 101 interface x overload|ip subnet-zero|ip dhcp excluded-address 10.0.0.1 10.0.0.9|ip dhcp pool x|ip tcp synwait-time 10|ip scp server enable
ip ssh version 2|ip classless|ip forward-protocol nd|ip ips notify log|ip flow-cache timeout active 1|ip flow-export version 5|ip vrf x|ip multicast-routing
ip accounting-threshold 9|ip host x 10.0.0.1|ip ftp source-interface x|ip default-gateway 10.0.0.1|ip sla 1|ip slb x|ip flow-aggregation cache x|ip flow-top-talkers
ip prefix-list x seq 5 permit 10.0.0.0/8|ip pim rp-address 10.0.0.1|ip routing|ip tftp source-interface x
ipv6 unicast-routing|ipv6 nd x|ipv6 route ::/0 fe80::1|ipv6 prefix-list x seq 5 permit ::/0
""".replace("\n", "|").split("|") if l]
SECTIONS = ("appfw|archive|call-home|class-map|control-plane|crypto|dot11|key|policy-map|redundancy|route-map|router|transceiver|vlan|vpdn|vrf|"
            "ip dhcp pool|ip ssh|ip vrf|ip sla|ip slb|ip flow-agg|ip flow-top").split("|")
BODIES = [(), (" parameters",), (" " + DECOY, "  permit ip any any"), (" ip access-list extended a", " permit tcp any any", "  deny ip any any"), (" exit", " !")]
BANNERS = [("^C", "hello"), ("^C", "\nAuthorised\n access only\n"), ("^C", "\n" + DECOY + "\n"), ("#", "one # less".replace("#", "")), ("#", "\n" + DECOY + "\n!\nend\n"),
           ("^C", " a ^ b ^^ \n"), ("^C", "caret ^"), ("$", "\n^C\n(.*)\n"), ("\\", "back\nslash"), ("x", "\nno delimiter\n"), (".", "\ndot\n"), ("é", "\naccent\n"),
           ("^", "\nhello\n"), ("^C", "")]
REMARKS = ["text", "two  words", DECOY, "permit ip any any", "remark", "10 permit", "!", "<b>&\"", "é", "x" * 200]

EXT = [lambda i: extended(proto("tcp"), host(f"10.0.0.{i + 1}"), ANY, None, op("eq", 80)),
       lambda i: extended(proto("icmp"), ANY, masked("10.1.0.0", "0.0.255.255"), icmp=icmp("echo"), options=(opt("log"),))]
STD = [lambda i: standard(bare(f"10.2.0.{i + 1}")), lambda i: standard(masked("10.3.0.0", "0.0.255.255"), (opt("log"),))]
V6 = [lambda i: extended(proto("udp"), prefix("2001:db8::", 32), ANY, None, op("gt", i + 1))]


def named(kind, acl, *steps):
    def f(m, i):
        m.named(kind, acl)
        for n, s in enumerate(steps):
            if isinstance(s, str):
                m.remark(f"{s} {i}")
            else:
                m.rule("deny", s(i), n * 10 + 10 if n % 2 else None)

    return f


def numbered(acl, *steps, remark=None):
    def f(m, i):
        for s in steps:
            if isinstance(s, str):
                m.remark(f"{s} {i}", acl=remark or acl)
            else:
                m.rule("permit", s(i), acl=acl)

    return f


def v6(m, i):
    m.ipv6("six")
    m.rule6(10, "permit", V6[0](i))
    m.rule6(20, "deny", V6[0](i + 1))


def banner(delim, text):
    def f(m, i):
        m.raw(f"banner motd {delim}{text}{delim}\n")

    return f


def group(m, i):
    m.pending = []
    m.group("network", f"g{i}", [(f"host 10.8.0.{i + 1}", net(f"10.8.0.{i + 1}"))])


EVENTS = {
    "named": named("extended", "a", EXT[0]),
    "remark and numbered": numbered("101", "about", EXT[1]),
    "numbered": numbered("101", EXT[0]),
    "remark of another list": numbered("101", "stray", EXT[0], remark="102"),
    "comment": lambda m, i: m.raw("!\n"),
    "standard": numbered("10", "about", STD[0], STD[1]),
    "section": lambda m, i: m.raw(f"policy-map p\n {DECOY}\n"),
    "dhcp": lambda m, i: m.raw("ip dhcp pool p\n network 10.0.0.0 255.0.0.0\n"),
    "banner": banner("^C", f"\n{DECOY}\n"),
    "named with remarks": named("extended", "a", "one", EXT[1], "two", "three", EXT[0]),
    "named standard": named("standard", "s", STD[0], "about", STD[1]),
    "ipv6": v6,
    "interface": lambda m, i: m.interface(f"Vlan{i}", ("ip", f"10.7.{i}.1", "255.255.255.0"), ("access-group", "a", "in")),
    "group": group,
    "other numbered": numbered("102", EXT[0]),
    "numbered named": named("extended", "101", EXT[0]),
    "ignored": lambda m, i: m.raw("no access-list 101\n"),
}
SLICES = ("rules", "groups", "interfaces", "access_groups", "routes")


def sequences(depth, events):
    def run(ch):
        m = Ios()
        m.raw("!\n")
        for i in range(depth):
            e = ch("event", events + ["end"])
            if e == "end":
                break
            EVENTS[e](m, i)
        m.say(ch("last", ["end", "line con 0\n exec-timeout 0 0", "!"]))
        return m

    return run


def inside(depth, same=False):
    """Remarks and rules (`same`: equal ones, too) inside one list, which ends in a rule."""
    def run(ch):
        style = ch("style", ["named", "numbered", "named standard", "numbered standard"])
        m = Ios()
        acl = "a" if style.startswith("named") else "101" if style == "numbered" else "10"
        seq = ch("sequence numbers", [False, True]) if style.startswith("named") else False
        if style.startswith("named"):
            m.named("standard" if "standard" in style else "extended", acl)
        for i in range(depth):
            e = ch("step", ["rule", "remark", "same rule", "same remark", "stop"] if same else ["rule", "remark", "comment", "stop"])
            if e == "stop":
                break
            if e == "comment":
                if style.startswith("named") or m.text.splitlines()[-1:] and " remark " in m.text.splitlines()[-1]:
                    return None
                m.raw("!\n")
            elif e.endswith("remark"):
                m.remark("---" if e == "same remark" else f"number {i}", seq and i * 10 + 10, None if style.startswith("named") else acl)
            else:
                body = (STD if "standard" in style else EXT)[i % 2](i) if e == "rule" else (STD if "standard" in style else EXT)[0](9)
                m.rule("permit", body, seq and i * 10 + 10, None if style.startswith("named") else acl)
        if not m.text.splitlines() or "remark" in m.text.splitlines()[-1]:
            return None
        m.raw("!\n")
        return m

    return run


def noise():
    for line in IGNORED:
        for body in BODIES if any(line.startswith(s) for s in SECTIONS) else BODIES[:1]:
            text = "".join(l + "\n" for l in (line,) + body)
            for place in range(4):
                m = Ios()
                steps = [lambda: named("extended", "a", "x", EXT[0])(m, 0), lambda: numbered("101", "about", EXT[1])(m, 1), lambda: v6(m, 2)]
                for i, s in enumerate(steps + [lambda: None]):
                    if i == place:
                        m.raw(text)
                    s()
                yield m


def banners():
    for b in BANNERS:
        for place in range(3):
            m = Ios()
            m.raw("!\n")
            for i in range(3):
                if i == place:
                    banner(*b)(m, 0)
                numbered("101", "r", EXT[0])(m, i)
            yield m


def remarks():
    for t in REMARKS:
        for n in (1, 2, 3):
            m = Ios()
            m.named("extended", "a")
            for k in range(n):
                m.remark(t)
            m.rule("permit", EXT[0](0))
            for k in range(n):
                m.remark(t, acl="10")
            m.rule("permit", STD[0](0), acl="10")
            m.named("standard", "remark")
            for k in range(n):
                m.remark(t, 10 * k + 10)
            m.rule("permit", STD[0](0), 50)
            yield m


def job(result, cases):
    for text, want, label in cases:
        configs.check(result, "ios", text, want, label)
    result.samples.append({"text": cases[0][0], "expected": configs.jsonable(cases[0][1]["rules"])})


def run(ctx):
    cases = {}

    def add(m, label):
        cases.setdefault(m.text, (m.state(*SLICES), label))

    names = list(EVENTS)
    plan = [(ctx.pick(3, 4), names), (ctx.pick(4, 5), names[:6] + ["dhcp"])]
    counts = []
    for depth, events in plan:
        before = len(cases)
        for v, m in explore(sequences(depth, events)):
            if v[-1] == 0 or len(v) <= 3:
                add(m, "sequence of commands")
        counts.append(len(cases) - before)
    before = len(cases)
    for gen, label in ((noise(), "ignored command"), (remarks(), "remark"), (banners(), "banner"), ((m for _, m in explore(inside(ctx.pick(5, 7)))), "remarks and rules"),
                       ((m for _, m in explore(inside(ctx.pick(4, 6), True))), "equal remarks and rules")):
        for m in gen:
            add(m, label)
    ctx.bounds = {"all sequences": [{"events": len(e), "up to": d, "configurations": c} for (d, e), c in zip(plan, counts)],
                  "ignored commands, banners, remarks": len(cases) - before}
    ctx.batches(job, [(t, s, l) for t, (s, l) in cases.items()], 40)


replay = configs.replay
