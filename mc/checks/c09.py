"""ASA rules, remarks, ignored commands and definitions in every order."""
from .. import configs
from ..asa import ANY, Asa, host, icmp, log, op, proto, subnet
from ..core import explore

IGNORED = [l for l in """
: Saved|!|! access-list a extended permit ip any any|aaa-server RADIUS protocol radius|aaa authentication ssh console LOCAL|app-agent heartbeat interval 1000
arp-inspection inside enable|arp timeout 14400|asdm image disk0:/asdm.bin|auth-prompt prompt hello|boot system disk0:/asa.bin|call-home|class-map inspection_default
clock timezone CET 1|console timeout 0|command-alias exec h help|Cryptochecksum:d41d8cd98f00b204e9800998ecf8427e|crypto ipsec security-association lifetime seconds 28800
crypto map outside_map 1 match address a|dhcpd address 10.0.0.2-10.0.0.9 inside|dhcprelay timeout 60|dns-guard|dns domain-lookup inside|dns server-group DefaultDNS
dynamic-access-policy-record DfltAccessPolicy|enable password x encrypted|eou allow none|established tcp 0|failover|failover lan unit primary|firewall transparent
flow-export destination inside 10.0.0.9 2055|fragment chain 1|ftp mode passive|global (outside) 1 interface|group-policy DfltGrpPolicy attributes|hpm topN enable
http server enable|icmp unreachable rate-limit 1 burst-size 1|ipv6 route outside ::/0 2001:db8::1|ip local pool p 10.0.0.1-10.0.0.9|ip audit name x info|license smart
ldap attribute-map m|logging enable|mac-address-table aging-time 5|mac-address auto|management-access inside|monitor-interface inside|mtu inside 1500|multicast-routing
nac-policy p nac-framework|names|nat-control|no failover|no access-list a extended permit ip any any|no names|ntp server 10.0.0.9|pager lines 24|passwd x encrypted
password-policy minimum-length 8|policy-map global_policy|privilege cmd level 3 mode exec command perfmon|prompt hostname context|resource acl-partition 12|router ospf 1
route outside 0.0.0.0 0.0.0.0 10.0.0.254 1|same-security-traffic permit inter-interface|service-module 1|service-policy global_policy global|service resetoutside
sla monitor 1|snmp-map m|snmp-server host inside 10.0.0.9|smtp-server 10.0.0.9|ssh 10.0.0.0 255.0.0.0 inside|ssl encryption aes256-sha1|static (inside,outside) 10.0.0.1 10.0.0.2
sysopt connection permit-vpn|tcp-map t|telnet timeout 5|terminal width 80|tftp-server inside 10.0.0.9 x|threat-detection basic-threat|timeout xlate 3:00:00
tls-proxy maximum-session 100|tunnel-group-map default-group x|tunnel-group x type remote-access|user-identity default-domain LOCAL|username admin password x encrypted
url-cache dst 128|virtual telnet 10.0.0.9|vpdn username x password y|vpn-group-policy x|vpn load-balancing|webvpn|xlate-bypass|xlate per-session deny tcp any4 any4
""".replace("\n", "|").split("|") if l]
SECTIONS = """aaa-server|call-home|class-map|crypto|dns server-group|dynamic-access-policy-record|group-policy|license smart|ldap|nac-policy|policy-map|router
sla|snmp-map|ssh|tcp-map|tunnel-group x|username|vpn load|webvpn""".replace("\n", "|").split("|")
BODIES = [(), (" parameters",), (" access-list a extended permit ip any any", "  nested access-list b extended deny ip any any"),
          (" object network n", " match any", " !"), ("  host 10.0.0.1", " exit"), (" nameif inside",)]
REMARKS = ["text", "two  words", "access-list a extended permit ip any any", " leading", "remark", "!", "10.0.0.1 \"quoted\" <b>&amp;", "täxt é", "trailing ", "x" * 200,
           "(* not a comment *) # neither", "\ttab"]
BODY = {
    "extended": lambda m, a, i: m.rule(a, "permit", proto("tcp"), host(f"10.0.0.{i + 1}"), ANY, None, op("eq", 80)),
    "log": lambda m, a, i: m.rule(a, "deny", proto("icmp"), ANY, subnet("10.1.0.0", 16), icmp=icmp("echo"), options=(log(),)),
    "standard": lambda m, a, i: m.standard(a, "permit", host(f"10.0.1.{i + 1}")),
    "webtype": lambda m, a, i: m.webtype(a, "deny", ("url", "http://a/*")),
    "ethertype": lambda m, a, i: m.ethertype(a, "permit bpdu"),
}


def world():
    m = Asa()
    m.interface("Ethernet0/0", "inside", [("10.0.0.1", "255.255.255.0", None)])
    m.raw("!\n")
    return m


def definition(m, i):
    m.pending = []
    m.object_network(f"o{i}", "host", f"10.9.9.{i + 1}")


def group(m, i):
    from ..canon import net

    m.pending = []
    m.group("network", f"g{i}", [(f"network-object host 10.8.0.{i + 1}", net(f"10.8.0.{i + 1}"))])


def binding(m, i):
    m.pending = []
    m.access_group("a", "in", "inside")


EVENTS = {
    "rule a": lambda m, i: BODY["extended"](m, "a", i),
    "remark a": lambda m, i: m.remark("a", f"about a {i}"),
    "remark b": lambda m, i: m.remark("b", f"about b {i}"),
    "rule b": lambda m, i: BODY["log"](m, "b", i),
    "comment": lambda m, i: m.raw("!\n"),
    "section": lambda m, i: m.raw("policy-map p\n access-list a extended permit ip any any\n"),
    "standard a": lambda m, i: BODY["standard"](m, "a", i),
    "object": definition,
    "webtype b": lambda m, i: BODY["webtype"](m, "b", i),
    "ethertype a": lambda m, i: BODY["ethertype"](m, "a", i),
    "ignored": lambda m, i: m.raw("no access-list a\n"),
    "rule ab": lambda m, i: BODY["extended"](m, "ab", i),
    "remark ab": lambda m, i: m.remark("ab", f"about ab {i}"),
    "group": group,
    "access-group": binding,
    # equal rules and equal remarks are still several
    "same rule a": lambda m, i: BODY["extended"](m, "a", 9),
    "same remark a": lambda m, i: m.remark("a", "---"),
    "same remark b": lambda m, i: m.remark("b", "---"),
}
SAME = ["same rule a", "same remark a", "remark a", "same remark b", "rule b"]
SLICES = ("rules", "network_objects", "groups", "access_groups", "nat", "interfaces")


def sequences(depth, events):
    def run(ch):
        m = world()
        for i in range(depth):
            e = ch("event", events + ["end"])
            if e == "end":
                break
            EVENTS[e](m, i)
        return m

    return run


def noise():
    """Every ignored command in front of, between and behind rules and remarks, with and without lines of its own."""
    for line in IGNORED:
        bodies = BODIES if any(line.startswith(s) for s in SECTIONS) else BODIES[:1]
        for body in bodies:
            text = "".join(l + "\n" for l in (line,) + body)
            for place in range(4):
                m = world()
                steps = [lambda: BODY["extended"](m, "a", 0), lambda: m.remark("a", "one"), lambda: BODY["log"](m, "a", 1), lambda: BODY["standard"](m, "s", 2)]
                for i, s in enumerate(steps):
                    if i == place:
                        m.raw(text)
                    s()
                if place == 3:
                    m.raw(text)
                    definition(m, 1)
                    m.raw(text)
                yield m


def remarks():
    for kind in BODY:
        for t in REMARKS:
            for a in ("a", "a-1", "remark"):
                for n in (1, 2, 3):
                    m = world()
                    BODY["extended"](m, a, 0)
                    for k in range(n):
                        m.remark(a, t if k == n - 1 else f"line {k}")
                    BODY[kind](m, a, 1)
                    BODY["extended"](m, a, 2)
                    yield m


def job(result, cases):
    for text, want, label in cases:
        configs.check(result, "asa", text, want, label)
    result.samples.append({"text": cases[0][0], "expected": configs.jsonable(cases[0][1]["rules"])})


def run(ctx):
    cases = {}

    def add(m, label):
        cases.setdefault(m.text, (m.state(*SLICES), label))

    names = [i for i in EVENTS if not i.startswith("same")]
    plan = [(ctx.pick(3, 4), names), (ctx.pick(4, 5), names[:7]), (ctx.pick(4, 6), SAME)]
    counts = []
    for depth, events in plan:
        before = len(cases)
        for _, m in explore(sequences(depth, events)):
            add(m, "sequence of commands")
        counts.append(len(cases) - before)
    before = len(cases)
    for m in noise():
        add(m, "ignored command")
    for m in remarks():
        add(m, "remark")
    ctx.bounds = {"all sequences": [{"events": len(e), "up to": d, "configurations": c} for (d, e), c in zip(plan, counts)],
                  "ignored commands and remarks": len(cases) - before}
    ctx.batches(job, [(t, s, l) for t, (s, l) in cases.items()], 40)


replay = configs.replay
