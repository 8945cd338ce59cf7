"""IOS IPv6 access-list rules carry exactly what the line says."""
from itertools import product

from .. import configs, vocab
from ..asa import op, proto, rng
from ..canon import net
from ..core import explore
from ..ios import ANY, Ios, extended, prefix
from .c17 import opt, world

NAMES = ["x", "x-1", "a.b_C+2", "6", "permit", "sequence"]
# the types an ICMP rule of the supported grammar names
TYPES = ["nd-ns", "nd-na", "router-solicitation", "router-advertisement", "redirect"]


def host(a):
    return f"host {a}", net(a)


def menus(m, full):
    hosts = [ANY, prefix("2001:db8::", 32), host("2001:db8::1"), prefix("::", 0), prefix("2001:DB8:0:ABCD::", 64), host("fe80::1")]
    if full:
        hosts += [prefix("2001:db8:ffff:ffff:ffff:ffff:ffff:ffff", n) for n in range(129)]
        hosts += [host(a) for a in ("::", "::1", "FE80::A:b", "1:2:3:4:5:6:7:8", "ff02::1:2", "::ffff:10.0.0.1", "2001:db8::",
                                    "ABCD:EF01:2345:6789:ABCD:EF01:2345:6789", "a::", "0:0:0:0:0:0:0:0")]
    ports = [None, op("eq", 80), op("gt", 1023), op("lt", "bgp"), op("neq", "ssh"), rng(1, 65535), rng("ftp-data", "ftp")]
    if full:
        ports += [op("eq", 0), op("eq", 65535), rng(9, 10), rng(80, "https"), rng("www", 443)] + [op("eq", n) for n in vocab.PORTS]
    protos = [proto("tcp"), proto("udp"), proto("ipv6"), proto("icmp"), proto(6), ("object-group sg", m.groups["service"]["sg"])]
    if full:
        protos += [proto(p) for p in vocab.PROTOCOLS if p not in ("tcp", "udp", "ipv6", "icmp")]
        protos += [proto(n) for n in (0, 1, 17, 58, 255)]
    opts = [(), (opt("log"),), (opt("log-input"),), (opt("fragments"),), (opt("dscp", "af11"),), (opt("routing"),), (opt("mobility"),),
            (opt("mobility-type", 5), opt("log")), (opt("time-range", "tr"), opt("log-input")), (opt("routing-type", 0),)]
    if full:
        one = [opt("dest-option-type", "home-address"), opt("dscp", "ef"), opt("flow-label", "x1"), opt("fragments"), opt("log"), opt("log-input"),
               opt("mobility"), opt("mobility-type", 255), opt("routing"), opt("routing-type", 2), opt("routing-type"),
               opt("time-range", "log"), opt("time-range", "tr-1.x")]
        opts += [(o,) for o in one]
        opts += [(a, b) for a, b in product(one, one) if a[1] != b[1]]
        opts += [tuple(one[i] for i in (0, 1, 2, 3, 5, 6, 8, 12)), tuple(one[i] for i in (12, 4, 3, 7, 9))]
    types = [(), (opt("nd-ns"),), (opt("nd-na"),), (opt("router-advertisement"),), (opt("redirect"),)]
    if full:
        types += [(opt(t),) for t in TYPES + [t for t in vocab.ICMP if t not in TYPES]] + [(opt("nd-ns"), opt("nd-na"))]
    return hosts, ports, protos, opts, types


KINDS = ["port", "icmp"]


def driver(m, full, kind):
    hosts, ports, protos, opts, types = menus(m, full)

    def run(ch):
        acl = ch("name", NAMES)
        seq = ch("sequence", [10, 1, 4294967294])
        mode = ch("mode", ["permit", "deny"])
        if kind == "icmp":
            body = extended(ch("icmp protocol", [proto("icmp"), proto("icmp6")]), ch("source", hosts), ch("destination", hosts),
                            options=ch("icmp type", types))
        else:
            p = ch("protocol", protos)
            src, sport = ch("source", hosts), ch("source port", ports)
            body = extended(p, src, ch("destination", hosts), sport, ch("destination port", ports), options=ch("options", opts))
        sep = ch("blanks", [" ", "  ", "\t"])
        n = Ios()
        n.ipv6(acl)
        n.text = ""
        n.rule6(seq, mode, body)
        return f"ipv6 access-list {acl}\n " + sep.join(n.text[1:].split(" ")), n.rules[0]

    return run


def job(result, cases, preamble):
    configs.check_rule_lines(result, "ios", preamble, cases, "IPv6 access-list rule")
    if len(result.samples) < 1:
        result.samples.append({"line": cases[0][0], "rule": configs.jsonable(cases[0][1])})


def lists(depth, names):
    """Sequences of rules and list headers: the rules keep their order and the list they stand in."""
    bodies = [extended(proto("tcp"), prefix("2001:db8::", 32), ANY, None, op("eq", 22)), extended(proto("ipv6"), ANY, ANY, options=(opt("log"),)),
              extended(proto("udp"), host("fe80::1"), prefix("::", 0), op("gt", 9), None)]

    def run(ch):
        m = Ios()
        m.ipv6(names[0])
        m.rule6(10, "permit", bodies[0])
        for i in range(depth):
            act = ch("event", ["rule"] + names + ["end"])
            if act == "end":
                break
            if act != "rule":
                m.ipv6(act)
            m.rule6(ch("sequence", [20 + i, 5, 10]), ch("mode", ["deny", "permit"]), ch("body", bodies))
        return m

    return run


def traces(result, cases):
    for text, want in cases:
        configs.check(result, "ios", text, want, "IPv6 lists")


def run(ctx):
    m = world()
    cases, seen = [], set()
    bounds = ((True, ctx.pick(1, 2)), (False, ctx.pick(2, 3)))
    for full, bound in bounds:
        for kind in KINDS:
            for _, (line, rule) in explore(driver(m, full, kind), bound):
                if line not in seen:
                    seen.add(line)
                    cases.append((line, rule))
    ctx.batches(job, cases, 100, m.text)
    seqs = {}
    depth, dev = ctx.pick(3, 4), ctx.pick(3, 4)
    for _, n in explore(lists(depth, ["a", "b", "a1"]), dev):
        seqs[n.text] = n.state("rules")
    ctx.batches(traces, seqs.items(), 40)
    ctx.bounds = {"full vocabulary: deviations": bounds[0][1], "core vocabulary: deviations": bounds[1][1], "distinct lines": len(cases),
                  "lists: rules": depth + 1, "lists: deviations": dev, "lists: configurations": len(seqs)}


replay = configs.replay
