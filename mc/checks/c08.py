"""ASA/FWSM access-list rules carry exactly what the line says."""
from .. import asa, configs, vocab, worlds
from ..asa import ANY, ANY4, ANY6, host, icmp, log, op, proto, rng, rule_line, subnet
from ..core import explore

IDS = ["acl", "acl-1", "a.b_C+2", "101"]


def menus(m, full):
    hosts = [
        ANY, host("10.0.0.1"), subnet("10.1.0.0", 16), ANY4, ANY6, m.obj("net"), m.grp("grp"), m.named("srv"),
        m.named("srv", 24), host("2001:db8::1"), subnet("2001:db8::", 32), ("interface inside", ("iface", "inside")),
    ]
    if full:
        hosts += [
            subnet("10.0.0.0", 0), subnet("128.0.0.0", 1), subnet("10.0.0.8", 31), subnet("10.0.0.9", 32),
            subnet("10.1.2.3", 24), host("255.255.255.255"), host("0.0.0.0"), host("::"), host("::1"),
            host("::ffff:10.0.0.1"), subnet("::", 0), subnet("2001:db8::1", 128), subnet("2001:db8::2", 127),
            subnet("2001:db8:a:b:c:d:e:f", 64), ("interface outside", ("iface", "outside")),
        ]
        hosts += [m.obj(n) for n in ("net1", "net10", "net-1", "net6", "x")]
        hosts += [m.grp(n) for n in ("grp1", "grp-1", "xg")]
        hosts += [m.named("srv-1"), m.named("srv6"), m.named("srv-1", 28), m.named("srv6", 64), m.named("srv", 32)]
    grp = lambda n: (f"object-group {n}", m.groups["port"][n])
    ports = [None, op("eq", 80), op("gt", 1023), op("lt", 1024), op("neq", "ssh"), rng(1, 65535), rng("ftp-data", "ftp"),
             grp("ports"), op("eq", 0)]
    if full:
        ports += [grp("ports1"), grp("xgp"), op("eq", 65535), op("gt", 9), rng(9, 10), rng(80, 443), rng("www", 443)]
        ports += [op("eq", n) for n in vocab.PORTS]
    protos = [proto("tcp"), proto("udp"), proto("ip"), proto(6), m.sobj("svc"),
              ("object-group sg", m.groups["service"]["sg"]), ("object-group pg", m.groups["protocol"]["pg"])]
    if full:
        protos += [proto(p) for p in vocab.PROTOCOLS if p not in ("tcp", "udp", "ip", "icmp", "icmp6")]
        protos += [proto(n) for n in (0, 1, 17, 58, 103, 255)]
        protos += [m.sobj(n) for n in ("svc1", "svc-i", "xs")]
        protos += [("object-group sg1", m.groups["service"]["sg1"]), ("object-group pg1", m.groups["protocol"]["pg1"])]
    icmps = [None, icmp("echo"), icmp(8), icmp(3, 1), icmp(3, 0), icmp(0), icmp("unreachable", 255), ("object-group ig", m.groups["icmp"]["ig"])]
    if full:
        icmps += [icmp(n) for n in vocab.ICMP if n != "echo"] + [icmp(255), icmp(0, 0), icmp("echo", 0), icmp(255, 255)]
        icmps += [("object-group ig1", m.groups["icmp"]["ig1"])]
    tr, tr1 = asa.timed(m.time["tr"]), asa.timed(m.time["tr-1"])
    opts = [(), (log(),), (tr,), (asa.INACTIVE,), (log("debugging"), tr), (log(), asa.INACTIVE), (tr, asa.INACTIVE),
            (log("interval 300"),), (log("5", "interval 60"), tr1, asa.INACTIVE)]
    if full:
        tokens = ["debugging", "disable", "default", "notifications", "warnings", "critical", "interval 1"] + list("01234567")
        opts += [(log(t),) for t in tokens]
        opts += [(log(a, b),) for a in ("default", "debugging", "5") for b in ("7", "interval 600", "default")]
        opts += [(tr1,), (tr, log()), (asa.INACTIVE, tr), (tr1, log("critical"), asa.INACTIVE)]
    return hosts, ports, protos, icmps, opts


def spaced(line, ch):
    """Runs of blanks and tabs separate words, blanks may end a line."""
    sep, tail = ch("blanks", [(" ", ""), ("  ", ""), ("\t", ""), (" ", " "), (" \t ", "  ")])
    return sep.join(line.rstrip("\n").split(" ")) + tail + "\n"


KINDS = ["port", "icmp", "icmp6"]


def driver(m, full, kind):
    hosts, ports, protos, icmps, opts = menus(m, full)

    def run(ch):
        acl = ch("id", IDS)
        mode = ch("mode", ["permit", "deny"])
        if kind == "port":
            p = ch("protocol", protos)
            src, sport = ch("source", hosts), ch("source port", ports)
            dst, dport = ch("destination", hosts), ch("destination port", ports)
            i = None
        else:
            p = proto(kind)
            src, dst, i = ch("source", hosts), ch("destination", hosts), ch("icmp", icmps)
            sport = dport = None
        o = ch("options", opts)
        line, rule = rule_line(acl, mode, p, src, dst, sport, dport, i, o)
        return spaced(line, ch), rule

    return run


OTHER = ["standard", "url", "tcp"]


def other_driver(m, full, kind):
    hosts = [ANY, host("10.0.0.1"), subnet("10.1.0.0", 16), subnet("0.0.0.0", 0), ANY4, m.named("srv"), m.named("srv", 24)]
    whosts = hosts + [host("2001:db8::1"), subnet("2001:db8::", 32), m.obj("net"), m.grp("grp1")]
    urls = ["ssh://mac.example.org", "http://example.org/a?b=c&d", "any", "cifs://x/y-*"]
    ports = [None, op("eq", 80), op("lt", 81), rng(80, 81), op("neq", "ssh"), rng("www", "https")]
    opts = [(), (log(),), (log("default"),), (log("interval 300"),), (log(), asa.timed(m.time["tr"])),
            (asa.timed(m.time["tr-1"]),), (log("disable"), asa.INACTIVE)]

    def run(ch):
        acl = ch("id", IDS)
        mode = ch("mode", ["permit", "deny"])
        if kind == "standard":
            line, r = asa.standard_line(acl, mode, ch("source", hosts))
        elif kind == "url":
            line, r = asa.webtype_line(acl, mode, ("url", ch("url", urls)), ch("options", opts))
        else:
            line, r = asa.webtype_line(acl, mode, ("tcp", ch("node", whosts), ch("port", ports)), ch("options", opts))
        return spaced(line, ch), r

    return run


def job(result, cases, preamble):
    configs.check_rule_lines(result, "asa", preamble, cases, "access-list rule")
    if len(result.samples) < 1:
        result.samples.append({"line": cases[0][0], "rule": configs.jsonable(cases[0][1])})


def run(ctx):
    m = worlds.asa_world()
    cases, seen = [], set()
    for full, bound in ((True, ctx.pick(1, 2)), (False, ctx.pick(3, 4))):
        for drv in [driver(m, full, k) for k in KINDS] + [other_driver(m, full, k) for k in OTHER]:
            for _, (line, rule) in explore(drv, bound):
                if line not in seen:
                    seen.add(line)
                    cases.append((line, rule))
    ctx.bounds = {"full vocabulary: deviations": ctx.pick(1, 2), "core vocabulary: deviations": ctx.pick(3, 4),
                  "distinct lines": len(cases)}
    ctx.batches(job, cases, 120, m.text)


replay = configs.replay
