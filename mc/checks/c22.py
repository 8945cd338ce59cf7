"""pfSense aliases and rules: every combination of up to k departures from a plain rule or alias, all
sequences of alias entries, and histories of several aliases and rules, replayed on the parser."""
import datetime
import html
import itertools
import urllib.parse

from .. import canon, configs, impl, pf
from ..canon import net
from ..core import explore, first_difference, guarded, jsonable

configs.EXTRA.update(pf.SLICES)
SLICES = ("pf rules", "groups", "header")

HOSTS = ["10.0.0.1", "2001:db8::1", "255.255.255.255", "0.0.0.0", "www.example.org", "FE80::1"]
NETS = ["10.1.0.0/16", "2001:db8::/32", "10.9.9.9/32", "0.0.0.0/0", "192.168.1.77/24", "::/0", "2001:db8::1/128"]
PORTS = ["80", "90:99", "1:65535", "9:10", "443", "0:1", "65535"]
TEXTS = ["", "plain text", "<b>&amp; \"quoted\" 'it'</b>", "ümlaut ☃", "a &lt; b", "  two  blanks "]
ALIASES = [("hosts", "host", ["10.0.0.1", "10.0.0.2"]), ("hosts1", "host", ["2001:db8::1"]), ("nets", "network", ["10.1.0.0/16", "2001:db8::/32"]),
           ("ports", "port", ["80", "90:99"]), ("ports1", "port", ["443"]), ("url", "urltable", "http://192.0.2.1/list"), ("both", "host", ["10.5.5.5"]),
           ("none", "host", [])]
ADDRESSES = [("any",), ("address", "10.9.9.9"), ("address", "2001:db8::9"), ("address", "10.8.0.0/16"), ("address", "2001:db8:8::/48"),
             ("address", "10.7.7.7/8"), ("address", "hosts"), ("address", "hosts1"), ("address", "nets"), ("address", "url"), ("address", "both"),
             ("address", "none"), ("network", "lan"), ("network", "wan"), ("network", "opt1"), ("network", "opt2"), None]
RULE_PORTS = [None, "53", "1-1023", "9-10", "ports", "ports1", "65535", "1-65535"]
TIME = 1500000000
NOISE = ["<id/>", "<ipprotocol>inet6</ipprotocol>", "<tag/>", "<tagged>x</tagged>", "<max>1</max>", "<max-src-nodes/>", "<max-src-conn/>",
         "<max-src-states/>", "<statetimeout>9</statetimeout>", "<os/>", "<quick>yes</quick>"]


def world(root="pfsense", style="plain"):
    m = pf.Pf(root)
    m.style = style
    for n, k, e in ALIASES:
        m.alias(n, k, e)
    m.interface("wan", "em0", "WAN", "dhcp")
    m.interface("lan", "em1", None, "10.0.0.1/24")
    m.interface("opt1", "em2", "DMZ <1>")
    m.interface("opt2", "em3")
    return m


FLOATING = [(None, None), ("no", None), ("yes", "any"), ("yes", "in"), ("yes", "out"), ("no", "in")]


def one_rule(ch):
    floating, direction = ch("floating", FLOATING)
    interface = ch("interface", ["wan", "lan", "opt1", "opt2"] + (["wan,lan", "opt1,opt2,lan"] if floating == "yes" else []))
    source = ch("source", ADDRESSES)
    destination = ch("destination", ADDRESSES)
    return dict(
        interface=interface, floating=floating, direction=direction,
        type=ch("type", ["pass", "block", "reject"]),
        protocol=ch("protocol", [None, "tcp", "udp", "tcp/udp", "icmp", "esp", "any", "47"]),
        icmptype=ch("icmptype", [None, "echoreq", "3"]),
        source=source, sport=ch("sport", RULE_PORTS) if source else None,
        destination=destination, dport=ch("dport", RULE_PORTS) if destination else None,
        descr=ch("descr", TEXTS + [False]),
        log=ch("log", [False, True]), disabled=ch("disabled", [False, True]),
        statetype=ch("statetype", [None, "keep state", "none", "sloppy state", "synproxy state"]),
        tracker=ch("tracker", [None, "1500000000", "7"]),
        noise=ch("noise", [(), tuple(NOISE)] + [(n,) for n in NOISE]),
        times=ch("times", [None, {"created": TIME}, {"updated": TIME, "created": TIME - 86400 * 400}]),
    )


def rules_of(ch, pair, style="plain"):
    m = world(ch("root", ["pfsense", "opnsense"]), style)
    r = one_rule(ch)
    if pair == "pair":
        # the second rule must not see anything of the first one
        m.rule(**r)
        m.rule(**one_rule(ch))
    else:
        m.rule(**r)
        if style == "plain":
            m.order = list(ch("order of sections", list(itertools.permutations(pf.Pf.SECTIONS))))
    return m


def entries(result, k):
    """All lists of up to k entries, for every kind of alias; each an own alias of a large file."""
    lists = [(kind, l) for kind, v in (("host", HOSTS), ("network", NETS), ("port", PORTS)) for n in range(k + 1) for l in itertools.product(v, repeat=n)]
    part = lists[result.part :: result.parts]
    cases = []
    for kind, l in part:
        def case(m, i, kind=kind, l=l):
            m.alias(f"a{i}", kind, list(l), TEXTS[i % len(TEXTS)] or None)
        cases.append(case)
    for n in range(0, len(cases), 100):
        configs.check_events(result, "pf", pf.Pf, cases[n : n + 100], ("groups",), "alias entries")


def entry_job(result, part, parts, k):
    result.part, result.parts = part, parts
    entries(result, k)


def rule_job(result, pair, style, vectors):
    from ..core import Choice

    for v in vectors:
        m = rules_of(Choice(v), pair, style)
        configs.check(result, "pf", m.text, m.state(*SLICES), "rule", 1)
        if result.full():
            return
    result.samples.append({"text": m.text[-600:]})


# ---- aliases and rules in any order in the file, rule naming an alias or an address
def history(ch, depth):
    m = pf.Pf()
    m.interface("wan", "em0", "WAN", "dhcp")
    m.interface("lan", "em1", None, "10.0.0.1/24")
    defined = []
    for n in range(depth):
        what = ch(f"event {n}", ["stop"] + [a[0] for a in ALIASES if a[0] not in defined] + ["any"] + [f"src {a}" for a in defined] + [f"dst {a}" for a in defined])
        if what == "stop":
            break
        if what == "any":
            m.rule("lan", type="block")
        elif " " in what:
            side, a = what.split()
            port = a.startswith("ports")
            key = {"src": ("source", "sport"), "dst": ("destination", "dport")}[side][port]
            m.rule("wan", protocol="tcp", **{key: a if port else ("address", a)})
        else:
            m.alias(*[a for a in ALIASES if a[0] == what][0])
            defined.append(what)
    return m


def history_job(result, depth, prefix):
    from ..core import Choice

    def driver(ch):
        return history(ch, depth)

    seen = set()
    # explore below a fixed first decision
    for v, m in explore(lambda ch: driver(_Fixed(ch, prefix)), None):
        if m.text in seen:
            continue
        seen.add(m.text)
        configs.check(result, "pf", m.text, m.state(*SLICES), "history", depth)
        if result.full():
            return


class _Fixed:
    def __init__(self, ch, prefix):
        self.ch, self.prefix, self.n = ch, prefix, 0

    def __call__(self, label, options):
        n, self.n = self.n, self.n + 1
        if n < len(self.prefix):
            return list(options)[self.prefix[n]]
        return self.ch(label, options)


# ---- url tables: the content of the address, without a network
LINES = ["10.0.0.1", "10.2.0.0/16", "2001:db8::1", "2001:db8:1::/48", "10.3.0.77/24", "# comment", "", "  10.0.0.9  ", "not an address"]


def line_value(l):
    try:
        return net(l.strip())
    except ValueError:
        return None


def url_job(result, tables):
    from acltk.pfsenseObjects import pfsenseConfig, pfsenseParserOptions

    for lines, end, opts in tables:
        m = pf.Pf()
        url = "data:text/plain," + urllib.parse.quote(end.join(lines))
        m.alias("before", "host", ["10.0.0.1"])
        m.alias("url", "urltable", url)
        m.alias("after", "port", ["80"])
        value = tuple(v for v in map(line_value, lines) if v)
        m.define("url", "urltable", value if opts != "no fetch" else (("any",),))
        options = {"default": None, "fetch": pfsenseParserOptions(fetch_urltable=True), "no fetch": pfsenseParserOptions(fetch_urltable=False)}[opts]
        result.traces += 1
        result.transitions += len(lines)
        result.state((lines, end, opts))
        status, c = guarded(lambda: impl._quiet(pfsenseConfig.fromString, m.text, None, options))
        want = m.state("groups")["groups"]
        status, got = guarded(canon.groups, c) if status == "ok" else (status, c)
        if jsonable(got) != jsonable(want):
            result.violation(f"url table {lines}: {first_difference(jsonable(want), jsonable(got)) if status == 'ok' else got}",
                             {"kind": "url", "table": [list(lines), end, opts]})
    result.outcome("url tables", len(tables))


# ---- aliases whose names are words of the schema, names or descriptions of interfaces, or services
WORDS = ["wan", "lan", "WAN", "LAN", "opt1", "DMZ", "em1", "any", "Any", "floating", "pass", "self", "lanip", "None", "true", "http", "ssh", "tcp", "eq", "network", "address",
         "a", "A", "a_b", "n1", "none", "host", "0"]


def named_job(result, words):
    for word in words:
        for kind, entries in (("host", ["10.0.0.1"]), ("network", ["10.1.0.0/16"]), ("port", ["80", "90:99"]), ("urltable", "http://192.0.2.1/list")):
            for other in (None, "before", "after"):
                m = pf.Pf()
                m.interface("wan", "em0", "WAN", "dhcp")
                m.interface("lan", "em1", "LAN", "10.0.0.1/24")
                m.interface("opt1", "em2", "DMZ")
                # an alias of the other table has the same name
                twin = ("port", ["7"]) if kind != "port" else ("host", ["10.7.7.7"])
                if other == "before":
                    m.alias(word, *twin)
                m.alias(word, kind, entries)
                if other == "after":
                    m.alias(word, *twin)
                for tag in ("wan", "lan", "opt1"):
                    m.rule("lan", source=("network", tag), destination=("any",))
                if kind == "port" or other:
                    m.rule("wan", protocol="tcp", sport=word)
                    m.rule("opt1", protocol="udp", source=("network", "opt1"), dport=word)
                if kind != "port" or other:
                    m.rule("wan", source=("address", word), destination=("network", "lan"))
                    m.rule("wan", source=("network", "wan"), destination=("address", word), protocol="tcp", dport="53")
                configs.check(result, "pf", m.text, m.state(*SLICES), f"alias named {word}", 3)
                if result.full():
                    return


# ---- dates
def dates_job(result):
    for c, u in itertools.product((0, 86399, TIME, 1700000000), repeat=2):
        m = world()
        m.rule("wan", times={"created": c, "updated": u})
        day = lambda t: datetime.datetime.fromtimestamp(t)
        before = datetime.datetime.now()
        status, cfg = guarded(impl.parse, "pf", m.text)
        after = datetime.datetime.now()
        ok = [f"c: {day(c):%Y-%m-%d} ({(n - day(c)).days} days) / m: {day(u):%Y-%m-%d} ({(n - day(u)).days} days)" for n in (before, after)]
        got = cfg.rules.rules[0].remark[1] if status == "ok" else cfg
        result.traces += 1
        result.transitions += 1
        result.state(("dates", c, u))
        if got not in ok:
            result.violation(f"dates of a rule: {got!r} instead of {ok[0]!r}", {"kind": "dates"})


# ---- what the library does not know would change the meaning of a rule if it was skipped
UNKNOWN = {
    "rule": ["<not/>", "<sched>work</sched>", "<gateway>GW</gateway>", "<tcpflags_any/>", "<dscp>1</dscp>", "<vlanprio>1</vlanprio>", "<sources/>", "<Source><any/></Source>",
             "<icmp6-type>1</icmp6-type>", "<ports>80</ports>", "<nosync/>", "<associated-rule-id>nat_1</associated-rule-id>", "<idx/>", "<i/>", "<x/>"],
    "source": ["<not/>", "<Any/>", "<network>nowhere</network>", "<network>(self)</network>", "<address>no alias</address>", "<mask>24</mask>", "<ports>80</ports>", "<x/>"],
    "filter": ["<rules/>", "<bypassstaticroutes/>", "<x/>"],
    "alias": ["openvpn", "geoip", "", "Host", "hosts", "x"],
}


def unknown_text(where, what, at):
    m = world()
    m.rule("wan", source=("address", "10.9.9.9"), destination=("any",))
    m.rule("lan", source=("address", "10.9.9.8"), destination=("any",))
    if where == "alias":
        m.alias("odd", what, ["10.0.0.1"])
    elif where == "filter":
        m.parts["filter"].insert(at, what)
    else:
        p = m.parts["filter"]
        i = at % 2
        if where == "rule":
            inner = p[i][len("<rule>"):-len("</rule>")]
            p[i] = f"<rule>{what}{inner}</rule>" if at < 2 else f"<rule>{inner}{what}</rule>"
        else:
            tag = "source" if at < 2 else "destination"
            p[i] = p[i].replace(f"<{tag}>", f"<{tag}>{what}", 1) if at % 4 else p[i].replace(f"</{tag}>", f"{what}</{tag}>", 1)
    return m.text


def unknown_job(result):
    for where, whats in UNKNOWN.items():
        for what in whats:
            for at in range({"alias": 1, "filter": 3}.get(where, 4)):
                text = unknown_text(where, what, at)
                status, c = guarded(impl.parse, "pf", text)
                result.traces += 1
                result.transitions += 1
                result.state((where, what, at))
                if status == "ok":
                    result.violation(f"{what!r} in {where} is skipped", {"kind": "unknown", "text": text})
    result.outcome("unknown elements rejected")


def run(ctx):
    depth = ctx.pick(2, 3)
    ctx.bounds["departures from a plain rule"] = depth
    for pair, style in [("single", i) for i in pf.Pf.STYLES] + [("pair", "plain"), ("pair", "rotated")]:
        bound = depth if pair == "single" and style == "plain" else 2
        vectors = [v for v, _ in explore(lambda ch: rules_of(ch, pair, style), bound)]
        ctx.bounds[f"rules ({pair}, {style})"] = len(vectors)
        ctx.map(rule_job, [(pair, style, vectors[i::32]) for i in range(32)])
    k = ctx.pick(3, 4)
    ctx.bounds["alias entries"] = k
    ctx.map(entry_job, [(i, 16, k) for i in range(16)])
    h = ctx.pick(4, 6)
    ctx.bounds["history of aliases and rules"] = h
    ctx.map(history_job, [(h, (i, j)) for i in range(1, len(ALIASES) + 2) for j in range(len(ALIASES) + (3 if i <= len(ALIASES) else 2))])
    tables = [(l, e, o) for n in range(ctx.pick(3, 4) + 1) for l in itertools.product(LINES, repeat=n) for e in ("\n", "\r\n") for o in ("default",)]
    tables += [(tuple(LINES), e, o) for e in ("\n", "\r\n") for o in ("default", "fetch", "no fetch")]
    ctx.bounds["url tables"] = len(tables)
    ctx.map(url_job, [(tables[i::16],) for i in range(16)])
    ctx.map(named_job, [(WORDS[i::8],) for i in range(8)])
    ctx.bounds["names of aliases"] = len(WORDS)
    ctx.map(dates_job, [()])
    ctx.map(unknown_job, [()])
    ctx.bounds["unknown elements"] = sum(map(len, UNKNOWN.values()))
    ctx.assumptions.append("rules of type match, aliases of other types, negated sources and alias entries naming other aliases are outside the supported schema")


def replay(result, p):
    if p.get("kind") == "url":
        l, e, o = p["table"]
        url_job(result, [(tuple(l), e, o)])
    elif p.get("kind") == "unknown":
        if guarded(impl.parse, "pf", p["text"])[0] == "ok":
            result.violation("skipped", p)
    elif p.get("kind") == "dates":
        dates_job(result)
    else:
        configs.replay(result, p)
