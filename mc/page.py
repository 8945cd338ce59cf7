"""The rendered page: read back into sections, rows, links and anchors, and compared with what a
configuration (in canonical form) and a selection must show.  Imports nothing of acltk."""
import html.parser
import ipaddress

from . import canon

SECTIONS = {
    "Interface Configuration": "interface", "Name Aliases": "name_alias", "Network Objects": "network_object", "Network Groups": "network_group",
    "Service Objects": "service_object", "Service Groups": "service_group", "Port Groups": "port_group", "ICMP Groups": "icmp_group",
    "Protocol Groups": "protocol_group", "Time Ranges": "time_range", "NAT": "nat", "Access Control List": "rules",
}
VOID = {"br", "input", "meta", "img", "hr"}


class Cell:
    def __init__(self):
        self.words, self.links, self.anchors, self.cls = "", [], [], ""

    @property
    def text(self):
        return " ".join(self.words.split())

    def __repr__(self):
        return f"{self.text!r}{self.links or ''}"


class Page(html.parser.HTMLParser):
    """sections: title -> rows, row: (class, [Cell]); anchors and links of the whole page; tags used."""

    def __init__(self, text):
        super().__init__()
        self.sections, self.anchors, self.links, self.tags = {}, [], [], set()
        self.rows = self.cell = self.link = None
        self.heading = None
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        self.tags.add(tag)
        mine = {a[k] for k in ("id", "name") if tag == "a" and a.get(k)}
        self.anchors += sorted(mine)
        if tag == "h2":
            self.heading = ""
        elif (tag == "tr" or tag.startswith("trclass=")) and self.rows is not None:
            self.rows.append((a.get("class", ""), []))
        elif tag in ("td", "th") and self.rows:
            self.cell = Cell()
            self.cell.cls = a.get("class", "")
            self.rows[-1][1].append(self.cell)
        if self.cell is not None:
            self.cell.anchors += sorted(mine)
            if tag == "br":
                self.cell.words += " "
        if tag == "a" and a.get("href"):
            self.links.append(a["href"])
            if self.cell is not None:
                self.cell.links.append(a["href"])

    def handle_endtag(self, tag):
        if tag == "h2":
            self.rows = self.sections.setdefault(" ".join(self.heading.split()), [])
            self.heading = None
        elif tag in ("td", "th"):
            self.cell = None

    def handle_data(self, data):
        if self.heading is not None:
            self.heading += data
        elif self.cell is not None:
            self.cell.words += data


class Wrong(Exception):
    pass


def say(ok, what, *more):
    if not ok:
        raise Wrong(f"{what}: {', '.join(map(repr, more))}"[:600])


def is_net(text, want):
    """Is this the text of that address?"""
    try:
        if text.startswith("VERIFY "):
            a, w = text[7:].split("/")
            return canon.wild(a, w)[:4] == want[:4]
        return canon.net(text)[:4] == want[:4]
    except ValueError:
        return False


def host(cell, want):
    if want is None:
        say(cell.text == "", "not empty", cell)
    elif want[0] == "net":
        say(is_net(cell.text, want), "another address", cell, want)
        say(cell.links == ([f"#name_alias_{want[4]}"] if want[4] else []), "another name", cell, want)
    elif want[0] in ("any", "any4", "any6"):
        say(cell.text == want[0] and not cell.links, "another address", cell, want)
    elif want[0] == "url":
        say(cell.text == want[1], "another url", cell, want)
    else:
        link(cell, {"obj": "network_object", "grp": "network_group", "iface": "interface"}[want[0]], want[1])


def link(cell, kind, name):
    say(cell.text == name and cell.links == [f"#{kind}_{name}"], f"not the {kind} {name}", cell)


def port(cell, want):
    if want is None:
        say(cell.text == "", "a port", cell)
    elif want[0] == "pgrp":
        link(cell, "port_group", want[1])
    elif want[0] == "range":
        say([canon.number(x) for x in cell.text.rsplit("-", 1)] == list(want[1:]) or cell.text == f"{want[1]}-{want[2]}", "another range", cell, want)
    else:
        say([canon.number(x) for x in cell.text.split()] == list(want[1:]), "another port", cell, want)


KIND = {"protogrp": "protocol_group", "sgrp": "service_group", "sobj": "service_object"}


def protocol(cell, want):
    if want[0] == "proto":
        say(canon.number(cell.text) == want[1] and not cell.links, "another protocol", cell, want)
    else:
        link(cell, KIND[want[0]], want[1])


def icmp(cell, want):
    if want is None:
        say(cell.text == "", "an ICMP type", cell)
    elif want[0] == "icmpgrp":
        link(cell, "icmp_group", want[1])
    else:
        say(canon.number(cell.text.split("/")[0]) == want[1], "another ICMP type", cell, want)


def options(cell, want):
    words, links = cell.text.replace("\u231a:", " ").replace("\xa0", " ").split(), []
    for k, v in sorted(want):
        if v and v[0] == "time" if isinstance(v, tuple) else False:
            expected = [v[1]]
            links.append(f"#time_range_{v[1]}")
        elif isinstance(v, tuple) and v[0] == "log":
            expected = ["log"] + list(v[1])
        elif isinstance(v, tuple) and v[0] == "inactive":
            expected = ["inactive"]
        elif isinstance(v, tuple) and v[0] == "interfaces":
            expected = {"in": [">" + ",".join(v[1])], "out": [",".join(v[1]) + ">"], "any": [">" + ",".join(v[1]) + ">"]}[v[2]]
        else:
            expected = f"{k}:{v}".split()
        say(words[: len(expected)] == expected, f"option {k} is not {v}", cell)
        words = words[len(expected):]
    say(not words and cell.links == links, "other options", cell, want)


# ------------------------------------------------------------------------------------------
def refers(o, found):
    """Everything a canonical form refers to: {(kind, name)}."""
    if not isinstance(o, tuple) or not o:
        return
    k = {"obj": "network_object", "grp": "network_group", "pgrp": "port_group", "icmpgrp": "icmp_group", "time": "time_range", **KIND}.get(o[0])
    if k:
        found.add((k, o[1]))
        if k in ("network_object", "service_object", "time_range"):
            return  # what is inside of objects is shown with them
    if o[0] == "net" and o[4]:
        found.add(("name_alias", o[4]))
    for x in o:
        refers(x, found)


def selected(state, rules, nats):
    """(kind, name) of all a page about these rules and NAT rules has to show."""
    found = set()
    for r in rules:
        for k in ("protocol", "src", "sport", "dst", "dport"):
            refers(r[k], found)
        if r["protocol"][0] == "proto" and r["protocol"][1] in ("icmp", "icmp6"):
            refers(r["icmp"], found)
        for _, v in r["options"]:
            refers(v, found)
        for alias, name, direction in state["access_groups"].get(r["id"], ()):
            found.add(("interface", alias))
    for own, n in nats:
        for k in ("real_src", "real_dst", "mapped_src", "mapped_dst"):
            refers(n[k], found)
        for name, o in state["service_objects"].items():
            if own and n["real_service"] is not None and o["value"][2:] in (n["real_service"], n["mapped_service"]):
                found.add(("service_object", name))
    return found


class Expectation:
    def __init__(self, state, rules=None, nats=None, everything=False):
        """rules: indices of the selected rules, nats: (section, index) of the selected NAT rules; None: no selection."""
        self.state, self.filtered, self.all = state, rules is not None, everything or rules is None
        self.rules = set(range(len(state["rules"]))) if rules is None else set(rules)
        self.nats = {(s, i) for s, l in state["nat"].items() for i in range(len(l))} if nats is None else set(nats)
        self.found = selected(state, [state["rules"][i] for i in self.rules], [(s != 2, state["nat"][s][i]) for s, i in self.nats]) if self.filtered else None

    def shown(self, kind, name):
        return self.all or (kind, name) in self.found

    def grey(self, kind, name):
        return self.filtered and (kind, name) not in self.found

    def names(self, kind, names):
        return [n for n in names if self.shown(kind, n)]


def blocks(rows, kind):
    """Rows of a section, cut in front of each anchor: [(name, rows)]."""
    r = []
    for cls, cells in rows:
        a = [x[len(kind) + 1:] for c in cells for x in c.anchors if x.startswith(kind + "_")]
        if a:
            r.append((a[0], a[1:], []))
        if r and cells:
            r[-1][2].append((cls, cells))
    return r


GREY = "filterd_by_the_filter"


def section(page, e, kind, names):
    """The rows of every definition that has to be there."""
    title = next(t for t, k in SECTIONS.items() if k == kind)
    got = blocks(page.sections.get(title, []), kind)
    want = e.names(kind, names)
    say([g[0] for g in got] == want, f"{title} shows", [g[0] for g in got], want)
    for name, more, rows in got:
        say((GREY in rows[0][0]) == e.grey(kind, name), f"{kind} {name} is shown as selected or not", rows[0][0])
    return {g[0]: g[2] for g in got}


def described(rows, description):
    """Takes the description out of the rows of a block; -> all other cells that are not empty, behind the name."""
    first = rows[0][1]
    d = [c for _, cells in rows for c in cells if "description" in c.cls.split()]
    if d:
        say([c.text for c in d] == [" ".join((description or "").split())], "another description", d, description)
    else:
        rest = [c.text for c in first if not c.anchors]
        say("".join(rest) in ("None", " ".join((description or "").split())), "another description", rest, description)
    return [c for _, cells in rows[1:] for c in cells if c.words.strip() and c not in d]


def definitions(page, e):
    s = e.state
    for name, rows in section(page, e, "interface", sorted(s["interfaces"])).items():
        i = s["interfaces"][name]
        text = [c.text for _, cells in rows for c in cells]
        links = [l for _, cells in rows for c in cells for l in c.links]
        for a in i["addresses"]:
            say(a in text, f"interface {name} without", a)
        for n, g in i["routes"]:
            say(f"{n} via {g}" in text or f"{n} via Interface {g}" in text, f"interface {name} without route", n, g)
        if i["description"]:
            say(" ".join(i["description"].split()) in text, f"interface {name} without description")
        say(sorted(links) == sorted(f"#access_group_{g[1]}" for g in i["access_groups"]), f"access groups of interface {name}", links)
        for g in i["access_groups"]:
            say(any(t.endswith(f"{g[2]} {g[1]}") for t in text), f"interface {name} without access-group", g)
        if i["nameif"]:
            say(any(f"interface_{i['nameif']}" in c.anchors for _, cells in rows for c in cells), f"interface {name} without anchor of its name")
    by = {}
    for n in s["names"]:
        by.setdefault(n[0], n)
    for name, rows in section(page, e, "name_alias", [n[0] for n in s["names"]]).items():
        say([c.text for c in rows[0][1]][-2:] == [by[name][1], " ".join((by[name][2] or "").split())], "name", rows[0])
    for name, rows in section(page, e, "network_object", sorted(s["network_objects"])).items():
        o = s["network_objects"][name]
        c = rows[0][1]
        words = c[1].text.split()
        if words[:1] != ["FIXME"]:
            flat = o["addresses"]
            say(len(words) == len(flat) and all(w == f[0] if f[0] in ("any", "any4", "any6") else is_net(w, f) for w, f in zip(words, flat)), f"object {name}", c[1], flat)
        say(c[2].text == " ".join((o["description"] or "").split()), f"description of object {name}", c[2])
    for name, rows in section(page, e, "network_group", sorted(s["groups"]["network"])).items():
        g = s["groups"]["network"][name]
        members(described(rows, g["description"]), g["value"][2], host, name)
    for name, rows in section(page, e, "service_object", sorted(s["service_objects"])).items():
        o = s["service_objects"][name]
        c = rows[0][1]
        protocol(c[2], o["value"][2])
        service(c[3:-1], o["value"][2:], name)
        say(c[-1].text == " ".join((o["description"] or "").split()), f"description of service {name}", c[-1])
    for name, rows in section(page, e, "service_group", sorted(s["groups"]["service"])).items():
        g = s["groups"]["service"][name]
        d = [c.text for _, cells in rows for c in cells if "description" in c.cls.split()]
        say(d == ([" ".join(g["description"].split())] if g["description"] else []), f"description of group {name}", d)
        got = [cells for _, cells in rows[1:] if not any("description" in c.cls for c in cells) and [c.text for c in cells][1:3] != ["Name", "Protocol"]]
        want = g["value"][2]
        say(len(got) == len(want), f"members of group {name}", got, want)
        for cells, m in zip(got, want):
            if m[0] == "svc":
                protocol(cells[2], m[1])
                service(cells[3:], m[1:], name)
            else:
                link(cells[1], KIND[m[0]], m[1])
    for name, rows in section(page, e, "port_group", sorted(s["groups"]["port"])).items():
        g = s["groups"]["port"][name]
        say(rows[0][1][0].text == f"{name} ({g['value'][2][1]})" if g["value"][2] else rows[0][1][0].text.startswith(name), f"port group {name}", rows[0])
        members(described(rows, g["description"]), g["value"][3], port, name)
    for kind, key, f in (("icmp_group", "icmp", icmp), ("protocol_group", "protocol", protocol)):
        for name, rows in section(page, e, kind, sorted(s["groups"][key])).items():
            g = s["groups"][key][name]
            members(described(rows, g["description"]), g["value"][2], f, name)
    for name, rows in section(page, e, "time_range", sorted(s["time"])).items():
        say(len(rows) == 2 + len(s["time"][name][2]), f"time range {name}", rows)


def members(cells, want, f, name):
    say(len(cells) == len(want), f"members of group {name}", cells, want)
    for c, m in zip(cells, want):
        f(c, m)


def service(cells, want, name):
    """want: protocol, source, destination, ICMP type and code"""
    if want[0] in (("proto", "icmp"), ("proto", "icmp6")):
        t = "/".join(str(x) for x in want[3:5] if x is not None)
        say(cells[0].text == t, f"ICMP type of {name}", cells, want)
    else:
        port(cells[0], want[1])
        port(cells[1], want[2])


def nat_rules(page, e):
    got, numbers = {1: [], 2: [], 3: []}, None
    for cls, cells in page.sections.get("NAT", []):
        t = [c.text for c in cells]
        if len(cells) == 2 and t[0].split() and t[0].split()[0] in ("1", "2", "3") and t[0].split()[1:] in ([], ["auto"], ["after-auto"]):
            numbers = int(t[0].split()[0])
        elif numbers and len(cells) == 7 and t[0] != "Interface" and cells[0].links:
            got[numbers].append((cls, cells, []))
        elif numbers and got[numbers] and (len(cells) == 7 and not cells[0].links and t[0] != "Interface" or len(cells) == 2 and not t[0]):
            got[numbers][-1][2].append(cells)
    for s, l in e.state["nat"].items():
        want = [i for i in range(len(l)) if e.all or (s, i) in e.nats]
        say(len(got[s]) == len(want), f"NAT section {s} shows", len(got[s]), len(want))
        for (cls, c, more), i in zip(got[s], want):
            n = l[i]
            link(c[0], "interface", n["real_iface"])
            host(c[1], n["real_src"])
            host(c[2], n["real_dst"])
            link(c[3], "interface", n["mapped_iface"])
            say(c[4].text.startswith(f"{n['type']} ::"), "type of NAT", c[4], n)
            if n["mapped_dst"] != ("iface",):
                host(c[5], n["mapped_dst"])
            inner = Cell()
            inner.words, inner.links = c[4].text.split("::", 1)[1], c[4].links[:1]
            if n["fallback"]:
                say(inner.words.split()[-1] == "ipv6" if n["fallback"][1] else f"({n['fallback'][0]})" in inner.words, "fallback", c[4], n)
                inner.words = inner.words.split("(")[0]
                inner.links = c[4].links[:-1]
            host(inner, n["mapped_src"])
            if n["description"]:
                say([m[1].text for m in more if len(m) == 2] == [" ".join(n["description"].split())], "description of NAT", more, n)
            say((GREY in cls) == (e.filtered and (s, i) not in e.nats), "NAT rule shown as selected or not", cls, i)


def access_lists(page, e, heads=None):
    rows = [r for r in page.sections["Access Control List"] if r[1]]
    want = [i for i in range(len(e.state["rules"])) if e.all or i in e.rules]
    shown_ids = {e.state["rules"][i]["id"] for i in want}
    at, last = 0, object()
    pending = []

    def take(what):
        nonlocal at
        say(at < len(rows), f"missing: {what}")
        at += 1
        return rows[at - 1]

    lists = numbered = 0
    for i, r in enumerate(e.state["rules"]):
        if r["id"] != last:
            last, lists, numbered = r["id"], lists + 1, 0
            if r["id"] in shown_ids:
                c = take(f"list {r['id']}")[1]
                say(len(c) == 1 and c[0].anchors == [f"access_group_{r['id']}"], f"list {r['id']} expected", c)
                binds = e.state["access_groups"].get(r["id"], ())
                say(sorted(c[0].links) == sorted(f"#interface_{b[0]}" for b in binds), f"bindings of list {r['id']}", c)
                say(c[0].text.split()[0] == r["id"] and sorted(c[0].text.split()[1:]) == sorted(f"{b[0]}/{b[2]}" for b in binds), "list", c)
                take("column titles")
        numbered += 1
        if i not in want:
            continue
        for bg, text in (heads or {}).get(i, ()):
            if len(rows[at][1]) == 1:
                take("space")
            c = take(f"separator {text}")[1]
            say(c[1].text == " ".join(text.split()) and c[1].cls.split() == bg.split(), "separator", c, text)
        cls, c = take(f"rule {i}")
        say(len(c) == 8, f"rule {i} expected", c)
        say(c[0].text == f"{lists}.{numbered}" and c[1].text == r["mode"], f"rule {lists}.{numbered} {r['mode']} expected", c)
        protocol(c[2], r["protocol"])
        host(c[3], r["src"])
        port(c[4], r["sport"])
        host(c[5], r["dst"])
        if r["protocol"] == ("proto", "icmp"):
            icmp(c[6], r["icmp"])
        elif r["icmp"] is None:
            port(c[6], r["dport"])
        options(c[7], r["options"])
        inactive = any(k == "inactive" for k, _ in r["options"])
        say((GREY in cls) == (e.filtered and i not in e.rules), f"rule {i} shown as selected or not", cls)
        say(("mode_inactive" in cls) == inactive or GREY in cls, f"rule {i} shown as inactive or not", cls)
        for text in r["remark"]:
            c = take(f"remark {text}")[1]
            say(c[1].text == " ".join(text.split()), "remark", c, text)
    say(at == len(rows), "more rows", rows[at:at + 2])


def excused(kind, name, e):
    """Links of the page that lead nowhere although nothing is missing from it: to the pseudo interface any, to
    interfaces the selection does not need (known finding), to lists without a rule on the page."""
    if kind == "interface":
        return name == "any" or not e.all
    return kind == "access_group" and not any(e.state["rules"][i]["id"] == name for i in (range(len(e.state["rules"])) if e.all else e.rules))


def split_lists(e):
    """Anchors that appear more than once because the rules of the list are not next to each other (known finding)."""
    ids = [r["id"] for r in e.state["rules"]]
    starts = [x for i, x in enumerate(ids) if i == 0 or ids[i - 1] != x]
    return {f"access_group_{x}" for x in starts if starts.count(x) > 1}


def differs(text, expectation, heads=None):
    """-> what is wrong with the page, or None"""
    page = Page(text)
    try:
        definitions(page, expectation)
        nat_rules(page, expectation)
        access_lists(page, expectation, heads)
    except Wrong as w:
        return str(w)
    seen = page.anchors
    twice = sorted({a for a in seen if seen.count(a) > 1} - split_lists(expectation))
    if twice:
        return f"anchors that are not unique: {twice}"
    kinds = sorted(set(SECTIONS.values()) - {"rules", "nat"} | {"access_group"}, key=len, reverse=True)
    for l in sorted(set(page.links)):
        if l.startswith("#") and l[1:] in seen:
            continue
        k = next((k for k in kinds if l.startswith(f"#{k}_")), None)
        if k is None or not excused(k, l[len(k) + 2:], expectation):
            return f"link without anchor: {l}"
    return None
