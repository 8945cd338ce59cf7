"""Rendering: every construct alone, every pair, all together, under filters that select all, some and
none of the rules; the page is read back and compared with what the text and the selection require."""
import functools
import itertools
import os

from .. import canon, core, gallery, impl, page, reader
from ..core import guarded

FILTERS = {
    "none": None,
    "all": "id /*/",
    "nothing": "id nowhere",
    "some": "ip src 10.0.0.0/8 union ip dst 10.0.0.0/8",
    "list": "id A union id 101 union id lan",
    "any": "ip src ANY union ip dst any",
}


class Args:
    expand = sort = time = None
    show_not_selected = False

    def __init__(self, everything=False):
        self.show_not_selected = everything


@functools.lru_cache(1)
def template():
    import jinja2

    tpl = os.path.join(core.REPO, "examples", "render", "tpl")
    return jinja2.Environment(loader=jinja2.FileSystemLoader(tpl), extensions=["jinja2.ext.loopcontrols"]).get_template("static.jinja2")


def meaning(dialect, text, config):
    """What is written: by the independent reader; slices it does not know, and pfSense: the canonical form of the configuration."""
    state = canon.everything(config)
    if dialect != "pf":
        verdict, own = reader.verdict(dialect, text)
        if verdict == "state":
            state.update(own)
    return state


def chosen(config, filter_text):
    """Selected rules (index) and NAT rules (section, index)."""
    r = impl._quiet(config.filter, impl.caf(filter_text))
    members = {id(o) for o in r}
    rules = [i for i, x in enumerate(config.rules.rules) if id(x) in members]
    nats = [(s, i) for s in config.nat for i, x in enumerate(config.nat[s]) if id(x) in members]
    return r, rules, nats


def heads(config):
    return {i: [(h.bg, h.text) for h in r.head] for i, r in enumerate(config.rules.rules) if getattr(r, "head", None)}


def render(config, selection, everything):
    return impl._quiet(lambda: template().render(aclconfig=config, selection=selection, caf="", args=Args(everything)))


def differs(dialect, names, label, everything, expanded=False):
    text = gallery.config(dialect, names)
    config = impl.parse(dialect, text)
    state = meaning(dialect, text, config)
    if expanded:
        state = canon.expanded(state)
        config.expand()
    f, selection, rules, nats = FILTERS[label], None, None, None
    if f is not None:
        r, rules, nats = chosen(config, f)
        if label == "all" and (len(rules), len(nats)) != (len(state["rules"]), sum(map(len, state["nat"].values()))):
            return "a filter for everything does not select everything"
        selection = impl._quiet(config.resolve, r)
    return page.differs(render(config, selection, everything), page.Expectation(state, rules, nats, everything), heads(config))


def job(result, dialect, sets, labels):
    for names in sets:
        result.state((dialect, tuple(names)))
        for label in labels:
            for everything in (False, True) if label != "none" else (False,):
                result.traces += 1
                result.transitions += 1
                status, d = guarded(differs, dialect, names, label, everything)
                if status == "ok" and d is None:
                    result.outcome(f"{dialect}: page as expected")
                    continue
                result.violation(f"{dialect} {list(names)}, filter {label}{', all shown' if everything else ''}: {d}"[:1500],
                                 {"dialect": dialect, "names": list(names), "label": label, "everything": everything})
                if result.full():
                    return
        status, d = guarded(differs, dialect, names, "none", False, True)
        result.traces += 1
        result.transitions += 2
        if status != "ok" or d is not None:
            result.violation(f"{dialect} {list(names)}, expanded: {d}"[:1500], {"dialect": dialect, "names": list(names), "label": "none", "everything": False, "expanded": True})
            if result.full():
                return
        result.outcome(f"{dialect}: expanded page as expected")
    result.samples.append({"dialect": dialect, "constructs": list(sets[-1])[:6]})


def run(ctx):
    jobs = []
    for d in gallery.TABLES:
        names = gallery.names(d)
        sets = [(n,) for n in names] + [tuple(names)]
        pairs = list(itertools.combinations(names, 2))
        triples = [] if ctx.quick else [t for t in itertools.combinations([n for n in names if not n.startswith(("ignored", "domain", "version", "hostname"))], 3)
                                        if any(n.startswith(("rule", "nat", "r ", "ext", "num", "std", "six")) for n in t)]
        jobs += [(d, sets[i:i + 6], list(FILTERS)) for i in range(0, len(sets), 6)]
        few = ["none", "some"] if ctx.quick else list(FILTERS)
        jobs += [(d, pairs[i:i + 60], few) for i in range(0, len(pairs), 60)]
        if d != "asa":
            jobs += [(d, triples[i:i + 100], ["none", "some", "list"]) for i in range(0, len(triples), 100)]
    ctx.map(job, jobs)
    ctx.bounds["constructs"] = {d: len(t) for d, t in gallery.TABLES.items()}
    ctx.bounds["constructs at a time"] = ctx.pick("1, 2 and all", "1, 2, all; ios and pf: 3")
    ctx.bounds["filters"] = len(FILTERS)


def replay(result, p):
    status, d = guarded(differs, p["dialect"], p["names"], p["label"], p["everything"], p.get("expanded", False))
    if status != "ok" or d is not None:
        result.violation(str(d)[:1500], p)


def _page(text, f=None, dialect="asa"):
    config = impl.parse(dialect, text)
    selection = None if f is None else impl._quiet(config.resolve, impl._quiet(config.filter, impl.caf(f)))
    return render(config, selection, False)


def _dangling(h):
    p = page.Page(h)
    return [l for l in p.links if l.startswith("#interface_") and l[1:] not in p.anchors]


NAT = "".join(f"interface Ethernet0/{i}\n nameif {n}\n" for i, n in enumerate(("inside", "outside"))) + "object network o\n host 10.0.0.1\nnat ({},outside) source static o o\n"
ACL = "access-list {} extended permit ip any any\n"


def probe(finding):
    """Known findings about the template of the example."""
    key = finding["key"]
    if key == "page-interface-links":
        return bool(_dangling(_page(NAT.format("inside"), "ip src 10.0.0.1"))) and bool(_dangling(_page(NAT.format("any"))))
    if key == "page-split-list":
        return page.Page(_page("".join(ACL.format(i) for i in "ABA"))).anchors.count("access_group_A") == 2
    if key == "page-escaping":
        return "<b>x</b>" in _page("access-list A remark <b>x</b>\n" + ACL.format("A"))
    if key == "page-nat-row":
        return "<trclass" in _page(NAT.format("inside"), "ip src 10.0.0.1")
    if key == "page-icmp-code":
        p = page.Page(_page("access-list A extended permit icmp any any echo 7\n"))
        return "7" not in p.sections["Access Control List"][-1][1][6].text
    return False
