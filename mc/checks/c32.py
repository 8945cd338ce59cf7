"""The example programs, run on files: every construct of the gallery and all of them, with filters of
every kind, compared with what the text of the file and the filter require."""
import contextlib
import importlib.util
import io
import itertools
import os
import shutil
import sys
import tempfile

from .. import canon, core, gallery, impl, page
from acltk import aclObjects as objects
from ..core import guarded
from . import c25

EXAMPLES = os.path.join(core.REPO, "examples")
FILTERS = ["id /*/", "id nowhere", "ip src 10.0.0.0/8 union ip dst 10.0.0.0/8", "id A union id 101", "ip src ANY except id B", "ip dst any intersect ip src any"]
BROKEN = ["ip src", "id A B", "ip src 10.0.0.300"]
FLAGS = ["--show-not-selected", "--expand", "--sort"]
_programs = {}
_probed = []


def program(path):
    """main() of an example, as a function of its arguments -> printed lines."""
    if path not in _programs:
        name = "acltk_example_" + os.path.basename(path)[:-3].replace("-", "_")
        spec = importlib.util.spec_from_file_location(name, os.path.join(EXAMPLES, path))
        m = importlib.util.module_from_spec(spec)
        sys.modules[name] = m
        dont, sys.dont_write_bytecode = sys.dont_write_bytecode, True
        try:
            spec.loader.exec_module(m)
        finally:
            sys.dont_write_bytecode = dont
        _programs[path] = getattr(m, "run_main", None) or m.main
    main = _programs[path]

    def run(args):
        argv, sys.argv = sys.argv, [path] + list(args)
        cwd = os.getcwd()
        os.chdir(os.path.dirname(os.path.join(EXAMPLES, path)))
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                main()
        finally:
            sys.argv = argv
            os.chdir(cwd)
        return out.getvalue().split("\n")

    return run


def write(folder, name, text):
    p = os.path.join(folder, name)
    with open(p, "wb") as f:
        f.write(text.encode())
    return p


def plain(lines):
    """repr of objects without addresses in memory"""
    return sorted(l.split(" at 0x")[0] for l in lines if l)


def filter_differs(folder, dialect, names, f, text=None):
    text = gallery.config(dialect, names) if text is None else text
    config = impl.parse(dialect, text)
    selected = [x for x in impl._quiet(config.filter, impl.caf(f)) if any(x is y for y in config.rules.rules)]
    out = program("caf-filter.py")([write(folder, "f.caf", f + "\n"), write(folder, "acls", text)])
    want = plain(str(len(selected)).split() + [l for x in selected for l in str(x).split("\n")])
    n = [i for i, l in enumerate(out) if l.isdigit()]
    if not n or out[n[0]] != str(len(selected)):
        return f"printed {out[:3]}, {len(selected)} selected"
    got = plain(out[n[0]:])
    return None if got == want else f"printed {[x for x in got if x not in want][:3]} instead of {[x for x in want if x not in got][:3]}"


def render_differs(folder, dialect, names, f, flags):
    text = gallery.config(dialect, names)
    config = impl.parse(dialect, text)
    state = c25.meaning(dialect, text, config)
    if "--expand" in flags:
        state = canon.expanded(state)
        config.expand()
    out = os.path.join(folder, "page.html")
    args = [*flags, "-o", out, write(folder, "acls", text)]
    rules = nats = None
    if f is not None:
        _, rules, nats = c25.chosen(config, f)
        args[:0] = ["--caf", write(folder, "f.caf", f + "\n")]
    if "--sort" in flags:
        for kind in ("network", "service", "port", "protocol"):
            for g in getattr(config.groups, kind).values():
                g.sort()
        state = canon.everything(config)
    if os.path.exists(out):
        os.remove(out)
    program("render/static.py")(args)
    with open(out) as h:
        return page.differs(h.read(), page.Expectation(state, rules, nats, "--show-not-selected" in flags), c25.heads(config))


MANUAL_LISTS = ("inside_in", "outside_in", "other")
MANUAL_ADDRESSES = ("any", "host 10.1.0.1", "10.1.0.0 255.255.255.0", "10.2.0.128 255.255.255.128", "10.0.0.0 255.0.0.0", "host 10.1.1.1", "host 10.2.1.0")
MANUAL = [(l, s, d) for l in MANUAL_LISTS for s in MANUAL_ADDRESSES for d in MANUAL_ADDRESSES]


def numbers(address):
    """-> (first, last) of an address as the rules of the manual example are written"""
    n = lambda a: int.from_bytes(bytes(map(int, a.split("."))), "big")
    words = address.split()
    if words[0] == "any":
        return 0, 2**32 - 1
    if words[0] == "host":
        return n(words[1]), n(words[1])
    return n(words[0]), n(words[0]) | ~n(words[1]) & 2**32 - 1


def manual_differs(folder, rules):
    """What the two selections the manual example makes of rules take, and what the example prints."""
    rules = [MANUAL[i] for i in rules]
    text = "".join(f"access-list {l} extended permit ip {s} {d}\n" for l, s, d in rules)

    def meets(rule, network):
        base = numbers(network + " 255.255.255.0")
        side = {"inside_in": 2, "outside_in": 1}.get(rule[0])
        return side is not None and numbers(rule[side])[0] <= base[1] and numbers(rule[side])[1] >= base[0]

    anyany = [r[1:] == ("any", "any") for r in rules]
    first, second = [meets(r, "10.2.0.0") for r in rules], [meets(r, "10.1.0.0") for r in rules]
    union = [a or f for a, f in zip(anyany, first)]
    remain = [s and not u for s, u in zip(second, union)]
    config = impl.parse("asa", text)
    network = lambda a: objects.ACLNode(objects.Network(address=a, netmask="24"))
    anywhere = lambda: objects.ACLNode(objects.NetworkAny())
    for a, want in (("10.2.0.0", first), ("10.1.0.0", second)):
        target = [objects.ACLRule(id="inside_in", src=anywhere(), dst=network(a)), objects.ACLRule(id="outside_in", src=network(a), dst=anywhere())]
        got = config.rules.filter(target)
        if len(got) != sum(want) or any((r in got) != w for r, w in zip(config.rules.rules, want)):
            return f"rules made by hand for {a} select {[i for i, r in enumerate(config.rules.rules) if r in got]} instead of {[i for i, w in enumerate(want) if w]}"
    if probe():
        return None  # the known finding
    shown = [str(r) for r, x in zip(config.rules.rules, remain) if x]
    want = [f"{w} {sum(x)}" for w, x in (("anyany", anyany), ("base", first), ("union", union), ("rules", second), ("remain", remain))]
    want += [l.split(" at 0x")[0] for x in shown for l in x.split("\n")]
    got = [l.split(" at 0x")[0] for l in program("acl-filter.py")([write(folder, "acls", text)])]
    while got and not got[-1]:
        got.pop()
    return None if got == want else f"printed {got[:8]} instead of {want[:8]}"


def probe(finding=None):
    """The manual example calls constructors with names of parameters they do not have."""
    if not _probed:
        folder = tempfile.mkdtemp(prefix="acltk-c32-")
        try:
            _probed.append(guarded(program("acl-filter.py"), [write(folder, "acls", gallery.config("asa"))])[0] != "ok")
        finally:
            shutil.rmtree(folder, ignore_errors=True)
    return _probed[0]


def rejects(folder, dialect, f):
    """A filter that is none, or a text that is no configuration, prints no selection."""
    text = gallery.config(dialect, [n for n in gallery.names(dialect) if n != "al url"])
    for what, caf, acls in (("filter", f, text), ("configuration", FILTERS[0], text + "access-list A extended permit tcp any any eq 99999\n" if dialect != "pf" else text[:-20])):
        status, out = guarded(program("caf-filter.py"), [write(folder, "f.caf", caf + "\n"), write(folder, "acls", acls)])
        if status == "ok":
            return f"a malformed {what} is accepted: {out[:3]}"
    return None


def one(kind, *args):
    folder = tempfile.mkdtemp(prefix="acltk-c32-")
    try:
        return guarded({"filter": filter_differs, "render": render_differs, "manual": manual_differs, "reject": rejects}[kind], folder, *args)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def job(result, works):
    for w in works:
        result.state(w)
        result.traces += 1
        result.transitions += 1
        status, d = one(*w)
        if status == "ok" and d is None:
            result.outcome(f"{w[0]}: as expected")
            continue
        result.violation(f"{list(w)}: {d}"[:1500], {"work": list(w)})
        if result.full():
            return
    result.samples.append({"work": list(map(str, works[-1]))[:5]})


def run(ctx):
    works = []
    for d in gallery.TABLES:
        names = [n for n in gallery.names(d) if n != "al url"]  # the programs would fetch it
        sure = ("ext",) if d == "ios" else ()  # a section no other dialect has: the programs tell the dialects apart on their own
        sets = [(n, *sure) for n in names] + [tuple(names)]
        if not ctx.quick:
            sets += [(*t, *sure) for t in itertools.combinations(names, 2)]
        for s in sets:
            works += [("filter", d, s, f) for f in FILTERS]
            for f in [None] + (FILTERS if len(s) in (1 + len(sure), len(names)) else FILTERS[2:3]):
                flags = [fl for n in range(len(FLAGS) + 1) for fl in itertools.combinations(FLAGS, n)]
                works += [("render", d, s, f, fl) for fl in (flags if len(s) == len(names) or not ctx.quick and len(s) == 1 + len(sure) else flags[:1])]
        works += [("reject", d, f) for f in BROKEN]
    n = range(len(MANUAL))
    few = [i for i in n if i % ctx.pick(5, 2) == 0]
    works += [("manual", t) for t in [tuple(n), tuple(n)[::-1]] + [(i,) for i in n] + list(itertools.permutations(few, 2))]
    ctx.map(job, [(works[i:i + 40],) for i in range(0, len(works), 40)])
    ctx.bounds.update({"rules of the manual example": len(MANUAL), "constructs": {d: len(t) for d, t in gallery.TABLES.items()}, "filters": len(FILTERS), "options of the program": "all subsets" , "constructs at a time": ctx.pick(1, 2)})


def replay(result, p):
    w = [tuple(x) if isinstance(x, list) else x for x in p["work"]]
    status, d = one(*w)
    if status != "ok" or d is not None:
        result.violation(str(d)[:1500], p)
