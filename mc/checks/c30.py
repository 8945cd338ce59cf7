"""The web service under every sequence of requests of up to k uploads, with every view after each of
them, compared with a dictionary of what was last stored under a name.

The service is the example itself; the shelf is a stand-in in memory that stores pickles, as shelve does."""
import html
import importlib.util
import io
import itertools
import os
import pickle
import sys
import types

from .. import canon, core, impl, page, reader
from ..core import guarded
from . import c25

ASA = "hostname fw\ndomain-name example.org\n"
FILES = {  # label: (dialect, text); None: not a configuration
    "fw 1": ("asa", ASA + "object-group network g\n network-object host 10.0.0.1\naccess-list A remark one\naccess-list A extended permit tcp object-group g any eq 22 log\n"
             "access-list A extended deny ip any any\n"),
    "fw 2": ("asa", ASA + "name 10.0.0.2 srv\naccess-list B extended permit udp host srv any range 1 9\n"),
    "fw empty": ("asa", ASA),
    "fw dotted": ("asa", "hostname fw.example\ndomain-name org\naccess-list C extended permit ip any any\n"),
    "rt": ("ios", "hostname rt\nip domain name example.org\nip access-list extended A\n permit ip 10.0.0.0 0.0.0.255 any\n deny tcp any any eq 80\n"),
    "nameless": ("asa", "access-list A extended permit ip any any\n"),
    "pf": ("pf", "<pfsense><system><hostname>pf</hostname><domain>example.org</domain></system><aliases/><interfaces><wan><if>em0</if><descr>WAN</descr></wan></interfaces>"
           "<filter><rule><type>pass</type><interface>wan</interface><source><address>10.0.0.1</address></source><destination><any/></destination><descr>d</descr></rule></filter></pfsense>\n"),
    "fw 1 broken": (None, ASA + "access-list A extended permit tcp any any eq 99999\n"),
    "text": (None, "this is not a configuration\n"),
}
NAMES = {"fw 1": "fw.example.org", "fw 2": "fw.example.org", "fw empty": "fw.example.org", "fw dotted": "fw.example.org", "rt": "rt.example.org", "nameless": ".", "pf": "pf.example.org"}
FILTERS = [None, "", "ip src 10.0.0.1", "id A", "id nowhere", "ip src", "ip src 10.0.0.0/8 except id A"]
BAD = {"ip src"}


class Shelf(dict):
    """What shelve is without writeback: everything is stored as a pickle and handed out as a new object."""

    def __setitem__(self, k, v):
        super().__setitem__(k, pickle.dumps(v))

    def __getitem__(self, k):
        return pickle.loads(super().__getitem__(k))

    def raw(self):
        return {k: dict.__getitem__(self, k) for k in self}


def service():
    """The application of the example with an empty shelf."""
    shelf = Shelf()
    stub = types.ModuleType("flask_shelve")
    stub.init_app = lambda app: None
    stub.get_shelve = lambda *a: shelf
    sys.modules["flask_shelve"] = stub
    spec = importlib.util.spec_from_file_location("acltk_dynamic", os.path.join(core.REPO, "examples", "render", "dynamic.py"))
    m = importlib.util.module_from_spec(spec)
    sys.modules[spec.name] = m
    dont, sys.dont_write_bytecode = sys.dont_write_bytecode, True
    try:
        impl._quiet(spec.loader.exec_module, m)
    finally:
        sys.dont_write_bytecode = dont
    m.app.logger.disabled = True
    m.app.config["PROPAGATE_EXCEPTIONS"] = False
    return m.app, shelf


_reference = {}


def reference(label):
    """-> (canonical form, function filter text -> selected rules and NAT rules)"""
    if label not in _reference:
        d, text = FILES[label]
        config = impl.parse(d, text)
        _reference[label] = (c25.meaning(d, text, config), {f: c25.chosen(config, f)[1:] for f in FILTERS if f and f not in BAD}, c25.heads(config))
    return _reference[label]


_expanded = {}


def expanded(label):
    if label not in _expanded:
        config = impl.parse(*FILES[label])
        state = canon.expanded(canon.everything(config))
        config.expand()
        _expanded[label] = state, {f: c25.chosen(config, f)[1:] for f in FILTERS if f and f not in BAD}, c25.heads(config)
    return _expanded[label]


def view_differs(client, name, label, f, sns, exp):
    q = {"config": name, **({"caf": f} if f is not None else {}), **({"sns": "1"} if sns else {}), **({"exp": "1"} if exp else {})}
    r = impl._quiet(lambda: client.get("/show", query_string=q))
    if label is None:
        return None if r.status_code == 404 else f"status {r.status_code} for a name nothing is stored under"
    if r.status_code != 200:
        return f"status {r.status_code}"
    state, chosen, heads = (expanded if exp else reference)(label)
    text = r.get_data(as_text=True)
    warned = "border:7px solid #FF0000" in text
    if warned != (f in BAD):
        return "a warning" if warned else "no warning about the filter"
    if f and f not in BAD:
        rules, nats = chosen[f]
        e = page.Expectation(state, rules, nats, sns)
    else:
        e = page.Expectation(state)
    if ("no selection" in text) != (not f or f in BAD):
        return "shown as selection or not"
    if f and html.escape(f, False) not in text and f not in text:
        return "the filter is not shown"
    return page.differs(text, e, heads)


def history_differs(history, deep):
    app, shelf = service()
    client, model, views = app.test_client(), {}, 0
    for n, label in enumerate(history):
        before = shelf.raw()
        r = impl._quiet(lambda: client.post("/add", data={"file": (io.BytesIO(FILES[label][1].encode()), "x.txt")}, content_type="multipart/form-data"))
        if FILES[label][0] is None:
            if r.status_code < 300:
                return f"{label}: accepted", views
            if shelf.raw() != before:
                return f"{label}: changed what is stored", views
        else:
            name = NAMES[label]
            if r.status_code != 302 or not r.headers["Location"].endswith(f"/show?config={name}"):
                return f"{label}: {r.status_code} {r.headers.get('Location')}", views
            model[name] = label
            now = shelf.raw()
            if {k: v for k, v in now.items() if k != name} != {k: v for k, v in before.items() if k != name}:
                return f"{label}: changed what is stored under another name", views
        if n < len(history) - 1:
            continue  # the shorter history has seen these views
        stored = shelf.raw()
        index = impl._quiet(lambda: client.get("/").get_data(as_text=True))
        if [x.split("<")[0] for x in index.split("<option>")[1:]] != sorted(model):
            return "the index shows other names", views
        for name in sorted(set(NAMES.values()) | {"other"}):
            for f, sns, exp in itertools.product(FILTERS if deep or model.get(name) == label else FILTERS[1:3], (False, True), (False, True)):
                views += 1
                d = view_differs(client, name, model.get(name), f, sns, exp)
                if d is not None:
                    return f"view {name} caf={f!r} sns={sns} exp={exp}: {d}", views
                if shelf.raw() != stored:
                    return f"view {name} caf={f!r} sns={sns} exp={exp} changed what is stored", views
    return None, views


def job(result, histories, deep):
    for h in histories:
        result.state(h)
        result.traces += 1
        status, d = guarded(history_differs, h, deep)
        d, views = d if status == "ok" else (d, 0)
        result.transitions += len(h) + views
        if d is None:
            result.outcome("every view shows what was stored last", views)
            continue
        result.violation(f"{list(h)}: {d}"[:1500], {"history": list(h), "deep": deep})
        if result.full():
            return
    result.samples.append({"history": list(histories[-1])})


def run(ctx):
    k = ctx.pick(3, 4)
    hs = [h for n in range(1, k + 1) for h in itertools.product(FILES, repeat=n)]
    ctx.map(job, [(hs[i:i + 12], not ctx.quick) for i in range(0, len(hs), 12)])
    ctx.bounds.update({"uploads": k, "files": len(FILES), "filters": len(FILTERS)})


def replay(result, p):
    status, d = guarded(history_differs, tuple(p["history"]), p["deep"])
    if status != "ok" or d[0] is not None:
        result.violation(str(d)[:1500], p)
