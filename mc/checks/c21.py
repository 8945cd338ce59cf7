"""Every way to hand in a text: all combinations of entry point, source, byte order mark, line ends
(also mixed within a text) and final line end, for every construct, compared with one another."""
import io
import itertools
import os
import shutil
import tempfile

from .. import canon, gallery, impl
from ..core import first_difference, guarded, jsonable
from .c27 import caf_form

EXTRA = {
    "asa": {
        "umlaut": "object network o\n host 10.0.0.1\n description Gäste ☃ 中\naccess-list A remark é\naccess-list A extended permit ip any any\n",
        "odd characters": "access-list A remark tab\there, nbsp\u00a0, line separator \u2028 and nel \x85 and form feed \x0c.\naccess-list A extended permit ip any any\n",
        "bom inside": "access-list A remark \ufeffmark\naccess-list A extended permit ip any any\n",
        "empty lines": ": Saved\n:\n!\nhostname fw\n!\naccess-list A extended permit ip any any\n: end\n",
        "last line is a remark": "access-list A extended permit ip any any\naccess-list B remark last\n",
        "last line is a group member": "object-group network g\n network-object host 10.0.0.1\n network-object host 10.0.0.2\n",
        "last line is nat": "interface E0\n nameif in\nnat (in,any) source static any any description words at the end\n",
        "last line is a time": "time-range t\n periodic daily 0:00 to 23:59\n",
        "last line is an interface": "interface E0\n nameif in\n description last words\n",
        "last line is a description": "object service s\n service tcp\n description last words\n",
        "last line is a name": "name 192.0.2.1 n description last words\n",
        "last line is webtype": "access-list W webtype permit url http://x/y\n",
    },
    "ios": {
        "banner": "banner motd #\nline one\n  line two \n#\naccess-list 7 permit any\n",
        "umlaut": "ip access-list standard S\n remark Gäste ☃\n permit any\n",
        "last line is a rule": "ip access-list extended L\n permit ip any any\n deny tcp any any log\n",
        "last line is a vlan": "interface E0\n switchport trunk allowed vlan 1,2\n",
        "last line is a route": "interface E0\n ip address 10.0.0.1 255.0.0.0\nip route 10.0.0.0 255.0.0.0 10.0.0.9\n",
        "last line is six": "ipv6 access-list S\n sequence 10 permit ipv6 any any\n",
        "last line is a description": "interface E0\n description the end\n",
        "end": "hostname r\naccess-list 7 permit any\nend\n",
    },
    "pf": {
        "umlaut": gallery.PF_FRAME.format(h="h", d="d", a="<alias><name>x</name><type>host</type><address>10.0.0.1</address><descr>Gäste ☃\nsecond line</descr></alias>",
                                          i="", f=""),
        "declaration": '<?xml version="1.0"?>\n' + gallery.config("pf"),
        "encoding": '<?xml version="1.0" encoding="UTF-8"?>\n' + gallery.config("pf"),
        "lines": gallery.config("pf").replace("><", ">\n<"),
    },
}
TRAILING = {
    "asa": ["access-list A remark words \naccess-list A extended permit ip any any\n", "object network o\n host 10.0.0.1\n description words  \n",
            "interface E0\n nameif in\n description words\t\nhostname fw \n", "name 192.0.2.1 n description words \n", "access-list A remark  \n"],
    "ios": ["ip access-list extended E\n remark words \n permit ip any any\n", "interface E0\n description words \n no shutdown \nhostname r \n",
            "vlan 5\n name words \n"],
}
FILTERS = ["ip src 10.0.0.1", "id A\n", "ip src 10.0.0.1 10.0.0.2\nip dst any4\n", "/* a comment\nover lines */\nip src any\nunion\nid B\n",
           "id A\n(ip src any\nexcept (ip dst 10.0.0.0/8\nintersect id /B*/))\n", "ip src ANY\n/* end */\n", "ip src any /* ☃ */\n"]
BAD = {"asa": ["nonsense\n", "access-list A extended permit ip any\n", "object network o\n host 10.0.0.\n"], "ios": ["access-list 7 allow any\n"],
       "pf": ["<pfsense>\n", "<other></other>\n"]}
BAD_FILTERS = ["ip src", "id A union\n", "", "/* open\n"]


def texts():
    for d in gallery.TABLES:
        for n in gallery.names(d):
            yield d, gallery.config(d, [n])
        yield d, gallery.config(d)
        for t in EXTRA[d].values():
            yield d, t
            for blanks in (" ", "  ", "\t"):
                yield d, t.replace("\n", blanks + "\n")
        for t in TRAILING.get(d, ()):
            yield d, t
        for t in BAD[d]:
            yield d, t


def classes(dialect):
    from acltk import ACLConfig
    from acltk.fwsmObjects import fwsmConfig
    from acltk.iosObjects import iosConfig
    from acltk.pfsenseObjects import pfsenseConfig

    return {"asa": fwsmConfig, "ios": iosConfig, "pf": pfsenseConfig, "auto": ACLConfig}[dialect]


def options(kind):
    from acltk.aclObjects import ACLParserOptions
    from acltk.pfsenseObjects import pfsenseParserOptions

    return {"none": None, "plain": ACLParserOptions(), "pf": pfsenseParserOptions(fetch_urltable=False)}[kind]


SOURCES = ("string", "string with name", "bytes file", "file", "path", "path object", "unnamed file")


def read(cls, source, data, opts, scratch):
    """data: bytes"""
    a = (opts,) if opts is not None else ()
    if source == "string":
        return cls.fromString(data.decode(), None, *a)
    if source == "string with name":
        return cls.fromString(data.decode(), "a name", *a)
    if source == "bytes file":
        return cls.fromFile(io.BytesIO(data), *a)
    path = os.path.join(scratch, "config.txt")
    with open(path, "wb") as f:
        f.write(data)
    if source == "file":
        with open(path, "rb") as f:
            return cls.fromFile(f, *a)
    if source == "path":
        return cls.fromPath(path, *a)
    if source == "path object":
        import pathlib

        return cls.fromPath(pathlib.Path(path), *a)
    with tempfile.TemporaryFile(dir=scratch) as f:  # its name is a number
        f.write(data)
        f.seek(0)
        return cls.fromFile(f, *a)


def encodings(text):
    """-> (label, bytes, has byte order mark)"""
    body = text.rstrip("\n")
    for final in ("one", "none", "two"):
        t = body + {"one": "\n", "none": "", "two": "\n\n"}[final]
        if final == "two" and not body.startswith("<"):
            continue  # whether empty lines are allowed is a question of the language
        for crlf in (False, True):
            for bom in (False, True):
                d = (t.replace("\n", "\r\n") if crlf else t).encode()
                yield f"{'CRLF' if crlf else 'LF'}, {final} final line end{', BOM' if bom else ''}", (b"\xef\xbb\xbf" if bom else b"") + d, bom


def form(o):
    return {"everything": jsonable(canon.everything(o)), "shared": canon.shared(o), "kind": type(o).__name__,
            "captions": [[(c.text, c.bg) for c in (r.head or [])] for r in o.rules.rules], "version": getattr(o, "version", None)}


def look(cls, source, data, opts, scratch, how=form):
    status, o = guarded(lambda: impl._quiet(read, cls, source, data, opts, scratch))
    if status != "ok":
        return "rejected"
    status, f = guarded(how, o)
    return f if status == "ok" else f"unreadable: {f}"


def reference(dialect, text):
    return look(classes(dialect), "string", (text.rstrip("\n") + "\n").encode(), options("pf") if dialect == "pf" else None, None)


def undated(f):
    """Without the line about dates of pfSense rules."""
    if isinstance(f, dict) and "kind" in f and f["kind"].startswith("pf"):
        for r in f["everything"]["rules"]:
            r["remark"] = r["remark"][:1]
    return f


def ways(dialect, text, scratch):
    want = undated(reference(dialect, text))
    auto = next((r for r in (undated(reference(d, text)) for d in ("asa", "ios", "pf")) if r != "rejected"), "rejected")
    o = ["pf"] if dialect == "pf" else ["none", "plain"]
    for label, data, bom in encodings(text):
        for source in SOURCES:
            if bom and source.startswith("string"):
                continue
            for entry in (dialect, "auto"):
                for opt in o if source in ("string", "bytes file") else o[:1]:
                    yield f"{entry} {source} options {opt}, {label}", (entry, source, data, opt), want if entry == dialect else auto


def difference(want, got):
    if isinstance(want, dict) and isinstance(got, dict):
        return first_difference(want, got)
    return f"{str(got)[:200]} instead of {str(want)[:200]}"


def job(result, part):
    scratch = tempfile.mkdtemp(prefix="mc-c21-")
    try:
        for dialect, text in part:
            for label, (entry, source, data, opt), want in ways(dialect, text, scratch):
                got = undated(look(classes(entry), source, data, options(opt), scratch))
                result.traces += 1
                result.transitions += 1
                if got != want:
                    result.violation(f"{label}: {difference(want, got)}"[:1200], {"kind": "config", "dialect": dialect, "text": text, "way": label})
                    break
            result.state((dialect, text))
            result.outcome(f"{dialect} texts")
            if result.full():
                return
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def mixed_job(result, part):
    for dialect, text in part:
        want = undated(reference(dialect, text))
        lines = text.rstrip("\n").split("\n")
        for ends in itertools.product(("\n", "\r\n"), repeat=len(lines)):
            data = "".join(l + e for l, e in zip(lines, ends)).encode()
            for entry, source in ((dialect, "string"), (dialect, "bytes file")):
                got = undated(look(classes(entry), source, data, options("pf") if dialect == "pf" else None, None))
                result.traces += 1
                result.transitions += len(lines)
                if got != want:
                    result.violation(f"{source} {data!r}: {difference(want, got)}"[:1200], {"kind": "mixed", "dialect": dialect, "text": text})
                    break
            else:
                continue
            break
        result.state((dialect, text, "mixed"))
        result.outcome("texts with mixed line ends")


def filter_job(result, part):
    from acltk import cafBlock

    scratch = tempfile.mkdtemp(prefix="mc-c21-")
    try:
        for text in part:
            # comments may contain anything; everything else is words and white space
            want = look(cafBlock, "string", text.encode(), None, None, caf_form)
            variants = [(l, d, b) for l, d, b in encodings(text)]
            n = text.count("\n")
            if n <= 6:
                pieces = text.split("\n")
                for ends in itertools.product(("\n", "\r\n"), repeat=n):
                    variants.append(("mixed", "".join(p + e for p, e in zip(pieces, ends + ("",))).encode(), False))
            for label, data, bom in variants:
                for source in SOURCES:
                    if bom and source.startswith("string"):
                        continue
                    got = look(cafBlock, source, data, None, scratch, caf_form)
                    result.traces += 1
                    result.transitions += 1
                    if got != want:
                        result.violation(f"filter {data!r} from {source}: {str(got)[:300]} instead of {str(want)[:300]}", {"kind": "filter", "text": text})
                        break
                else:
                    continue
                break
            result.state(text)
            result.outcome("filters")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


SAME_SIZE = {  # texts of the same length
    "asa": [f"object-group network g\n network-object host 10.0.0.{n}\naccess-list {a} extended permit ip object-group g any\n" for n in "12" for a in "AB"],
    "ios": [f"access-list {n} {w}mit any\n" for n in "78" for w in ("per", "pre")],  # every other one is none
    "pf": [gallery.PF_FRAME.format(h="h", d="d", a=f"<alias><name>x</name><type>host</type><address>10.0.0.{n}</address><descr/></alias>", i="", f="") for n in "12"],
    "caf": [f"ip {d} 10.0.0.{n}\n" for d in ("src", "dst") for n in "12"] + ["ip src any     \n", "ip src ANY     \n"],
}


def again_job(result, kind, texts, how, source):
    """The same path with another text of the same length and the same times."""
    from acltk import cafBlock

    top = tempfile.mkdtemp(prefix="mc-c21-")
    cwd = os.getcwd()
    f = caf_form if kind == "caf" else lambda o: undated(form(o))
    try:
        for entry in [cafBlock] if kind == "caf" else [classes(kind), classes("auto")]:
            for n, text in enumerate(texts):
                want = look(entry, "string", text.encode(), None, None, f)
                folder = os.path.join(top, str(n) if how == "elsewhere" else "0")
                os.makedirs(folder, exist_ok=True)
                os.chdir(folder)
                new = "new" if how == "replaced" else "config.txt"
                with open(new, "w") as h:
                    h.write(text)
                os.utime(new, (10**9, 10**9))
                if how == "replaced":
                    os.rename(new, "config.txt")

                def fresh():
                    path = "config.txt" if how == "elsewhere" else os.path.join(folder, "config.txt")
                    if source == "file":
                        with open(path, "rb") as h:
                            return entry.fromFile(h)
                    if source == "path object":
                        import pathlib

                        return entry.fromPath(pathlib.Path(path))
                    return entry.fromPath(path)

                status, o = guarded(impl._quiet, fresh)
                got = "rejected" if status != "ok" else f(o)
                result.traces += 1
                result.transitions += 1
                if got != want:
                    result.violation(f"{how} {source}, text {n} of {texts}: {difference(want, got)}"[:1200], {"kind": "again", "args": [kind, list(texts), how, source]})
                    return
        result.state((kind, texts, how, source))
        result.outcome("files read again")
    finally:
        os.chdir(cwd)
        shutil.rmtree(top, ignore_errors=True)


def run(ctx):
    again = [(k, p, how, source) for k, ts in SAME_SIZE.items() for p in itertools.permutations(ts, 2) for how in ("rewritten", "replaced", "elsewhere")
             for source in ("path", "path object", "file")]
    assert all(len({len(t) for t in ts}) == 1 for ts in SAME_SIZE.values())
    ctx.map(again_job, again)
    all_ = list(dict.fromkeys(texts()))
    rejected = [t for d, t in all_ if reference(d, t) == "rejected"]
    ctx.bounds["texts"] = {"all": len(all_), "rejected by every way": len(rejected)}
    if len(rejected) > len(all_) // 2:
        ctx.total.violation(f"most texts are rejected, for example {rejected[0]!r}", {"kind": "config", "dialect": "asa", "text": rejected[0]})
    all_.sort(key=lambda t: -len(t[1]))
    pairs = []
    if not ctx.quick:
        for d in gallery.TABLES:
            pairs += [(d, gallery.config(d, p)) for p in itertools.combinations(gallery.names(d), 2)]
        pairs = [p for p in dict.fromkeys(pairs) if p not in set(all_)]
        ctx.bounds["texts of two constructs"] = len(pairs)
    ctx.map(job, [([t],) for t in all_] + [(pairs[i : i + 20],) for i in range(0, len(pairs), 20)])
    n = ctx.pick(6, 9)
    small = [t for t in all_ + pairs[::5] if 1 < t[1].rstrip("\n").count("\n") + 1 <= n]
    ctx.bounds["mixed line ends"] = {"texts": len(small), "lines up to": n}
    ctx.map(mixed_job, [([t],) for t in small])
    filters = FILTERS + BAD_FILTERS
    if not ctx.quick:
        filters += [f"{a}\n{o}\n{b}" for a in FILTERS for b in FILTERS for o in ("union", "intersect", "except")]
    ctx.map(filter_job, [([f],) for f in filters])
    ctx.assumptions.append("a byte order mark is part of a file, not of a string")


def replay(result, p):
    if p["kind"] == "filter":
        filter_job(result, [p["text"]])
    elif p["kind"] == "again":
        k, texts, how, source = p["args"]
        again_job(result, k, tuple(texts), how, source)
    elif p["kind"] == "mixed":
        mixed_job(result, [(p["dialect"], p["text"])])
    else:
        job(result, [(p["dialect"], p["text"])])
