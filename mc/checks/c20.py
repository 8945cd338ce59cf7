"""A malformed configuration is rejected, never half read: every single fault in every word of well-formed
configurations and every boundary value in every place, judged by the reference recogniser."""
import re

from .. import configs, gallery, impl, reader
from ..core import first_difference, guarded, jsonable

# words of every kind, to take the place of each word; the words of the quick palette are put in between as well
PALETTE = {
    "asa": ["any", "host", "object", "object-group", "eq", "range", "log", "inactive", "permit", "extended", "remark", "tcp", "icmp", "echo", "80",
            "65536", "256", "10.0.0.1", "255.255.255.0", "0.0.0.255", "255.0.255.0", "10.0.0.256", "10.0.0", "2001:db8::1", "2001:db8::/129", "2001::db8::1",
            "o-host", "g-net", "s-tcp", "g-port", "g-svc", "g-proto", "g-icmp", "srv", "work", "inside", "interface", "www", "x", "description", "service",
            "source", "destination", "static", "dynamic", "24:00", "8:60", "31", "Monday", "in", "network", "0", "-1"],
    "ios": ["any", "host", "object-group", "eq", "range", "log", "permit", "remark", "tcp", "icmp", "echo", "80", "65536", "256", "10.0.0.1", "0.0.0.255",
            "255.0.255.0", "10.0.0.256", "10.0.0", "2001:db8::1", "2001:db8::/129", "2001::db8::1", "g-net", "g-svc", "www", "x", "description", "source",
            "destination", "in", "0", "-1", "established", "fragments", "dscp", "sequence", "secondary", "standard", "GigabitEthernet0/1", "access-group",
            "vlan", "5", "trunk", "time-range", "group-object"],
}
QUICK = {
    "asa": ["any", "host", "object", "eq", "range", "log", "tcp", "80", "65536", "10.0.0.1", "255.255.255.0", "0.0.0.255", "10.0.0.256", "2001:db8::1",
            "2001:db8::/129", "o-host", "g-net", "g-port", "g-proto", "www", "x"],
    "ios": ["any", "host", "eq", "range", "log", "tcp", "echo", "80", "65536", "10.0.0.1", "0.0.0.255", "10.0.0.256", "2001:db8::1", "2001:db8::/129",
            "g-net", "x", "0", "sequence", "established"],
}
# in place of every number, also within addresses, masks, times and prefix lengths
NUMBERS = [0, 1, 23, 24, 31, 32, 33, 59, 60, 63, 64, 99, 100, 127, 128, 129, 199, 254, 255, 256, 257, 999, 1000, 1024, 4095, 4096, 9999, 65534, 65535, 65536,
           65537, 99999, 100000, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**64]


def texts(dialect):
    """The configurations to put faults into: each construct, behind those it refers to."""
    for n in gallery.names(dialect):
        text, own = gallery.config(dialect, [n]), gallery.TABLES[dialect][n][0]
        assert text.endswith(own), n
        yield n, text[: -len(own)], own


def number_faults(line):
    """Every number of a line replaced by every boundary value, by none and by a negative one."""
    for m in re.finditer(r"\d+", line):
        for n in ["", "-" + m.group(), "0" + m.group(), m.group() + ".0"] + [str(n) for n in NUMBERS]:
            yield f"{m.group()} at {m.start()} replaced by {n or 'nothing'}", line[: m.start()] + n + line[m.end():]


def pair_faults(line):
    """Every pair of words of a line, each missing, twice, changed or replaced."""
    indent = re.match(" *", line).group()
    w = line.split()
    one = lambda x: [[], [x, x], [x + "x"], ["any"], ["80"], ["10.0.0.1"]]
    for i in range(len(w)):
        for j in range(i + 1, len(w)):
            for a in one(w[i]):
                for b in one(w[j]):
                    yield f"word {i} {a}, word {j} {b}", indent + " ".join(w[:i] + a + w[i + 1:j] + b + w[j + 1:])


def word_faults(line, palette, between):
    """Every single fault of a line."""
    indent = re.match(" *", line).group()
    w = line.split()
    put = lambda x: indent + " ".join(x)
    for i in range(len(w)):
        yield f"word {i} missing", put(w[:i] + w[i + 1:])
        yield f"word {i} twice", put(w[: i + 1] + w[i:])
        yield f"cut behind word {i}", put(w[: i + 1])
        yield f"word {i} cut short", put(w[:i] + [w[i][:-1]] + w[i + 1:])
        yield f"word {i} prolonged", put(w[:i] + [w[i] + "x"] + w[i + 1:])
        yield f"word {i} in capitals", put(w[:i] + [w[i].upper()] + w[i + 1:])
        for j in range(i + 1, len(w)):
            yield f"words {i} and {j} exchanged", put(w[:i] + [w[j]] + w[i + 1:j] + [w[i]] + w[j + 1:])
        for p in palette:
            yield f"word {i} replaced by {p}", put(w[:i] + [p] + w[i + 1:])
        for p in between:
            yield f"{p} in front of word {i}", put(w[:i] + [p] + w[i:])
    for p in between:
        yield f"{p} at the end", put(w + [p])


def line_faults(lines):
    for i, l in enumerate(lines):
        yield f"line {i} missing", lines[:i] + lines[i + 1:]
        yield f"line {i} twice", lines[: i + 1] + lines[i:]
        if l.startswith(" "):
            yield f"line {i} not indented", lines[:i] + [l[1:]] + lines[i + 1:]
        if i + 1 < len(lines):
            yield f"lines {i} and {i + 1} in one", lines[:i] + [l + " " + lines[i + 1].strip()] + lines[i + 2:]
            yield f"lines {i} and {i + 1} exchanged", lines[:i] + [lines[i + 1], l] + lines[i + 2:]
        w = l.split()
        for k in range(1, len(w)):
            yield f"line {i} broken at {k}", lines[:i] + [l[: l.index(w[0])] + " ".join(w[:k]), " ".join(w[k:])] + lines[i + 1:]


def judge(result, dialect, text, label):
    v, state = reader.verdict(dialect, text)
    result.transitions += 1
    if v == reader.UNSPECIFIED:
        result.outcome("nothing said")
        return True
    result.traces += 1
    if v == reader.REJECTED:
        result.state(("rejected", text))
        seen = configs.observe(dialect, text, ["rules"])
        if isinstance(seen, str):
            result.outcome("malformed, rejected")
            return True
        what = f"accepted, although malformed: {state}"
    else:
        seen = configs.observe(dialect, text, sorted(state))
        result.state(jsonable(state))
        if isinstance(seen, str):
            if v == reader.LOOSE:
                result.outcome("at the fringe, rejected")
                return True
            what = f"well-formed, but {seen}"
        else:
            d = first_difference(jsonable(state), seen)
            if not d:
                result.outcome("well-formed, read as written" if v == "state" else "at the fringe, read in full")
                return True
            what = d
    result.violation(f"{label}: {what}"[:1200], {"kind": "text", "dialect": dialect, "text": text})
    return False


def job(result, dialect, name, before, own, quick):
    lines = own.rstrip("\n").split("\n")
    seen = {own}

    def put(label, ls):
        t = "\n".join(ls) + "\n"
        if t not in seen and not result.full():
            seen.add(t)
            judge(result, dialect, before + t, f"{name}, {label}")

    between = (QUICK if quick else PALETTE)[dialect]
    for i, l in enumerate(lines):
        for stage in (word_faults(l, PALETTE[dialect], between), number_faults(l), () if quick else pair_faults(l)):
            for label, f in stage:
                put(f"line {i}, {label}", lines[:i] + [f] + lines[i + 1:])
    for label, ls in line_faults(lines):
        put(label, ls)
    judge(result, dialect, before + own, name)
    result.samples.append({"construct": name, "texts": len(seen)})


def run(ctx):
    jobs = [(d, *t, ctx.quick) for d in PALETTE for t in texts(d)]
    jobs.sort(key=lambda j: -len(j[3]) * len(j[2] + j[3]))
    ctx.map(job, jobs)
    ctx.bounds["constructs"] = len(jobs)
    ctx.bounds["words in place of each word"] = {d: len(p) for d, p in PALETTE.items()}
    ctx.bounds["words in between"] = {d: len(p) for d, p in (QUICK if ctx.quick else PALETTE).items()}
    ctx.bounds["numbers"] = len(NUMBERS) + 4
    ctx.bounds["faults at a time"] = ctx.pick(1, 2)


def replay(result, p):
    judge(result, p["dialect"], p["text"], "replay")


PROBES = {  # known findings: (dialect, text, broken(configuration))
    "interface-line-ignored": ("asa", "interface E0\n nameif inside\n ip address 10.0.0.1 255.255.255.0 10.0.0.2\n",
                               lambda c: not list(c.interfaces.values())[0].addresses),
    "wildcard-as-netmask": ("asa", "access-list A extended permit ip 10.1.0.0 0.0.255.255 any\n", lambda c: str(c.rules.rules[0].src.host.network) == "10.1.0.0/16"),
}


def probe(finding):
    d, text, broken = PROBES[finding["key"]]
    status, cfg = guarded(impl.parse, d, text)
    return status == "ok" and broken(cfg)
