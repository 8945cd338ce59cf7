"""The shipped parsers against the parsers their grammar files describe."""
import re
import sys
import types

from .. import canon, grammar, impl
from ..core import guarded, hash_state

DIALECTS = {"caf": ("caf", "cafSemantics"), "asa": ("fwsm", "fwsmSemantics"), "ios": ("ios", "iosSemantics")}
START = {"caf": "grammar", "asa": "command", "ios": "command"}
SOURCES = {}  # parser source generated from the grammar files of the tree under test
MODULES = {}


class from_grammar:
    """Within this context the code under test uses the parser the grammar describes."""

    def __init__(self, dialect):
        self.name, self.sem = DIALECTS[dialect]

    def __enter__(self):
        import acltk.caf, acltk.cafSemantics, acltk.fwsm, acltk.fwsmSemantics, acltk.ios, acltk.iosSemantics  # noqa

        names = ["acltk." + self.name, "acltk." + self.sem]
        if self.name not in MODULES:
            gen = types.ModuleType(names[0])
            exec(compile(SOURCES[self.name], f"<{self.name}.bnf>", "exec"), gen.__dict__)
            shipped = sys.modules[names[0]]
            sys.modules[names[0]] = gen
            try:
                sem = types.ModuleType(names[1])
                sem.__file__ = sys.modules[names[1]].__file__
                exec(compile(open(sem.__file__).read(), sem.__file__, "exec"), sem.__dict__)
            finally:
                sys.modules[names[0]] = shipped
            MODULES[self.name] = (gen, sem)
        self.saved = {n: sys.modules[n] for n in names}
        sys.modules.update(zip(names, MODULES[self.name]))

    def __exit__(self, *a):
        sys.modules.update(self.saved)


WORLD = {}


def observe(dialect, text):
    if dialect == "caf":
        if "caf" not in WORLD:
            pre = "object network n\n host 10.0.0.1\nobject-group network g\n network-object 10.0.0.0 255.255.255.0\n network-object object n\n"
            terms = ["any", "any4", "any6", "host 10.0.0.1", "10.0.0.0 255.255.255.0", "host 10.0.0.2", "object n", "object-group g", "host 2001:db8::1", "0.0.0.0 0.0.0.0"]
            pre += "".join(f"access-list {i} extended permit ip {a} {b}\n" for i in ("x", "xx", "1") for a in terms for b in terms)
            WORLD["caf"] = impl.parse("asa", pre)
        cfg = WORLD["caf"]
        status, got = guarded(lambda: impl.caf(text).run(cfg.rules))
        if status != "ok":
            return "rejected"
        index = {id(r): i for i, r in enumerate(cfg.rules.rules)}
        return sorted(index.get(id(r), -1) for r in got)
    status, cfg = guarded(impl.parse, dialect, text)
    if status != "ok":
        return "rejected"
    status, got = guarded(canon.everything, cfg)
    return got if status == "ok" else "unreadable"


DEFINITIONS = {  # of the names the sentences use, in an order that respects references
    "asa": {
        "srv": "name 192.0.2.10 srv\n",
        "inside": "interface Ethernet0/0\n nameif inside\n",
        "tr": "time-range tr\n periodic daily 8:00 to 18:00\n",
        "net": "object network net\n host 10.2.0.1\n",
        "svc": "object service svc\n service tcp destination eq 80\n",
        "grp": "object-group network grp\n network-object host 10.4.0.1\n",
        "ports": "object-group service ports tcp\n port-object eq 80\n",
        "sg": "object-group service sg\n service-object tcp destination eq 443\n",
        "pg": "object-group protocol pg\n protocol-object tcp\n",
        "ig": "object-group icmp-type ig\n icmp-object echo\n",
    },
    "ios": {
        "inside": "interface inside\n ip address 10.0.0.2 255.255.255.0\n",
        "grp": "object-group network grp\n host 10.4.0.1\n",
        "sg": "object-group service sg\n tcp destination eq 443\n",
    },
}


def preamble(dialect, text):
    """The definitions of the names that occur in the text."""
    words = set(re.findall(r"[A-Za-z0-9]+", text))
    out = "".join(d for n, d in DEFINITIONS.get(dialect, {}).items() if n in words)
    return out + ("!\n" if out and dialect == "ios" else "")


def finish(dialect, text):
    """Something behind the sentence, to see where it ended."""
    if dialect == "asa":
        return text + ("" if text.endswith("\n") else "\n") + "access-list last extended permit ip any any\n"
    if dialect == "ios":
        return text + ("" if text.endswith("\n") else "\n") + "access-list 199 permit ip any any\n"
    return text


def mutations(text, full):
    """Single faults: every token dropped or prolonged; full: also doubled, shortened, in capitals, replaced, swapped with the next."""
    tokens = re.findall(r"\s+|[^\s(),/:-]+|.", text)
    for i, t in enumerate(tokens):
        put = lambda *x: "".join(tokens[:i]) + "".join(x) + "".join(tokens[i + 1:])
        yield put()
        if full:
            yield put(t, " ", t) if t.strip() else put(t, t)
        if t.strip():
            yield put(t + "x")
            if full:
                yield put(t[:-1])
                yield put(t.upper())
                yield put("x")
                for j in range(i + 1, len(tokens)):
                    if tokens[j].strip():
                        yield "".join(tokens[:i] + [tokens[j]] + tokens[i + 1:j] + [t] + tokens[j + 1:])
                        break


def job(result, dialect, sentences, full, faults):
    seen = set()
    for s in sentences:
        for n, t in enumerate([s] + (list(mutations(s, full)) if faults else [])):
            if t in seen:
                continue
            seen.add(t)
            text = preamble(dialect, t) + finish(dialect, t)
            shipped = observe(dialect, text)
            with from_grammar(dialect):
                described = observe(dialect, text)
            result.traces += 1
            result.transitions += 1
            result.states.add(hash_state((dialect, described)))
            kind = "sentence" if n == 0 else "single fault"
            result.outcome(f"{dialect}: {kind} {'rejected' if described == 'rejected' else 'accepted'} by both")
            if shipped != described:
                show = lambda o: o if isinstance(o, str) else "accepted" if "rejected" in (shipped, described) else str(o)[:300]
                result.violation(f"{dialect}: {t!r}: the grammar: {show(described)}, the shipped parser: {show(shipped)}", {"dialect": dialect, "text": text})
                if result.full():
                    return
    result.samples.append({"dialect": dialect, "sentence": sentences[0], "result": "rejected" if described == "rejected" else "accepted"})


def run(ctx):
    import multiprocessing

    with multiprocessing.get_context("fork").Pool(3) as pool:
        for (name, sentences, src) in pool.imap_unordered(prepare, [(d, ctx.quick) for d in DIALECTS]):
            SOURCES[DIALECTS[name][0]] = src
            SENTENCES[name] = sentences
    jobs = []
    for d, (plain, faulty) in SENTENCES.items():
        jobs += [(d, plain[i : i + 60], False, False) for i in range(0, len(plain), 60)]
        jobs += [(d, faulty[i : i + 6], not ctx.quick, True) for i in range(0, len(faulty), 6)]
        ctx.bounds[d] = {"sentences": len(plain), "sentences with every single fault": len(faulty)}
    ctx.bounds["departures from the default derivation inside the rule under test"] = BOUND[ctx.quick]
    ctx.map(job, jobs)


SENTENCES = {}
BOUND = {True: {"caf": 3, "asa": 1, "ios": 1}, False: {"caf": 4, "asa": 2, "ios": 2}}
FAULTS = {True: {"caf": 2, "asa": 1, "ios": 1}, False: {"caf": 3, "asa": 1, "ios": 1}}


def prepare(arg):
    dialect, quick = arg
    model, src = grammar.load(DIALECTS[dialect][0])
    s = grammar.Sentences(model)
    s.free = dialect == "caf"
    plain = list(s.all(START[dialect], BOUND[quick][dialect]))
    faulty = list(s.all(START[dialect], FAULTS[quick][dialect]))
    if quick and dialect != "caf":
        # vocabulary lists and ignored commands once
        faulty = list({re.sub(r"[a-z0-9-]+$", "", t.strip()) + str(len(t.split())): t for t in faulty}.values())
    return dialect, (plain, faulty), src


def replay(result, p):
    model, src = grammar.load(DIALECTS[p["dialect"]][0])
    SOURCES[DIALECTS[p["dialect"]][0]] = src
    a = observe(p["dialect"], p["text"])
    with from_grammar(p["dialect"]):
        b = observe(p["dialect"], p["text"])
    if a != b:
        result.violation(f"the grammar: {str(b)[:300]}, the shipped parser: {str(a)[:300]}", p)
