"""The filter language: exactly the documented filters are accepted, with their meaning."""
import fnmatch
import itertools

from .. import cafref, impl
from ..core import guarded

CONFIG = """object-group network g
 network-object host 10.1.0.1
object-group network h
 network-object 10.0.0.0 255.0.0.0
 network-object host 192.0.2.1
access-list A extended permit ip host 10.1.0.1 any
access-list A extended permit ip any host 10.1.0.1
access-list B extended permit ip 10.0.0.0 255.0.0.0 any4
access-list Ab extended permit ip host 192.0.2.1 host 2001:db8::1
access-list union extended permit ip any6 object-group g
access-list id extended permit ip any object-group h
access-list src extended permit ip 2001:db8::/32 any6
"""
A1 = ("host", 4, 0x0A010001)
N10 = ("net", 4, 0x0A000000, 8, "str")
H = ("host", 4, 0xC0000201)
H6 = ("host", 6, (0x20010DB8 << 96) + 1)
N6 = ("net", 6, 0x20010DB8 << 96, 32, "str")
RULES = [
    ("A", A1, ("any",)), ("A", ("any",), A1), ("B", N10, ("any4",)), ("Ab", H, H6),
    ("union", ("any6",), ("grp", "g", (A1,))), ("id", ("any",), ("grp", "h", (N10, H))), ("src", N6, ("any6",)),
]
TOKENS = ["id", "A", "/A*/", "ip", "src", "dst", "10.1.0.1", "10.0.0.0/8", "any", "ANY", "2001:db8::/32", "(", ")",
          "union", "intersect", "except", "/* c */"]
# further spellings of single tokens, tried in every documented position
ADDRESSES = ["10.1.0.1", "10.0.0.0/8", "0.0.0.0/0", "10.1.0.1/32", "10.1.2.3/16", "192.0.2.1", "2001:db8::1", "::/0", "::",
             "2001:db8::1/128", "2001:db8::/32", "any", "any4", "any6", "ANY", "ANY4", "ANY6", "255.255.255.255"]
BAD = ["10.1.0.256", "10.1.0", "10.1.0.1/33", "10.1.0.1/", "any5", "Any", "2001:db8::/129", "2001:db8", "10.1.0.1.1",
       "host", "UNION", "Id", "IP", "//", "*", "]", "&", "10.1.0.1,", "id:A", "#", "10.1.0.1/-1", "::g"]
COMMENTS = ["/**/", "/* */", "/***/", "/* a\nb */", "/* * / */", "/* ip src any */", "/* a **/", "/*/ x */", "/* ( union */",
            "/* /* */"]


def job(result, group):
    config = impl.parse("asa", CONFIG)
    for tokens, source in group:
        source = cafref.text(tokens) if source is None else source
        if any(tokens[i] == "id" and cafref.is_comment(tokens[i + 1]) for i in range(len(tokens) - 1)):
            continue  # an id that starts like a comment: not specified
        outcome, d = cafref.judge(config, RULES, tokens, source)
        result.traces += 1
        result.transitions += len(tokens)
        result.state(tuple(tokens))
        result.outcome(outcome)
        if d is not None:
            result.violation(f"filter {source!r}: {d}", {"tokens": list(tokens), "source": source})
            if result.full():
                return
    result.samples.append({"filter": source, "outcome": outcome})


def extra():
    """Single documented filters with other spellings of one token, comment or blank."""
    shapes = [["ip", "src", None], ["id", "A", "ip", "dst", None], ["ip", "src", "any", None], ["ip", "src", None, "ip", "dst", None],
              ["(", "ip", "dst", None, ")"], ["id", "A", "union", "ip", "src", None]]
    for s in shapes:
        n = s.count(None)
        for fill in itertools.product(ADDRESSES, repeat=n):
            it = iter(fill)
            yield [next(it) if t is None else t for t in s], None
        for b in BAD:
            toks = [b if t is None else t for t in s]
            yield toks, None
    # every character an id may have or not, at the ends and in the middle, in patterns and their sets
    for c in map(chr, range(33, 127)):
        for w in (c, c + c, "A" + c, c + "A", "A" + c + "b", "/" + c + "/", "/A" + c + "/", "/[" + c + "]/", "/[A" + c + "]*/", "/[!" + c + "]*/", "/" + c + "*/"):
            if w[0] not in "(#" and ")" not in w and "(" not in w and "/*" not in w and "*/" not in w[:-1] or w[0] + w[-1] == "//" and not set("()") & set(w):
                if not cafref.is_comment(w):
                    yield ["id", w], None
                    yield ["id", w, "ip", "dst", "any"], None
    base = ["id", "A", "ip", "src", "any", "union", "(", "id", "B", "except", "ip", "dst", "10.1.0.1", ")"]
    for i in range(len(base) + 1):
        if i and base[i - 1] in ("id", "ip", "src", "dst"):
            continue
        if i < len(base) and cafref.address(base[i]):
            continue
        for c in COMMENTS:
            yield base[:i] + [c] + base[i:], None
            yield base[:i] + [c, c] + base[i:], None
        for bad in BAD + ["/*", "*/", "/* x", ")", "id", "ip"]:
            if bad == "*/" or bad == "/*":
                continue
            if i and base[i - 1] == ")" or True:
                yield base[:i] + [bad] + base[i:], None
    for sep in ("\n", "\t", "  ", " \n\t ", "\r\n"):
        yield base, sep.join(base)
        yield base, sep + sep.join(base) + sep
        yield ["id", "A"] + ["intersect", "(", "id", "A", ")"], sep.join(["id", "A"]) + sep + "intersect(id A)"
    for compact in ("(id A)union(id B)", "(ip src any)except(id B)", "((id A)intersect(ip dst any))"):
        toks = compact.replace("(", " ( ").replace(")", " ) ").split()
        yield toks, compact
    for run in ("idA", "id Aunion id B", "ip srcany", "ip src any4any6", "ipsrc any", "id A unionid B", "id A ipsrc any"):
        # words are separated by blanks
        if run == "id Aunion id B":
            yield ["id", "Aunion", "id", "B"], run
        else:
            yield ["\0"], run


def run(ctx):
    depth = ctx.pick(4, 5)
    config = impl.parse("asa", CONFIG)
    # the reference's glob against the documentation of shell patterns
    for n in range(4):
        for p in itertools.product("ab*?[]!-", repeat=n):
            for name in ("", "a", "b", "ab", "ba", "aab", "]", "-", "!"):
                p_ = "".join(p)
                if "-" not in p_:
                    assert cafref.glob(p_, name) == fnmatch.fnmatchcase(name, p_), (p_, name)
    cases = [(list(t), None) for n in range(depth + 1) for t in itertools.product(TOKENS, repeat=n)]
    more = list(extra())
    ctx.bounds = {"token strings up to length": depth, "tokens": TOKENS, "strings": len(cases), "spelling variants": len(more)}
    ctx.batches(job, more, 100)
    ctx.batches(job, cases, 1500)


def replay(result, p):
    job(result, [(p["tokens"], p["source"])])
