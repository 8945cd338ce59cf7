"""Reference reader and evaluator of the ACL filter language, on tokens.

A filter denotes a set of rules.  A rule is (id, source term, destination term) with the terms of
mc.addr.  Strictness: 'must' = documented language, has to be accepted; 'may' = not documented (an
empty operand, sets without an operator between them, a comment inside a clause): either rejected
or given the obvious meaning; None = not a filter, has to be rejected.
"""
import re

from . import addr

OPS = ("union", "intersect", "except")
DIRS = ("src", "dst")
ANYS = ("any", "any4", "any6", "ANY", "ANY4", "ANY6")
WORD = re.compile(r"[A-Za-z0-9_\-.?*\[\]!/]+\Z")
V4 = re.compile(r"(\d{1,3}(?:\.\d{1,3}){3})(?:/(\d+))?\Z")


class No(Exception):
    pass


def is_comment(t):
    return t.startswith("/*") and t.endswith("*/") and len(t) >= 4


def address(t):
    """Token -> addr term, or a special 'ANY' term; None when it is no address."""
    if t in ("any", "any4", "any6"):
        return (t,)
    if t in ("ANY", "ANY4", "ANY6"):
        return (t,)
    import ipaddress

    try:
        n = ipaddress.ip_network(t, strict=False)
    except ValueError:
        return None
    if not V4.match(t) and ":" not in t:
        return None
    if "/" in t:
        return ("net", n.version, int(n.network_address), n.prefixlen, "str")
    return ("host", n.version, int(n.network_address))


def read(tokens):
    """-> (strict, ast) or None.  ast: ('set', [item]) | (op, a, b); item: ('id', p) | ('ip', dir, [terms]) | ('expr', ast)"""
    strict = [True]
    plain = []
    for i, t in enumerate(tokens):
        prev = tokens[i - 1] if i else None
        if is_comment(t) and prev == "id" and WORD.match(t):
            plain.append(t)  # a pattern like /*x*/
        elif is_comment(t):
            nxt = tokens[i + 1] if i + 1 < len(tokens) else None
            if prev in ("id", "ip") + DIRS or (nxt is not None and address(nxt) is not None):
                strict[0] = False
        else:
            plain.append(t)
    pos = [0]

    def peek():
        return plain[pos[0]] if pos[0] < len(plain) else None

    def take():
        t = peek()
        pos[0] += 1
        return t

    def expr():
        terms, ops = [rset()], []
        while peek() in OPS:
            ops.append(take())
            terms.append(rset())
        # intersect binds tighter, the others apply from left to right
        i = 0
        while i < len(ops):
            if ops[i] == "intersect":
                terms[i : i + 2] = [("intersect", terms[i], terms[i + 1])]
                del ops[i]
            else:
                i += 1
        r = terms[0]
        for o, t in zip(ops, terms[1:]):
            r = (o, r, t)
        return r

    def rset():
        items = []
        if peek() == "id":
            take()
            p = take()
            if p is None or not WORD.match(p):
                raise No
            items.append(("id", p))
        exprs = ips = 0
        while True:
            t = peek()
            if t == "ip":
                take()
                d = take()
                if d not in DIRS:
                    raise No
                nets = []
                while peek() is not None and address(peek()) is not None:
                    nets.append(address(take()))
                if not nets:
                    raise No
                items.append(("ip", d, nets))
                ips += 1
            elif t == "(":
                take()
                items.append(("expr", expr()))
                exprs += 1
                if take() != ")":
                    raise No
            else:
                break
        if exprs > 1 or (exprs and ips) or not items:
            strict[0] = False
        return ("set", items)

    try:
        e = expr()
        if peek() is not None:
            raise No
    except No:
        return None
    return strict[0], e


def plain_term(c):
    """The term of an address in canonical form (mc.canon)."""
    if c[0] == "grp":
        return ("grp", c[1], tuple(map(plain_term, c[2])))
    if c[0] == "net":
        bits = addr.BITS[c[1]]
        free = ~c[3] & ((1 << bits) - 1)
        return ("net", c[1], c[2], bits - free.bit_length(), "str")
    return c[:1]


def glob(pattern, name):
    """Shell pattern: * ? [seq] [!seq], case sensitive."""
    def match(i, j):
        while i < len(pattern):
            c = pattern[i]
            if c == "*":
                return any(match(i + 1, k) for k in range(j, len(name) + 1))
            if j >= len(name):
                return False
            if c == "?":
                i, j = i + 1, j + 1
                continue
            if c == "[":
                k = i + 1
                if k < len(pattern) and pattern[k] == "!":
                    k += 1
                if k < len(pattern) and pattern[k] == "]":
                    k += 1
                while k < len(pattern) and pattern[k] != "]":
                    k += 1
                if k < len(pattern):
                    body = pattern[i + 1 : k]
                    neg = body.startswith("!")
                    body = body[1:] if neg else body
                    inside, n = False, 0
                    while n < len(body):
                        if n + 2 < len(body) and body[n + 1] == "-":
                            inside |= body[n] <= name[j] <= body[n + 2]
                            n += 3
                        else:
                            inside |= body[n] == name[j]
                            n += 1
                    if inside == neg:
                        return False
                    i, j = k + 1, j + 1
                    continue
            if c != name[j]:
                return False
            i, j = i + 1, j + 1
        return j == len(name)

    return match(0, 0)


def id_matches(pattern, name):
    if len(pattern) > 1 and pattern[0] == pattern[-1] == "/":
        return glob(pattern[1:-1], name)
    return pattern == name


def term_matches(f, t):
    """Does one filter address match the address of a rule?"""
    if f[0] in ("ANY", "ANY4", "ANY6"):
        # only rules which say so themselves, directly or through a group
        if t[0] == "grp":
            return any(term_matches(f, m) for m in t[2])
        if t[0] == "url":
            return f[0] == "ANY"
        return t[0] == f[0].lower()
    if t[0] == "url":
        return True
    return addr.overlap(f, t)


def matches(ast, rule):
    if ast[0] == "set":
        by = {"src": [], "dst": []}
        for it in ast[1]:
            if it[0] == "id":
                if not id_matches(it[1], rule[0]):
                    return False
            elif it[0] == "ip":
                by[it[1]].extend(it[2])
            elif not matches(it[1], rule):
                return False
        for d, t in (("src", rule[1]), ("dst", rule[2])):
            if by[d] and not any(term_matches(f, t) for f in by[d]):
                return False
        return True
    a, b = matches(ast[1], rule), matches(ast[2], rule)
    return {"union": a or b, "intersect": a and b, "except": a and not b}[ast[0]]


def select(ast, rules):
    return [i for i, r in enumerate(rules) if matches(ast, r)]


def text(tokens):
    return " ".join(tokens)


# ------------------------------------------------------------------------------------------
def judge(config, rules, tokens, source=None):
    """Compare one filter on a parsed configuration whose rules correspond to `rules`.
    -> (outcome, description of the difference or None)"""
    from . import impl
    from .core import guarded

    want = read(tokens)
    src = text(tokens) if source is None else source
    status, f = guarded(impl.caf, src, seconds=20)
    if status != "ok":
        if want is not None and want[0]:
            return "wrong", f"rejected: {f}"
        return "rejected", None
    if want is None:
        return "wrong", "accepted, although it is no filter"
    status, got = guarded(lambda: f.run(config.rules), seconds=20)
    if status != "ok":
        return ("wrong", f"failed: {got}") if want[0] else ("rejected", None)
    index = {id(r): i for i, r in enumerate(config.rules.rules)}
    try:
        got = sorted(index[id(r)] for r in got)
    except (KeyError, TypeError):
        return "wrong", "selected something that is not a rule of the configuration"
    exp = select(want[1], rules)
    if got != exp:
        missing = [i for i in exp if i not in got]
        extra = [i for i in got if i not in exp]
        show = lambda l: ", ".join(str(rules[i]) for i in l[:3])
        return "wrong", f"not selected: [{show(missing)}] wrongly selected: [{show(extra)}]"
    return f"selected {'all' if len(exp) == len(rules) else 'none' if not exp else 'some'}", None
