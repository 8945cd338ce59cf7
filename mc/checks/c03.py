"""Set operations of filters: intersect binds tighter, union and except apply left to right, braces
and comments and blanks group or decorate without changing the result."""
import itertools

from .. import cafref, impl
from ..core import guarded

LEAVES = "ABCDEF"


def universe(n):
    """One rule per combination of leaf sets: leaf i selects the rules whose id has letter i."""
    rules = []
    for bits in itertools.product((0, 1), repeat=n):
        name = "r" + "".join(LEAVES[i] if b else "_" for i, b in enumerate(bits))
        rules.append((name, ("any",), ("any",)))
    text = "".join(f"access-list {r[0]} extended permit ip any any\n" for r in rules)
    return text, rules


def leaf(i):
    return ["id", f"/r*{LEAVES[i]}*/"]


def shapes(n):
    """All bracketings of n operands: nested lists, a list of one element only for a bare leaf."""

    def seqs(lo, hi, top):
        # partition lo..hi in at least two parts (top level: also the single part)
        n = hi - lo
        if n == 1:
            yield [lo]
            return
        for cuts in range(1, 2 ** (n - 1)):
            bounds = [lo] + [lo + i + 1 for i in range(n - 1) if cuts >> i & 1] + [hi]
            parts = list(zip(bounds, bounds[1:]))
            for combo in itertools.product(*[part(a, b) for a, b in parts]):
                yield list(combo)

    def part(a, b):
        if b - a == 1:
            return [a]
        return [s for s in seqs(a, b, False)]

    return list(seqs(0, n, True))


def tokens_of(shape, ops, leaves):
    it = iter(ops)

    def go(s):
        if isinstance(s, int):
            return leaf(leaves[s])
        out = []
        for k, x in enumerate(s):
            if k:
                out.append(next(it))
            out += go(x) if isinstance(x, int) else ["("] + go(x) + [")"]
        return out

    return go(shape)


def job(result, n, group):
    text, rules = universe(n)
    config = impl.parse("asa", text)
    for tokens, source in group:
        outcome, d = cafref.judge(config, rules, tokens, source)
        src = cafref.text(tokens) if source is None else source
        result.traces += 1
        result.transitions += sum(t in cafref.OPS for t in tokens)
        result.state(("".join(t[0] for t in tokens), tuple(tokens)))
        result.outcome(outcome)
        if d is not None:
            result.violation(f"{src!r}: {d}", {"n": n, "tokens": tokens, "source": source})
            if result.full():
                return
    result.samples.append({"filter": src, "outcome": outcome})


def decorated(tokens):
    """The same filter with redundant braces, comments and line breaks."""
    yield ["("] + tokens + [")"]
    yield ["(", "("] + tokens + [")", ")"]
    # braces around one leaf
    for i, t in enumerate(tokens):
        if t == "id":
            yield tokens[:i] + ["("] + tokens[i : i + 2] + [")"] + tokens[i + 2 :]
            yield tokens[:i] + ["(", "("] + tokens[i : i + 2] + [")", ")"] + tokens[i + 2 :]
    for i in range(len(tokens) + 1):
        if i and tokens[i - 1] == "id":
            continue
        yield tokens[:i] + ["/* union id r*A* ) */"] + tokens[i:]


def run(ctx):
    top = ctx.pick(4, 6)
    total = {}
    for n in range(1, top + 1):
        group = []
        for shape in shapes(n):
            for ops in itertools.product(cafref.OPS, repeat=n - 1):
                choices = [tuple(range(n))]
                if n <= 3:
                    choices = list(itertools.product(range(n), repeat=n))
                for leaves in choices:
                    t = tokens_of(shape, ops, leaves)
                    group.append((t, None))
                    if leaves == choices[0] or n == 2:
                        if n <= ctx.pick(3, 4):
                            group += [(x, None) for x in decorated(t)]
                            group.append((t, "\n".join(t)))
                            group.append((t, cafref.text(t).replace("( ", "(").replace(" )", ")")))
        # conjunction of an id with a braced set
        if 2 <= n <= 4:
            for shape in shapes(n - 1):
                for ops in itertools.product(cafref.OPS, repeat=n - 2):
                    inner = tokens_of(shape, ops, tuple(range(1, n)))
                    group.append((leaf(0) + ["("] + inner + [")"], None))
                    for o in cafref.OPS:
                        group.append((leaf(0) + ["("] + inner + [")", o] + leaf(1), None))
                        group.append((leaf(1) + [o] + leaf(0) + ["("] + inner + [")"], None))
        total[n] = len(group)
        ctx.map(job, [(n, group[i : i + 150]) for i in range(0, len(group), 150)])
    ctx.bounds = {"operands": top, "bracketings": "all", "operator sequences": "all", "filters by operand count": total}


def replay(result, p):
    job(result, p["n"], [(p["tokens"], p["source"])])
