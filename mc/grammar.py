"""The grammar files as models: loading, and enumeration of sentences that reach every alternative of every rule."""
import os

from .core import REPO, explore

SAMPLES = {  # of the patterns of the terminals, the usual one first
    "ip4": ["10.0.0.1", "255.255.255.0", "0.0.0.0"],
    "ipX": ["10.0.0.1", "a.b.c.d"],
    "ip6": ["2001:db8::1", "::", "fe80::a:1"],
    "TOEOL": ["", "rest of line", " x"],
    "WS": [" ", "\t "],
    "SP": [" "],
    "identifier": ["tr", "x-1"],
    "int": ["1", "0", "65535"],
    "string": ["tr", "http://a/"],
    "obj_name": ["x", "a-1.b"],
    "acl_object_group_network_id": ["grp"], "acl_object_network_id": ["net"], "acl_object_group_service_id": ["sg"],
    "acl_object_group_port_id": ["ports"], "acl_object_service_id": ["svc"], "acl_object_group_icmp_id": ["ig"],
    "acl_object_group_protocol_id": ["pg"], "acl_names_id": ["srv"], "acl_time_range_id": ["tr"], "acl_interface_id": ["inside"],
    "acl_internal_id": ["x"],
    "delim_start": ["^C", "#"], "delim_msg": ["hello\n"], "delim_stop": ["^C", "#"],
    "pattern": ["x", "/x*/"],
}
BY_PATTERN = {
    r"[^\n]*": ["text", ""], r"[^\n]+": ["text"], r"ASA Version [^\n]*": ["ASA Version 9"], r"FWSM Version [^\n]*": ["FWSM Version 4"],
    r"^ [^\n]*": [" indented"], r"[0-9]{1,2}": ["1", "12"], r"[0-9]{4}": ["2030"], r"[1-9][0-9]?": ["10"], r"13[0-9][0-9]": ["1300"],
    r"1[0-9][0-9]": ["101"], r"2[0-6][0-9][0-9]": ["2000"], r".": ["#"], r"[^\s]+": ["Ethernet0/9"],
    r"(?:[^*]|(?:\*(?!\/)))*": [" note "], r"[A-Za-z0-9_\-\.]+": ["x"],
}


def path(name):
    return os.path.join(REPO, "lib", "acltk", name + ".bnf")


def load(name):
    """-> (grammar model, source of the parser TatSu makes of it)"""
    import tatsu

    text = open(path(name)).read()
    model = tatsu.compile(text, name, filename=path(name))
    return model, tatsu.to_python_sourcecode(text, name, filename=path(name))


class Sentences:
    def __init__(self, model):
        self.rules = {}
        for r in model.rules:  # a later rule overrides an earlier one
            self.rules[r.name] = r
        self.height = {}
        self._heights()

    # -- least height of a derivation, to make the default derivations finite and short
    def _heights(self):
        changed = True
        while changed:
            changed = False
            for n, r in self.rules.items():
                h = self._h(r.exp)
                if h is not None and h + 1 < self.height.get(n, 10**9):
                    self.height[n] = h + 1
                    changed = True

    def _h(self, e):
        k = type(e).__name__
        if k in ("RuleRef", "RuleInclude"):
            n = ref(e)
            return 0 if n in SAMPLES else self.height.get(n)
        if k == "Choice":
            l = [self._h(o) for o in e.options]
            l = [x for x in l if x is not None]
            return min(l) if l else None
        if k in ("Optional", "Closure", "Lookahead", "NegativeLookahead", "Pattern", "Token", "Constant", "Void", "Cut", "EOF"):
            return 0
        l = [self._h(c) for c in parts(e)]
        return None if None in l else max(l, default=0)

    # -- derivation
    def derive(self, name, ch, plan, inside):
        """Text of one derivation of a rule.  ch decides inside the rule under test, the plan how it is reached."""
        if name in SAMPLES:
            return ch("sample", SAMPLES[name]) if inside else SAMPLES[name][0]
        if plan and plan[0] == name and len(plan) == 1:
            inside = True
            plan = None
        return self._d(self.rules[name].exp, ch, plan and plan[1:], inside)

    def _reaches(self, e, name):
        if type(e).__name__ in ("RuleRef", "RuleInclude") and ref(e) == name:
            return True
        if type(e).__name__ in ("Lookahead", "NegativeLookahead"):
            return False
        return any(self._reaches(c, name) for c in parts(e))

    def _d(self, e, ch, plan, inside):
        """-> text; plan: rules still to be passed through"""
        k = type(e).__name__
        want = plan[0] if plan else None
        if k in ("RuleRef", "RuleInclude"):
            n = ref(e)
            if want == n:
                return self.derive(n, ch, plan, inside)
            return self.derive(n, ch, None, inside)
        if k == "Token":
            return e.token
        if k == "Pattern":
            l = BY_PATTERN.get(e.pattern)
            if l is None:
                l = [example(e.pattern)]
            return ch("pattern", l) if inside else l[0]
        if k in ("Constant", "Void", "Cut", "EOF", "Lookahead", "NegativeLookahead"):
            return ""
        if k == "Choice":
            if want:
                for o in e.options:
                    if self._reaches(o, want):
                        return self._d(o, ch, plan, inside)
            best = min(range(len(e.options)), key=lambda i: (self._h(e.options[i]) is None, self._h(e.options[i]) or 0))
            order = [best] + [i for i in range(len(e.options)) if i != best and self._h(e.options[i]) is not None]
            return self._d(e.options[ch("choice", order) if inside else best], ch, None, inside)
        if k == "Optional":
            if want and self._reaches(e, want):
                return self._d(e.exp, ch, plan, inside)
            return self._d(e.exp, ch, None, inside) if inside and ch("optional", [False, True]) else ""
        if k in ("Closure", "PositiveClosure", "PositiveGather", "Gather", "PositiveJoin", "Join"):
            if want and self._reaches(e, want):
                return self._d(e.exp, ch, plan, inside)
            least = 0 if k in ("Closure", "Gather", "Join") else 1
            n = ch("repeat", [least, least + 1, least + 2]) if inside else least
            sep = self._d(e.sep, ch, None, False) if "Gather" in k or "Join" in k else " " if self.free else ""
            return sep.join(self._d(e.exp, ch, None, inside and i == 0) for i in range(n))
        text, rest = "", plan
        for c in parts(e):
            if rest and self._reaches(c, want):
                text += self._join(text, self._d(c, ch, rest, inside))
                rest = None
            else:
                text += self._join(text, self._d(c, ch, None, inside))
        return text

    free = False  # languages with whitespace between all tokens

    def _join(self, a, b):
        return (" " if self.free and a and b else "") + b

    # -- how rules are reached from a start rule
    def plans(self, start):
        out, queue = {start: [start]}, [start]
        while queue:
            n = queue.pop(0)
            if n in SAMPLES:
                continue
            for m in self._refs(self.rules[n].exp):
                if m not in out and m in self.rules:
                    out[m] = out[n] + [m]
                    queue.append(m)
        return {n: p for n, p in out.items() if n not in SAMPLES}

    def _refs(self, e):
        k = type(e).__name__
        if k in ("RuleRef", "RuleInclude"):
            return [ref(e)]
        if k in ("Lookahead", "NegativeLookahead"):
            return []
        return [n for c in parts(e) for n in self._refs(c)]

    def all(self, start, bound):
        """Every rule, every alternative within the bound: {text}"""
        seen = {}
        for n, p in self.plans(start).items():
            for _, t in explore(lambda ch: self.derive(start, ch, p, False), bound):
                seen.setdefault(t, n)
        return seen


def ref(e):
    return getattr(e, "name", None) if type(e).__name__ == "RuleRef" else (e.rule if isinstance(e.rule, str) else e.rule.name)


def parts(e):
    k = type(e).__name__
    if k == "Sequence":
        return list(e.sequence)
    if k == "Choice":
        return list(e.options)
    if k in ("RuleRef", "RuleInclude", "Token", "Pattern", "Constant", "Void", "Cut", "EOF"):
        return []
    if hasattr(e, "exp"):
        return [e.exp]
    return []


def example(pattern):
    """A short match of a pattern nobody listed: the first over a small alphabet."""
    import itertools
    import re

    for n in range(5):
        for s in itertools.product("a1 .:/#-", repeat=n):
            s = "".join(s)
            if re.fullmatch(pattern, s):
                return s
    return "x"
