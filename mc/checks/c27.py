"""Parses do not influence one another: every window of k parses of a de Bruijn walk in one process
compared with the same parse in a process of its own, and every schedule of two threads within the
preemption bound under a controlled scheduler."""
import itertools
import multiprocessing
import os
import sys
import threading

from .. import canon, core, gallery, impl
from ..core import first_difference, guarded, jsonable
from .c05 import de_bruijn

A, I, P = "asa", "ios", "pf"


def variants():
    """(entry point, text): texts which define the same names differently, leave them out, or break off."""
    t = {}

    def add(name, dialect, text):
        t[name] = (dialect, text)

    def asa(name, one, two, use):
        add(f"asa {name} one", A, one + use)
        add(f"asa {name} two", A, two + use)
        add(f"asa {name} undefined", A, use)

    rule = "access-list A extended permit "
    asa("time", "time-range t\n periodic daily 8:00 to 9:00\n", "time-range t\n absolute end 10:00 1 March 2030\n", rule + "ip any any time-range t\n")
    asa("name", "name 192.0.2.1 n\n", "name 192.0.2.2 n\n", rule + "ip host n any\n")
    asa("object", "object network o\n host 10.0.0.1\n", "object network o\n subnet 10.0.0.0 255.0.0.0\n", rule + "ip object o any\n")
    asa("service", "object service s\n service tcp destination eq 1\n", "object service s\n service udp source eq 2\n", rule + "object s any any\n")
    asa("network group", "object-group network g\n network-object host 10.0.0.1\n", "object-group network g\n network-object host 10.0.0.2\n",
        rule + "ip object-group g any\n")
    asa("port group", "object-group service g tcp\n port-object eq 1\n", "object-group service g udp\n port-object eq 2\n", rule + "tcp any any object-group g\n")
    asa("service group", "object-group service g\n service-object 1\n", "object-group service g\n service-object 2\n", rule + "object-group g any any\n")
    asa("protocol group", "object-group protocol g\n protocol-object 1\n", "object-group protocol g\n protocol-object 2\n", rule + "object-group g any any\n")
    asa("icmp group", "object-group icmp-type g\n icmp-object 1\n", "object-group icmp-type g\n icmp-object 2\n", rule + "icmp any any object-group g\n")
    asa("interface", "interface E0\n nameif in\n ip address 10.0.0.1 255.0.0.0\n", "interface E1\n nameif in\n ip address 10.0.0.2 255.0.0.0\n",
        rule + "ip any any\naccess-group A in interface in\n")
    asa("nat", "interface E0\n nameif in\nobject network o\n host 10.0.0.1\n", "interface E1\n nameif in\nobject network o\n host 10.0.0.2\n",
        "object network p\n host 10.9.9.9\n nat (in,any) static o\nnat (in,any) source static o o\n")
    add("asa remark", A, "access-list A remark of A\n")
    add("asa remark and rule", A, "access-list A remark one\n" + rule + "ip any any\n")
    add("asa plain rule", A, rule + "ip any any\n")
    add("asa hostname", A, "hostname a\ndomain-name b\n")
    add("asa version", A, "ASA Version 9\n")
    add("asa broken after definition", A, "object network o\n host 10.0.0.3\nname 192.0.2.3 n\nnonsense here\n")
    add("asa broken within a group", A, "object-group network g\n network-object host 10.0.0.4\n network-object host 10.0.0.\n")
    add("asa broken port", A, rule + "tcp any eq 65536 any\n")
    add("asa broken remark", A, "access-list A remark left over\naccess-list A extended\n")
    add("asa empty", A, "\n")
    add("asa all", A, gallery.config(A))

    use = "access-list 101 permit ip object-group g any\n"
    add("ios group one", I, "object-group network g\n host 10.0.0.1\n" + use)
    add("ios group two", I, "object-group network g\n host 10.0.0.2\n" + use)
    add("ios group undefined", I, use)
    add("ios service one", I, "object-group service g\n tcp destination eq 1\naccess-list 101 permit object-group g any any\n")
    add("ios service undefined", I, "access-list 101 permit object-group g any any\n")
    for n, d in (("^C", "^C"), ("#", "#"), ("x", "x")):
        add(f"ios banner {n}", I, f"banner motd {d}\naccess-list 7 permit any\n# is no end ^ X\n{d}\naccess-list 8 permit any\n".replace("#" if d == "#" else "\0", "#")
            if d != "#" else "banner motd #\naccess-list 7 permit any\nno end ^C X x\n#\naccess-list 8 permit any\n")
    add("ios banner open", I, "banner motd %\naccess-list 7 permit any\n")
    add("ios remark", I, "access-list 7 remark r\n")
    add("ios rule", I, "access-list 7 permit any\n")
    add("ios list", I, "ip access-list extended L\n remark x\n permit ip any any\n")
    add("ios interface", I, "interface E0\n ip access-group 101 in\n ip address 10.0.0.1 255.0.0.0\nip route 10.1.0.0 255.255.0.0 E0\n")
    add("ios route alone", I, "ip route 10.1.0.0 255.255.0.0 E0\n")
    add("ios route other", I, "interface E1\n ip address 10.0.0.1 255.0.0.0\nip route 10.1.0.0 255.255.0.0 10.0.0.2\n")
    add("ios broken", I, "hostname r\nobject-group network g\n host 10.0.0.9\nnonsense\n")
    add("ios vlan", I, "interface E0\n switchport mode trunk\n switchport trunk allowed vlan add 1,2\n")
    add("ios vlan more", I, "interface E0\n switchport trunk allowed vlan 7\n switchport trunk allowed vlan add 8-9\n")
    add("ios all", I, gallery.config(I))

    pf = lambda a="", f="", i="": gallery.PF_FRAME.format(h="h", d="d", a=a, i="<wan><if>em0</if></wan>" + i, f=f)
    alias = lambda v: f"<alias><name>x</name><type>host</type><address>{v}</address><descr/></alias>"
    port = lambda v: f"<alias><name>x</name><type>port</type><address>{v}</address><descr/></alias>"
    use = "<rule><type>pass</type><interface>opt1</interface><source><address>x</address></source><destination><any/></destination><descr/></rule>"
    usep = "<rule><type>pass</type><interface>wan</interface><source><any/><port>x</port></source><destination><any/></destination><descr/></rule>"
    add("pf alias one", P, pf(alias("10.0.0.1"), use, "<opt1><if>em1</if><descr>one</descr></opt1>"))
    add("pf alias two", P, pf(alias("10.0.0.2"), use, "<opt1><if>em1</if><descr>two</descr></opt1>"))
    add("pf alias undefined", P, pf("", use))
    add("pf port one", P, pf(port("1"), usep))
    add("pf port undefined", P, pf("", usep))
    add("pf interface undefined", P, pf("", use.replace("<address>x</address>", "<network>opt1</network>")))
    add("pf interface", P, pf("", use.replace("<address>x</address>", "<network>opt1</network>"), "<opt1><if>em1</if></opt1>"))
    add("pf separator", P, pf("", usep.replace("<port>x</port>", "") + "<separator><wan><sep0><row>fr0</row><text>t</text><color>c</color><if>wan</if></sep0></wan></separator>"))
    add("pf no separator", P, pf("", usep.replace("<port>x</port>", "")))
    add("pf broken", P, pf(alias("10.0.0.1")).replace("</filter>", ""))
    for n in ("asa object one", "ios group one", "pf alias one", "asa broken after definition"):
        t["auto " + n] = ("auto", t[n][1])
    for n, x in (("host", "ip src 10.0.0.1"), ("id", "id A"), ("two", "ip src 10.0.0.1 ip dst 10.0.0.2"), ("lists", "ip src 10.0.0.1 10.0.0.2 ip src any4"),
                 ("union", "ip src 10.0.0.1 union id A"), ("nested", "id A (ip src any except (ip src 10.0.0.0/8 intersect id B))"), ("broken", "ip src 10.0.0.1 union"),
                 ("broken id", "id"), ("comment", "/* ip src any */ ip dst any"), ("open comment", "/* ip src any"),
                 ("upper any", "ip src ANY"), ("lower any", "ip src any"), ("any4", "ip src any4"), ("upper any4", "ip src ANY4"), ("id lower", "id a"), ("id pattern", "id /a/"),
                 ("wide", "ip src 10.0.0.0/8"), ("wide blanks", "ip  src 10.0.0.0 255.0.0.0"), ("name upper", "ip src A.example"), ("name lower", "ip src a.example")):
        t["filter " + n] = ("caf", x)
    return t


TEXTS = variants()


def form(o):
    return {"everything": jsonable(canon.everything(o)), "shared": canon.shared(o), "kind": type(o).__name__,
            "captions": [[(c.text, c.bg) for c in (r.head or [])] for r in o.rules.rules]}


def caf_form(o):
    k = type(o).__name__
    if k == "ACLRule":
        return ("rule", o.id, jsonable(canon.node(o.src.host)), type(o.src.host).__name__, jsonable(canon.node(o.dst.host)), type(o.dst.host).__name__)
    if hasattr(o, "expr"):
        return (k, caf_form(o.expr))
    return (k, caf_form(o.a), caf_form(o.b))


def outcome(name):
    """-> (result object or None, what it looks like)"""
    dialect, text = TEXTS[name]
    status, o = guarded(impl.caf, text) if dialect == "caf" else guarded(impl.parse, dialect, text)
    if status != "ok":
        return None, "rejected"
    status, f = guarded(caf_form if dialect == "caf" else form, o)
    return o, f if status == "ok" else "unreadable: " + f


def alone(name):
    return name, outcome(name)[1]


def baselines(names):
    """Every text in a process which parsed nothing before."""
    with multiprocessing.get_context("fork").Pool(core.WORKERS, maxtasksperchild=1) as pool:
        return dict(pool.imap_unordered(alone, names, chunksize=1))


ALONE = {}


def objects(o):
    """Identities of everything a configuration is made of that could be changed later."""
    s = set()
    for r in o.rules.rules:
        s |= {id(r), id(r.src), id(r.dst), id(r.options), id(r.remark)}
    s |= set(canon.definitions(o))
    for kind in canon.GROUPS:
        s |= {id(g.objects) for g in getattr(o.groups, kind).values()}
    for i in o.interfaces.values():
        s |= {id(i.addresses), id(i.access_groups), id(i.routes)}
        if i.switchport is not None:
            s |= {id(i.switchport)} | ({id(i.switchport.trunk)} if i.switchport.trunk else set())
    return s | {id(o.rules), id(o.names), id(o.interfaces), id(o.groups), id(o.objects), id(o.nat)}


def walk(sequence):
    """-> None or (position, what differs)"""
    before = []  # the last configurations, which must stay as they are
    for i, name in enumerate(sequence):
        o, f = outcome(name)
        if f != ALONE[name]:
            d = first_difference(ALONE[name], f) if isinstance(f, dict) and isinstance(ALONE[name], dict) else f"{str(f)[:300]} instead of {str(ALONE[name])[:300]}"
            return i, f"{name}: {d}"
        for n, old, g in before:
            if caf_form(old) != g if TEXTS[n][0] == "caf" else form(old) != g:
                return i, f"parsing {name} changed the earlier result of {n}"
            if o is not None and "caf" not in (TEXTS[n][0], TEXTS[name][0]) and objects(old) & objects(o):
                return i, f"{name} and {n} share parts"
        if o is not None:
            before = before[-1:] + [(name, o, f)]
    return None


def walk_job(result, sequence):
    d = walk(sequence)
    result.traces += 1
    result.transitions += len(sequence)
    for i in range(len(sequence) - 1):
        result.state(tuple(sequence[i : i + 2]))
    result.outcome("parses in sequence", len(sequence))
    result.samples.append({"sequence": list(sequence[:5])})
    if d is not None:
        i = d[0]
        result.violation(f"after {list(sequence[max(0, i - 2):i])}: {d[1]}"[:1500], {"sequence": list(sequence[: i + 1])})


# ------------------------------------------------------------------------------------------ threads
LIB = os.path.join(core.REPO, "lib", "acltk") + os.sep
GENERATED = {LIB + n for n in ("fwsm.py", "ios.py", "caf.py")}


class Scheduler:
    """Runs tasks in threads, one at a time; gives way where the schedule says so.

    A point is a line of the library (mode line: the hand written modules only; mode call: entering
    any function of the library).  plan: [(task, points to pass before giving way)], afterwards every
    task runs to its end in order.
    """

    def __init__(self, tasks, plan, mode):
        self.tasks, self.mode = tasks, mode
        self.plan = list(plan)
        self.turn = threading.Condition()
        self.now = None
        self.left = None
        self.done = [False] * len(tasks)
        self.results = [None] * len(tasks)
        self.points = [0] * len(tasks)
        self.abort = False

    def next(self):
        """Under the lock: who runs next."""
        while self.plan:
            t, n = self.plan.pop(0)
            if not self.done[t]:
                self.now, self.left = t, n
                break
        else:
            rest = [t for t in range(len(self.tasks)) if not self.done[t]]
            self.now, self.left = (rest[0], None) if rest else (None, None)
        self.turn.notify_all()

    def point(self, me):
        self.points[me] += 1
        if self.left is None:
            return
        self.left -= 1
        if self.left >= 0:
            return
        with self.turn:
            self.next()
            while self.now != me:
                if not self.turn.wait(60):
                    self.abort = True
                    raise core.Hang("a thread was not resumed")

    def tracer(self, me):
        line = self.mode == "line"

        def local(frame, event, arg):
            if event == "line":
                self.point(me)
            return local

        def trace(frame, event, arg):
            f = frame.f_code.co_filename
            if not f.startswith(LIB):
                return None
            if line:
                if f in GENERATED:
                    return None
                return local
            self.point(me)
            return None

        return trace

    def run_one(self, me):
        with self.turn:
            while self.now != me:
                self.turn.wait(60)
        sys.settrace(self.tracer(me))
        try:
            self.results[me] = self.tasks[me]()
        except BaseException as e:  # noqa
            self.results[me] = f"{type(e).__name__}: {e}"
        finally:
            sys.settrace(None)
            with self.turn:
                self.done[me] = True
                self.next()

    def run(self):
        threads = [threading.Thread(target=self.run_one, args=(i,), daemon=True) for i in range(len(self.tasks))]
        for t in threads:
            t.start()
        with self.turn:
            self.next()
        for t in threads:
            t.join(120)
            if t.is_alive():
                return False
        return not self.abort


def quiet_outcome(name):
    """Like outcome(), without alarms and redirection, which belong to the main thread."""
    dialect, text = TEXTS[name]
    try:
        if dialect == "caf":
            from acltk import cafBlock

            o = cafBlock.fromString(text)
            return caf_form(o)
        if dialect == "asa":
            from acltk.fwsmObjects import fwsmConfig as C
        elif dialect == "ios":
            from acltk.iosObjects import iosConfig as C
        else:
            from acltk.pfsenseObjects import pfsenseConfig as C
        return form(C.fromString(text))
    except Exception:
        return "rejected"


def filter_task(config, text):
    def task():
        at = {id(o): i for i, o in enumerate(list(config.rules.rules) + [n for p in (1, 2, 3) for n in config.nat[p]])}
        return sorted(at[id(o)] for o in config.filter(impl_caf[text]))

    return task


impl_caf = {}
RUN = {"run host": "ip src 10.0.0.1", "run any": "ip src ANY union id A", "run net": "ip dst 10.2.0.0/16 except id B"}
_config = []


def prepare():
    if not _config:
        _config.append(impl.parse("asa", gallery.config("asa")))
        for t in RUN.values():
            impl_caf[t] = impl.caf(t)


def task(name):
    if name in RUN:
        return filter_task(_config[0], RUN[name])
    return lambda: quiet_outcome(name)


def expected(name):
    if name in RUN:
        at = {id(o): i for i, o in enumerate(list(_config[0].rules.rules) + [n for p in (1, 2, 3) for n in _config[0].nat[p]])}
        return sorted(at[id(o)] for o in impl._quiet(_config[0].filter, impl_caf[RUN[name]]))
    return ALONE[name]


def schedule_differs(names, plan, mode):
    prepare()
    s = Scheduler([task(n) for n in names], plan, mode)
    import contextlib, io

    with contextlib.redirect_stdout(io.StringIO()):
        fine = s.run()
    if not fine:
        return "the threads did not come to an end", s.points
    for n, got in zip(names, s.results):
        if got != expected(n):
            d = first_difference(expected(n), got) if isinstance(got, dict) and isinstance(expected(n), dict) else f"{str(got)[:300]} instead of {str(expected(n))[:300]}"
            return f"{n} with {[x for x in names if x is not n]}: {d}", s.points
    return None, s.points


def thread_job(result, names, plans, mode):
    for plan in plans:
        d, points = schedule_differs(names, plan, mode)
        result.traces += 1
        result.transitions += len(plan) + 1
        result.state((names, tuple(plan), mode))
        if d is not None:
            result.violation(f"schedule {plan}: {d}"[:1500], {"threads": list(names), "plan": [list(p) for p in plan], "mode": mode})
            return
    result.outcome(f"schedules, {mode} points", len(plans))


PAIRS = [("asa time one", "asa time two"), ("asa name one", "asa object two"), ("asa network group one", "asa port group two"), ("asa service one", "asa interface two"),
         ("asa remark and rule", "asa plain rule"), ("asa nat one", "asa nat two"), ("ios banner #", "ios banner x"), ("ios group one", "ios group two"),
         ("ios remark", "ios rule"), ("ios vlan", "ios vlan more"), ("ios route other", "ios route alone"), ("pf alias one", "pf alias two"),
         ("pf port one", "pf alias undefined"), ("pf separator", "pf no separator"), ("filter two", "filter lists"), ("filter nested", "filter union"),
         ("filter id", "filter broken"), ("asa broken after definition", "asa object undefined"), ("asa icmp group one", "asa protocol group two"),
         ("asa service group one", "ios service one"), ("run host", "run net"), ("run any", "run any"), ("run net", "filter lists"), ("run any", "asa object one"),
         ("asa hostname", "asa version")]


def run(ctx):
    names = sorted(TEXTS)
    ALONE.update(baselines(names))
    accepted = sum(v != "rejected" for v in ALONE.values())
    ctx.bounds["texts"] = {"accepted": accepted, "rejected": len(names) - accepted}
    if accepted < len(names) // 2:
        ctx.total.violation("most texts are rejected", {"sequence": names})
        return
    small = [n for n in names if not n.endswith(" all")]
    pool = small if ctx.quick else names
    seq = [pool[i] for i in de_bruijn(len(pool), 2)]
    seq.append(seq[0])
    large = [n for n in names if n.endswith(" all")]
    seq += [n for x in large for y in large for n in (x, y, "asa plain rule", "ios rule", "pf no separator")]
    if not ctx.quick:
        few = [n for n in small if not n.startswith("auto") and ("one" in n or "undefined" in n or "broken" in n or "banner" in n or "filter" in n)]
        s3 = [few[i] for i in de_bruijn(len(few), 3)]
        ctx.bounds["windows of three"] = len(s3)
    else:
        s3 = []
    ctx.bounds["windows of two"] = len(seq) - 1
    jobs = [(s[i : i + size + 2],) for s, size in ((seq, 200), (s3, 800)) for i in range(0, len(s), size)]
    ctx.map(walk_job, jobs)
    prepare()
    sizes = {}
    jobs = []
    for pair in PAIRS:
        for names2 in ((pair,) if ctx.quick or pair[0] == pair[1] else (pair, pair[::-1])):
            d, n = schedule_differs(names2, [], "line")
            _, calls = schedule_differs(names2, [], "call")
            if d is not None:
                ctx.total.violation(d, {"threads": list(names2), "plan": [], "mode": "line"})
                continue
            sizes[" / ".join(names2)] = {"lines": n[0], "calls": calls[0]}
            # one preemption, at every line of the hand written modules
            plans = [[(0, i)] + [(1, 10**9)] for i in range(0, n[0] + 1, ctx.pick(max(1, n[0] // 80), 1))]
            jobs += [(names2, plans[i::8], "line") for i in range(8)]
            # one preemption at every function entry, generated parsers included
            step = ctx.pick(max(1, calls[0] // 30), 1)
            plans = [[(0, i), (1, 10**9)] for i in range(0, calls[0] + 1, step)]
            jobs += [(names2, plans[i::8], "call") for i in range(8)]
            # two preemptions: the first thread gives way, gets the turn back in the middle of the second
            a, b = n
            sa, sb = max(1, a // ctx.pick(5, 30)), max(1, b // ctx.pick(5, 30))
            plans = [[(0, i), (1, j), (0, 10**9)] for i in range(0, a + 1, sa) for j in range(0, b + 1, sb)]
            jobs += [(names2, plans[i::8], "line") for i in range(8)]
    ctx.bounds["points"] = sizes
    ctx.bounds["preemptions"] = ctx.pick("1 at up to 80 lines of the hand written modules and 30 function entries, 2 on a 5 x 5 grid of lines", "1 at every line of the hand written modules and every function entry, 2 on a 30 x 30 grid of lines")
    ctx.map(thread_job, jobs)
    ctx.assumptions.append("switching within a line, and within the parser library, is not explored")


def replay(result, p):
    ALONE.update(baselines(sorted(set(p.get("sequence") or p["threads"]) & set(TEXTS))))
    if "sequence" in p:
        walk_job(result, p["sequence"])
    else:
        thread_job(result, tuple(p["threads"]), [[tuple(x) for x in p["plan"]]], p["mode"])
