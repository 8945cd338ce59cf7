"""Time ranges are read as written."""
import itertools

from .. import configs
from ..asa import ANY, Asa, proto, timed

DAYS = "Monday Tuesday Wednesday Thursday Friday Saturday Sunday".split()
MONTHS = "January February March April May June July August September October November December".split()
LENGTH = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)
SLICES = ("time", "rules")


def clock(h, m, wide=True):
    return f"{h:02d}:{m:02d}" if wide else f"{h}:{m:02d}"


def date(h, mi, d, mo, y, wide=True):
    return f"{clock(h, mi, wide)} {d} {MONTHS[mo - 1]} {y}", (y, mo, d, h, mi)


def absolute(start=None, end=None):
    t = "absolute" + (f" start {start[0]}" if start else "") + (f" end {end[0]}" if end else "")
    return t, ("absolute", start and start[1], end and end[1])


def periodic(days, start, end, last=None, wide=True):
    t = "periodic " + " ".join(days) + f" {clock(*start, wide)} to " + (f"{last} " if last else "") + clock(*end, wide)
    return t, ("periodic", tuple(days), start, last, end)


def items(full):
    times = [(h, m) for h in range(24) for m in ((0, 5, 30, 59) if not full else range(0, 60, 3))]
    for i, t in enumerate(times):
        for wide in (True, False):
            yield periodic(("daily",), t, times[-1 - i], None, wide)
    for m in range(60):
        yield periodic(("weekend",), (8, m), (18, 59 - m))
    for n in (1, 2, 3) if not full else (1, 2, 3, 4):
        for days in itertools.permutations(DAYS, n) if n < 3 else itertools.combinations(DAYS, n):
            yield periodic(days, (8, 0), (18, 30))
            if n < 3:
                for last in DAYS:
                    yield periodic(days, (8, 0), (18, 30), last)
    yield periodic(DAYS, (0, 0), (23, 59))
    for k in ("daily", "weekdays", "weekend"):
        yield periodic((k,), (0, 0), (23, 59))
    some = date(8, 30, 15, 6, 2021)
    for mo in range(1, 13):
        for d in range(1, LENGTH[mo - 1] + 1) if full else (1, 2, 9, 10, 19, LENGTH[mo - 1]):
            for wide in (True, False):
                x = date(7, 5, d, mo, 2023, wide)
                yield absolute(x, None)
                yield absolute(None, x)
                yield absolute(some, x)
                yield absolute(x, some)
    for y in (1993, 2000, 2024, 2035):
        x = date(23, 59, 29 if y % 4 == 0 else 28, 2, y)
        yield absolute(x, x)
    for h, m in times:
        yield absolute(date(h, m, 1, 1, 2020), date(23 - h, 59 - m, 31, 12, 2020))


FEW = [absolute(date(1, 2, 3, 4, 2021)), absolute(None, date(1, 2, 3, 4, 2021)), absolute(date(1, 2, 3, 4, 2021), date(5, 6, 7, 8, 2022)),
       periodic(("daily",), (0, 0), (1, 0)), periodic(("Monday", "Friday"), (8, 0), (9, 0)), periodic(("Sunday",), (8, 0), (9, 0), "Tuesday")]
NAMES = ["t", "T-1", "daily", "no", "work_hours.x", "1", "absolute", "a/b"]


def cases(full):
    for it in items(full):
        yield lambda m, i, it=it: m.time_range(f"t{i}", it)
    for n in range(0, 4):
        for pick in itertools.product(FEW, repeat=n):
            yield lambda m, i, pick=pick: m.time_range(f"t{i}", *pick)
    for name in NAMES:
        def case(m, i, name=name):
            v = m.time_range(name, FEW[3])
            m.rule("x", "permit", proto("ip"), ANY, ANY, options=(timed(v),))
        yield case
    for pick in itertools.product(FEW, repeat=2):
        def case(m, i, pick=pick):
            a, b = m.time_range(f"t{i}", pick[0]), m.time_range(f"t{i}-b", pick[1])
            for v in (b, a):
                m.rule("x", "permit", proto("tcp"), ANY, ANY, options=(timed(v),))
        yield case


def job(result, full, lo, hi):
    configs.check_events(result, "asa", Asa, list(itertools.islice(cases(full), lo, hi)), SLICES, "time ranges")
    if not lo:
        m = Asa()
        next(itertools.islice(cases(full), hi - 1, None))(m, 0)
        result.samples.append(m.text)


def run(ctx):
    n = sum(1 for _ in cases(not ctx.quick))
    ctx.bounds["time ranges"] = n
    ctx.map(job, [(not ctx.quick, lo, min(n, lo + 40)) for lo in range(0, n, 40)])


replay = configs.replay
