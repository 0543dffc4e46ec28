"""chrono, for constant values: durations, dates, times of day and date-times as integers of nanoseconds (dates: days)."""
import re
from exact import *
import exact

DAY = 86400 * 10**9
MINY, MAXY = -262143, 262142


def days_from_civil(y, m, d):
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    doe = yoe * 365 + yoe // 4 - yoe // 100 + doy
    return era * 146097 + doe - 719468


def civil(z):
    z += 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + (3 if mp < 10 else -9)
    return y + (m <= 2), m, d


MIND, MAXD = days_from_civil(MINY, 1, 1), days_from_civil(MAXY, 12, 31)
DURMAX = (2**63 - 1) * 10**6


def ch(kind, n):
    return X("chr", (), (kind, n))


def get(ctx, st, a, kind=None):
    v = val(ctx, st, a)
    if isx(v, "chr") and (kind is None or v[3][0] == kind):
        return v[3]
    return None


def valid_ymd(y, m, d):
    if not (1 <= m <= 12 and d >= 1 and MINY <= y <= MAXY):
        return None
    n = days_from_civil(y, m, d)
    return n if civil(n) == (y, m, d) else None


def fields(kind, n):
    if kind == "date":
        return civil(n) + (0, 0)
    if kind == "time":
        return (0, 1, 1) + divmod(n, 10**9)
    d, t = divmod(n, DAY)
    return civil(d) + divmod(t, 10**9)


def strf(kind, n, f):
    y, m, d, s, ns = fields(kind, n)
    out = ""
    i = 0
    while i < len(f):
        if f[i] != "%":
            out += f[i]
            i += 1
            continue
        x = re.match(r"%(\.\d?f|\d?f|[A-Za-z%+])", f[i:])
        if not x:
            return None
        c = x.group(1)
        i += len(x.group(0))
        ys = "%04d" % y if 0 <= y <= 9999 else ("+%d" % y if y > 0 else "-%04d" % -y)
        simple = {"Y": ys, "m": "%02d" % m, "d": "%02d" % d, "H": "%02d" % (s // 3600), "M": "%02d" % (s // 60 % 60), "S": "%02d" % (s % 60),
                  "F": "%s-%02d-%02d" % (ys, m, d), "T": "%02d:%02d:%02d" % (s // 3600, s // 60 % 60, s % 60), "R": "%02d:%02d" % (s // 3600, s // 60 % 60),
                  "f": "%09d" % ns, "%": "%", "y": "%02d" % (y % 100), "D": "%02d/%02d/%02d" % (m, d, y % 100), "e": "%2d" % d,
                  "I": "%02d" % ((s // 3600 + 11) % 12 + 1), "p": "AM" if s < 43200 else "PM", "j": "%03d" % (days_from_civil(y, m, d) - days_from_civil(y, 1, 1) + 1)}
        if c in simple:
            out += simple[c]
        elif c == ".f":
            if ns:
                k = 3 if ns % 10**6 == 0 else 6 if ns % 1000 == 0 else 9
                out += "." + ("%09d" % ns)[:k]
        elif re.match(r"\.[369]f$", c):
            out += "." + ("%09d" % ns)[:int(c[1])]
        elif re.match(r"[369]f$", c):
            out += ("%09d" % ns)[:int(c[0])]
        else:
            return None
    return out


def strp(kind, t, f):
    """-> value or None (does not parse) or 'unknown'"""
    rx = ""
    names = []
    i = 0
    f = f.replace("%F", "%Y-%m-%d").replace("%T", "%H:%M:%S").replace("%R", "%H:%M")
    while i < len(f):
        if f[i] != "%":
            rx += re.escape(f[i]) if not f[i].isspace() else r"\s*"
            i += 1
            continue
        x = re.match(r"%(\.f|\.\df|\df|[A-Za-z%])", f[i:])
        if not x:
            return "unknown"
        c = x.group(1)
        i += len(x.group(0))
        if c == "Y":
            rx += r"\s*([+-]\d+|\d{1,4})"
        elif c in "mdHMS":
            rx += r"\s*(\d{1,2})"
        elif c == ".f":
            rx += r"(\.\d{1,9}\d*)?"
        elif re.match(r"\.[369]f", c):
            rx += r"(\.\d{%s})" % c[1]
        elif c == "f":
            rx += r"(\d{1,9})"
        else:
            return "unknown"
        names.append(c)
    m = re.fullmatch(rx, t, re.A)
    if not m:
        return None
    y, mo, d, h, mi, s, ns = (None,) * 6 + (0,)
    for c, g in zip(names, m.groups()):
        if c == "Y":
            y = int(g)
        elif c == "m":
            mo = int(g)
        elif c == "d":
            d = int(g)
        elif c == "H":
            h = int(g)
        elif c == "M":
            mi = int(g)
        elif c == "S":
            s = int(g)
        elif c.endswith("f") and g:
            ns = int(g.lstrip(".").ljust(9, "0")[:9]) if c != "f" else int(g)
    if kind in ("date", "dt"):
        if None in (y, mo, d):
            return None
        dn = valid_ymd(y, mo, d)
        if dn is None:
            return None
        if kind == "date":
            return dn
    if h is None or mi is None or s is None or h > 23 or mi > 59 or s > 60:
        return None
    # a leap second counts as the second after :59 in every duration since a whole second
    tn = (h * 3600 + mi * 60 + s) * 10**9 + ns
    return tn if kind == "time" else dn * DAY + tn


TY = {"NaiveDate": "date", "NaiveTime": "time", "NaiveDateTime": "dt", "DateTime": "dt"}


def reg(p, fn):
    for q in ("chrono::", "chrono::naive::", "chrono::naive::date::", "chrono::naive::time::", "chrono::naive::datetime::", "chrono::datetime::", "chrono::time_delta::"):
        XM0[q + p] = fn


XM0 = exact.XM

UNITS = {"weeks": 7 * DAY, "days": DAY, "hours": 3600 * 10**9, "minutes": 60 * 10**9, "seconds": 10**9, "milliseconds": 10**6, "microseconds": 1000, "nanoseconds": 1}


def mk(u, tr):
    def f(ctx, args, st):
        v = val(ctx, st, args[0])
        if v[0] != "i":
            return None
        n = v[1] * UNITS[u]
        good = abs(n) <= DURMAX
        if tr:
            return [(some(ch("dur", n)) if good else none(), st)]
        if not good:
            ctx.panic("chrono")
            return []
        return [(ch("dur", n), st)]
    return f


def num(u):
    def f(ctx, args, st):
        v = get(ctx, st, args[0], "dur")
        if v is None:
            return None
        n = abs(v[1]) // UNITS[u] * (1 if v[1] >= 0 else -1)
        r = ("i", n)
        if u in ("microseconds", "nanoseconds"):
            r = some(r) if -2**63 <= n < 2**63 else none()
        return [(r, st)]
    return f


for _u in UNITS:
    reg("TimeDelta::" + _u, mk(_u, False))
    reg("TimeDelta::try_" + _u, mk(_u, True))
    reg("TimeDelta::num_" + _u, num(_u))
reg("TimeDelta::zero", lambda ctx, args, st: [(ch("dur", 0), st)])


def _subsec(ctx, args, st):
    v = get(ctx, st, args[0], "dur")
    return [(("i", v[1] - abs(v[1]) // 10**9 * 10**9 * (1 if v[1] >= 0 else -1)), st)] if v else None


reg("TimeDelta::subsec_nanos", _subsec)


def shift(kind, sign, opt_, wrap):
    def f(ctx, args, st):
        a, d = get(ctx, st, args[0]), get(ctx, st, args[1])
        if a is None or d is None or d[0] != "dur":
            return None
        n = d[1] * sign
        if a[0] == "date":
            x = a[1] + abs(n) // DAY * (1 if n >= 0 else -1)
            good = MIND <= x <= MAXD
        elif a[0] == "time":
            x, good = (a[1] + n) % DAY, True
        elif a[0] == "dur":
            x, good = a[1] + n, abs(a[1] + n) <= DURMAX
        else:
            x = a[1] + n
            good = MIND * DAY <= x < (MAXD + 1) * DAY
        if opt_:
            return [(some(ch(a[0], x)) if good else none(), st)]
        if not good:
            ctx.panic("chrono")
            return []
        return [(ch(a[0], x), st)]
    return f


for _t, _k in TY.items():
    g = "::<Tz>" if _t == "DateTime" else ""
    reg(_t + g + "::checked_add_signed", shift(_k, 1, True, False))
    reg(_t + g + "::checked_sub_signed", shift(_k, -1, True, False))


def _arith(sign):
    h = shift(None, sign, False, False)

    def f(ctx, args, st):
        if ctx.f.get("inst"):
            return None
        a, b = get(ctx, st, args[0]), get(ctx, st, args[1])
        if a is None or b is None:
            return None
        if b[0] != "dur" and sign < 0 and a[0] == b[0]:
            return [(ch("dur", (a[1] - b[1]) * (DAY if a[0] == "date" else 1)), st)]
        return h(ctx, args, st)
    return f


XM0[("trait", "std::ops::Add", "add")] = (lambda old, new: lambda ctx, args, st: new(ctx, args, st) or (old(ctx, args, st) if old else None))(XM0.get(("trait", "std::ops::Add", "add")), _arith(1))
XM0[("trait", "std::ops::Sub", "sub")] = (lambda old, new: lambda ctx, args, st: new(ctx, args, st) or (old(ctx, args, st) if old else None))(XM0.get(("trait", "std::ops::Sub", "sub")), _arith(-1))


def _since(ctx, args, st):
    a, b = get(ctx, st, args[0]), get(ctx, st, args[1])
    if a is None or b is None or a[0] != b[0]:
        return None
    return [(ch("dur", (a[1] - b[1]) * (DAY if a[0] == "date" else 1)), st)]


def _format(ctx, args, st):
    a = get(ctx, st, args[0])
    f = val(ctx, st, args[1])
    if a is None or f[0] != "s":
        return None
    s = strf(a[0], a[1], f[1])
    return [(("s", s), st)] if s is not None else None


def _parse(kind):
    def f(ctx, args, st):
        t, f_ = val(ctx, st, args[0]), val(ctx, st, args[1])
        if t[0] != "s" or f_[0] != "s":
            return None
        if any(c in ctx.I.C.kind for c in t[1]):
            return [(err(X("perr")), st)]
        r = strp(kind, t[1], f_[1])
        if r == "unknown":
            return None
        return [(err(X("perr")) if r is None else ok(ch(kind, r)), st)]
    return f


for _t, _k in TY.items():
    g = "::<Tz>" if _t == "DateTime" else ""
    reg(_t + g + "::signed_duration_since", _since)
    reg(_t + g + "::format", _format)
    if _t != "DateTime":
        reg(_t + "::parse_from_str", _parse(_k))


def consts(name, f):
    def g(ctx, args, st):
        vs = [val(ctx, st, a) for a in args]
        if any(v[0] != "i" for v in vs):
            return None
        r = f(*[v[1] for v in vs])
        return [(none() if r is None else some(r), st)]
    reg(name, g)


consts("NaiveDate::from_ymd_opt", lambda y, m, d: (lambda n: None if n is None else ch("date", n))(valid_ymd(y, m, d)))
consts("NaiveTime::from_hms_opt", lambda h, m, s: ch("time", (h * 3600 + m * 60 + s) * 10**9) if h < 24 and m < 60 and s < 60 else None)
consts("NaiveTime::from_num_seconds_from_midnight_opt", lambda s, n: ch("time", s * 10**9 + n) if s < 86400 and n < 10**9 else None)
consts("DateTime::<chrono::Utc>::from_timestamp", lambda s, n: ch("dt", s * 10**9 + n) if MIND * DAY <= s * 10**9 + n < (MAXD + 1) * DAY and n < 10**9 else None)
consts("DateTime::<chrono::Utc>::from_timestamp_micros", lambda s: ch("dt", s * 1000) if MIND * DAY <= s * 1000 < (MAXD + 1) * DAY else None)
consts("DateTime::<chrono::Utc>::from_timestamp_millis", lambda s: ch("dt", s * 10**6) if MIND * DAY <= s * 10**6 < (MAXD + 1) * DAY else None)
consts("NaiveDate::from_num_days_from_ce_opt", lambda n: ch("date", n - 719163) if MIND <= n - 719163 <= MAXD else None)
reg("DateTime::<Tz>::naive_utc", lambda ctx, args, st: [(val(ctx, st, args[0]), st)])
reg("NaiveDateTime::and_utc", lambda ctx, args, st: [(val(ctx, st, args[0]), st)])


def _part(kind):
    def f(ctx, args, st):
        a = get(ctx, st, args[0], "dt")
        if a:
            return [(ch(kind, a[1] // DAY if kind == "date" else a[1] % DAY), st)]
    return f


reg("NaiveDateTime::date", _part("date"))
reg("NaiveDateTime::time", _part("time"))


# ---------------------------------------------------------------- the rest of what code about dates may reasonably call
consts("NaiveDate::from_epoch_days", lambda n: ch("date", n) if MIND <= n <= MAXD else None)
consts("NaiveDate::from_yo_opt", lambda y, o: (lambda a, b: ch("date", a + o - 1) if a is not None and 1 <= o <= b - a + 1 else None)(valid_ymd(y, 1, 1), valid_ymd(y, 12, 31) or 0))
for _u, _m, _lim in (("milli", 10**6, 2000), ("micro", 1000, 2 * 10**6), ("nano", 1, 2 * 10**9)):
    consts("NaiveTime::from_hms_%s_opt" % _u, (lambda k, lim: lambda h, m, s, x: ch("time", (h * 3600 + m * 60 + s) * 10**9 + x * k) if h < 24 and m < 60 and s < 60 and x * k < 10**9 else (None if x >= lim or h >= 24 or m >= 60 or s >= 60 or s != 59 else None))(_m, _lim))
consts("TimeDelta::new", lambda s, n: ch("dur", s * 10**9 + n) if 0 <= n < 10**9 and abs(s * 10**9 + n) <= DURMAX else None)


def meth(name, kind, fn):
    def g(ctx, args, st):
        a = get(ctx, st, args[0], kind)
        vs = [val(ctx, st, x) for x in args[1:]]
        if a is None or any(v[0] != "i" and not isx(v, "chr") for v in vs):
            return None
        r = fn(a[1], *[v[1] if v[0] == "i" else v[3][1] for v in vs])
        return None if r is None else [(r, st)]
    reg(name, g)
    return g


def opt(r):
    return none() if r is None else some(r)


meth("NaiveDate::to_epoch_days", "date", lambda n: ("i", n))
meth("NaiveDate::num_days_from_ce", "date", lambda n: ("i", n + 719163))
meth("NaiveDate::succ_opt", "date", lambda n: opt(ch("date", n + 1) if n < MAXD else None))
meth("NaiveDate::pred_opt", "date", lambda n: opt(ch("date", n - 1) if n > MIND else None))
meth("NaiveDate::and_time", "date", lambda n, t: ch("dt", n * DAY + t))
meth("NaiveDate::and_hms_opt", "date", lambda n, h, m, s: opt(ch("dt", n * DAY + (h * 3600 + m * 60 + s) * 10**9) if h < 24 and m < 60 and s < 60 else None))
meth("NaiveDate::leap_year", "date", lambda n: TRUE if valid_ymd(civil(n)[0], 2, 29) is not None else FALSE)
meth("NaiveTime::num_seconds_from_midnight", "time", lambda n: ("i", n // 10**9))
meth("NaiveTime::overflowing_add_signed", "time", lambda n, d: ("tup", (ch("time", (n + d) % DAY), ("i", (n + d) // DAY * 86400))))
meth("NaiveTime::overflowing_sub_signed", "time", lambda n, d: ("tup", (ch("time", (n - d) % DAY), ("i", (n - d) // DAY * -86400))))
for _t in ("DateTime::<Tz>", "NaiveDateTime"):
    meth(_t + "::timestamp", "dt", lambda n: ("i", n // 10**9))
    meth(_t + "::timestamp_millis", "dt", lambda n: ("i", n // 10**6))
    meth(_t + "::timestamp_micros", "dt", lambda n: ("i", n // 1000))
    meth(_t + "::timestamp_nanos_opt", "dt", lambda n: opt(("i", n) if -2**63 <= n < 2**63 else None))
    meth(_t + "::timestamp_subsec_nanos", "dt", lambda n: ("i", n % 10**9))
    meth(_t + "::timestamp_subsec_micros", "dt", lambda n: ("i", n % 10**9 // 1000))
    meth(_t + "::timestamp_subsec_millis", "dt", lambda n: ("i", n % 10**9 // 10**6))
reg("DateTime::<Tz>::date_naive", _part("date"))
reg("DateTime::<Tz>::time", _part("time"))
reg("DateTime::<Tz>::naive_local", lambda ctx, args, st: [(val(ctx, st, args[0]), st)])
consts("DateTime::<chrono::Utc>::from_timestamp_secs", lambda s: ch("dt", s * 10**9) if MIND * DAY <= s * 10**9 < (MAXD + 1) * DAY else None)
reg("DateTime::<chrono::Utc>::from_timestamp_nanos", lambda ctx, args, st: (lambda v: [(ch("dt", v[1]), st)] if v[0] == "i" else None)(val(ctx, st, args[0])))
meth("TimeDelta::is_zero", "dur", lambda n: TRUE if n == 0 else FALSE)
meth("TimeDelta::abs", "dur", lambda n: ch("dur", abs(n)))
meth("TimeDelta::checked_add", "dur", lambda n, m: opt(ch("dur", n + m) if abs(n + m) <= DURMAX else None))
meth("TimeDelta::checked_sub", "dur", lambda n, m: opt(ch("dur", n - m) if abs(n - m) <= DURMAX else None))
meth("TimeDelta::checked_mul", "dur", lambda n, m: opt(ch("dur", n * m) if abs(n * m) <= DURMAX else None))
for _u, _k in (("millis", 10**6), ("micros", 1000)):
    meth("TimeDelta::subsec_" + _u, "dur", (lambda k: lambda n: ("i", (abs(n) % 10**9 // k) * (1 if n >= 0 else -1)))(_k))


def tmeth(tr, name, kinds, fn):
    def g(ctx, args, st):
        a = get(ctx, st, args[0])
        return [(("i", fn(*fields(a[0], a[1]))), st)] if a is not None and a[0] in kinds else None
    XM0[("trait", tr, name)] = g


for _n, _f in (("year", lambda y, m, d, s, ns: y), ("month", lambda y, m, d, s, ns: m), ("month0", lambda y, m, d, s, ns: m - 1), ("day", lambda y, m, d, s, ns: d), ("day0", lambda y, m, d, s, ns: d - 1),
               ("ordinal", lambda y, m, d, s, ns: days_from_civil(y, m, d) - days_from_civil(y, 1, 1) + 1), ("num_days_from_ce", lambda y, m, d, s, ns: days_from_civil(y, m, d) + 719163)):
    tmeth("chrono::Datelike", _n, ("date", "dt"), _f)
for _n, _f in (("hour", lambda y, m, d, s, ns: s // 3600), ("minute", lambda y, m, d, s, ns: s // 60 % 60), ("second", lambda y, m, d, s, ns: s % 60), ("nanosecond", lambda y, m, d, s, ns: ns),
               ("num_seconds_from_midnight", lambda y, m, d, s, ns: s)):
    tmeth("chrono::Timelike", _n, ("time", "dt"), _f)


def _default(old):
    def g(ctx, args, st):
        t = ctx.ta(0)
        k = {"chrono::NaiveDate": "date", "chrono::NaiveTime": "time", "chrono::NaiveDateTime": "dt", "chrono::TimeDelta": "dur"}.get(t.p if t is not None else None)
        if k:
            return [(ch(k, 0), st)]
        return old(ctx, args, st)
    return g


XM0[("trait", "std::default::Default", "default")] = _default(XM0[("trait", "std::default::Default", "default")])


def _scale(name, fn):
    key = ("trait", "std::ops::" + name, name.lower())
    old = XM0.get(key)

    def g(ctx, args, st):
        if not ctx.f.get("inst"):
            a = get(ctx, st, args[0], "dur")
            if a is not None:
                b = val(ctx, st, args[1]) if len(args) > 1 else ("i", 0)
                if b[0] == "i":
                    n = fn(a[1], b[1]) if not (name == "Div" and b[1] == 0) else None
                    if n is None or abs(n) > DURMAX:
                        ctx.panic("chrono")
                        return []
                    return [(ch("dur", n), st)]
        return old(ctx, args, st) if old else None
    XM0[key] = g


_scale("Mul", lambda a, b: a * b)
_scale("Div", lambda a, b: abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1))
_scale("Neg", lambda a, b: -a)


for _p, _v in (("chrono::DateTime::<chrono::Utc>::UNIX_EPOCH", ch("dt", 0)), ("chrono::NaiveDateTime::UNIX_EPOCH", ch("dt", 0)),
               ("chrono::NaiveTime::MIN", ch("time", 0)), ("chrono::NaiveDate::MIN", ch("date", MIND)), ("chrono::NaiveDate::MAX", ch("date", MAXD)),
               ("chrono::TimeDelta::MIN", ch("dur", -DURMAX)), ("chrono::TimeDelta::MAX", ch("dur", DURMAX))):
    exact.XCONST[_p] = _v
