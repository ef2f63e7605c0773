"""Reference text formats, written as explicit scanners over characters (no regular expressions,
no standard library date parsing).

Scanners return ("ok", observation) when the text must be accepted with that value,
("may", observation) when accepting is optional but the value is fixed, ("no",) when it must be
refused and ("range",) when it must be refused because the value is out of range.
"""
from . import cal, tz
from .cal import NS

DIGITS = "0123456789"
NO = ("no",)


class Reject(Exception):
    pass


class Scan:
    def __init__(self, s):
        self.s, self.i = s, 0

    def num(self, n):
        t = self.s[self.i:self.i + n]
        if len(t) != n or any(c not in DIGITS for c in t):
            raise Reject
        self.i += n
        return int(t)

    def upto(self, lo, hi):
        """between lo and hi digits, as text"""
        j = self.i
        while j < len(self.s) and self.s[j] in DIGITS and j - self.i < hi:
            j += 1
        if j - self.i < lo:
            raise Reject
        t = self.s[self.i:j]
        self.i = j
        return t

    def lit(self, chars):
        if self.i >= len(self.s) or self.s[self.i] not in chars:
            raise Reject
        self.i += 1
        return self.s[self.i - 1]

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else ""

    def end(self):
        if self.i != len(self.s):
            raise Reject


def _date(sc):
    y = sc.num(4)
    sc.lit("-")
    m = sc.num(2)
    sc.lit("-")
    d = sc.num(2)
    if not (1 <= y <= 9999 and 1 <= m <= 12 and 1 <= d <= cal.dim(y, m)):
        raise Reject
    return y, m, d


def _time(sc):
    h = sc.num(2)
    sc.lit(":")
    mi = sc.num(2)
    sc.lit(":")
    s = sc.num(2)
    if h > 23 or mi > 59 or s > 59:
        raise Reject
    ns = 0
    if sc.peek() == ".":
        sc.lit(".")
        f = sc.upto(1, 9)
        ns = int(f + "0" * (9 - len(f)))
    return ((h * 60 + mi) * 60 + s) * NS + ns


def _offset(sc, zulu, seconds):
    """(offset, kind) with kind 'Z', 'z', '+', '-'"""
    if sc.peek() and sc.peek() in zulu:
        return 0, sc.lit(zulu)
    sg = sc.lit("+-")
    h = sc.num(2)
    sc.lit(":")
    m = sc.num(2)
    s = 0
    if seconds and sc.peek() == ":":
        sc.lit(":")
        s = sc.num(2)
    if h > 23 or m > 59 or s > 59:
        raise Reject
    return (h * 3600 + m * 60 + s) * (-1 if sg == "-" else 1), sg


def _parse(kind, fmt, s):
    sc = Scan(s)
    if kind == "Date":
        r = _date(sc)
        sc.end()
        return "ok", (kind, *r)
    if kind == "YearMonth":
        y = sc.num(4)
        sc.lit("-")
        m = sc.num(2)
        sc.end()
        if not (1 <= y and 1 <= m <= 12):
            raise Reject
        return "ok", (kind, y, m)
    if kind == "MonthDay":
        sc.lit("-")
        sc.lit("-")
        m = sc.num(2)
        sc.lit("-")
        d = sc.num(2)
        sc.end()
        if not (1 <= m <= 12 and 1 <= d <= cal.dim(2000, m)):
            raise Reject
        return "ok", (kind, m, d)
    if kind == "Time":
        t = _time(sc)
        sc.end()
        return "ok", (kind, t)
    d = _date(sc)
    sc.lit("T" if fmt == "iso" else "Tt _")
    t = _time(sc)
    if kind == "LocalDateTime":
        sc.end()
        return "ok", (kind, *d, t)
    iso = fmt == "iso"
    o, ok = _offset(sc, "Z" if iso else "Zz", iso)
    loc = cal.local_ns(*d, t)
    word = "may" if ok == "-" and o == 0 else "ok"
    if kind == "Instant":
        sc.end()
        if o:
            raise Reject
        if iso and len(s) - s.rfind("+") != 6 and ok == "+":
            word = "may"  # +00:00:00
        return word, (kind, loc)
    if kind == "ZonedDateTime":
        sc.lit("[")
        j = s.find("]", sc.i)
        if j != len(s) - 1 or j == sc.i:
            raise Reject
        key = s[sc.i:j]
        if key not in tz.all_keys():
            return ("unknown", key, loc, o)
        r = tz.zone(key).resolve(loc // NS)
        if r[0] == "weird":
            return ("weird",)
        n = loc - o * NS
        if r[0] == "skipped" or o not in r[1:]:
            return ("offset",)
        if not cal.in_range(n):
            return ("range",)
        return word, (kind, n, o, key)
    sc.end()
    n = loc - o * NS
    if not cal.in_range(n):
        return ("range",)
    return word, (kind, n, o)


def parse(kind, fmt, s):
    try:
        return _parse(kind, fmt, s)
    except Reject:
        return NO


# ------------------------------------------------------------------ durations

def _comps(sc, units, out, fract):
    """components in the order of `units`, each at most once; returns how many"""
    k, n = 0, 0
    while sc.peek() and sc.peek() in DIGITS:
        w = sc.upto(1, 10**9)
        f = None
        if sc.peek() == ".":
            sc.lit(".")
            f = sc.upto(1, 9)
        u = sc.lit(units)
        if f is not None and not (fract and u == "S"):
            raise Reject
        p = units.index(u)
        if p < k:
            raise Reject
        k = p + 1
        n += 1
        out[u + ("t" if fract else "")] = (int(w) if len(w) < 4000 else 10**60, f, len(w))
    return n


def parse_duration(kind, s):
    try:
        return _parse_duration(kind, s)
    except Reject:
        return NO


MAX_MONTHS, MAX_DAYS, MAX_NS = 9999 * 12, 9999 * 366, 9999 * 366 * cal.DAY_NS


def _parse_duration(kind, s):
    sc = Scan(s)
    sg = -1 if sc.peek() == "-" else 1
    if sc.peek() and sc.peek() in "+-":
        sc.lit("+-")
    sc.lit("P")
    c = {}
    n = 0
    if kind != "TimeDelta":
        n += _comps(sc, "YMWD", c, False)
    if kind != "DateDelta" and (kind == "TimeDelta" or sc.peek() == "T"):
        sc.lit("T")
        m = _comps(sc, "HMS", c, True)
        if not m:
            raise Reject
        n += m
    sc.end()
    if not n:
        raise Reject
    g = {k: v[0] for k, v in c.items()}
    months = 12 * g.get("Y", 0) + g.get("M", 0)
    days = 7 * g.get("W", 0) + g.get("D", 0)
    fr = c.get("St", (0, None, 0))[1] or ""
    ns = (3600 * g.get("Ht", 0) + 60 * g.get("Mt", 0) + g.get("St", 0)) * NS + int((fr + "0" * 9)[:9])
    if months > MAX_MONTHS or days > MAX_DAYS or ns > MAX_NS:
        return ("range",)
    # the library documents a limit on the number of digits
    word = "ok"
    for k, (_, f, w) in c.items():
        if w > (8 if not k.endswith("t") else 18):
            word = "may"
    v = {"DateDelta": (sg * months, sg * days), "TimeDelta": (sg * ns,),
         "DateTimeDelta": (sg * months, sg * days, sg * ns)}[kind]
    return word, (kind, *v)


# ------------------------------------------------------------------ canonical texts

def iso(v):
    """canonical ISO text of a buildable description (system values: give an OffsetDateTime)"""
    k = v[0]
    if k == "Date":
        return cal.fmt_date(*v[1:])
    if k == "YearMonth":
        return "%04d-%02d" % (v[1], v[2])
    if k == "MonthDay":
        return "--%02d-%02d" % (v[1], v[2])
    if k == "Time":
        return cal.fmt_time(v[1])
    if k == "LocalDateTime":
        return cal.fmt_date(*v[1:4]) + "T" + cal.fmt_time(v[4])
    if k == "Instant":
        y, m, d, t = cal.split_local(v[1])
        return cal.fmt_date(y, m, d) + "T" + cal.fmt_time(t) + "Z"
    if k == "OffsetDateTime":
        y, m, d, t = cal.split_local(v[2] + v[1] * NS)
        return cal.fmt_date(y, m, d) + "T" + cal.fmt_time(t) + cal.fmt_offset(v[1])
    if k == "ZonedDateTime":
        o = tz.zone(v[1]).offset_at(v[2] // NS)
        return iso(["OffsetDateTime", o, v[2]]) + "[" + v[1] + "]"
    if k == "DateDelta":
        return duration(v[1], v[2], 0, "P0D")
    if k == "TimeDelta":
        return duration(0, 0, v[1], "PT0S")
    if k == "DateTimeDelta":
        return duration(v[1], v[2], v[3], "P0D")
    raise AssertionError(k)


def duration(mo, d, ns, zero):
    if not (mo or d or ns):
        return zero
    sign = "-" if mo < 0 or d < 0 or ns < 0 else ""
    mo, d, ns = abs(mo), abs(d), abs(ns)
    out = sign + "P"
    for v, u in ((mo // 12, "Y"), (mo % 12, "M"), (d, "D")):
        if v:
            out += "%d%s" % (v, u)
    if ns:
        out += "T"
        s, f = divmod(ns, NS)
        if s // 3600:
            out += "%dH" % (s // 3600)
        if s // 60 % 60:
            out += "%dM" % (s // 60 % 60)
        if s % 60 or f:
            out += "%d" % (s % 60)
            if f:
                out += "." + ("%09d" % f).rstrip("0")
            out += "S"
    return out


DAYNAMES = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
MONTHS = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]


def rfc2822(n, o, zone_text):
    """the text of the local clock at UTC ns `n` in offset `o`, to the second"""
    y, m, d, t = cal.split_local(n + o * NS)
    h, mi, s, _ = cal.split_ns(t)
    wd = DAYNAMES[cal.weekday(cal.day_number(y, m, d)) - 1]
    return "%s, %02d %s %04d %02d:%02d:%02d %s" % (wd, d, MONTHS[m - 1], y, h, mi, s, zone_text)


def rfc3339(n, o, zulu):
    y, m, d, t = cal.split_local(n + o * NS)
    return cal.fmt_date(y, m, d) + " " + cal.fmt_time(t) + ("Z" if zulu else cal.fmt_offset(o))
