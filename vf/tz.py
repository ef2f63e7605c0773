"""Independent timezone model: a TZif (RFC 8536) reader and a POSIX TZ rule evaluator on integers.

Only used as an oracle and to aim the generators at transitions; it shares no code with the
library under test nor with the standard library's zoneinfo module.
"""
import functools
import importlib.util
import os
import struct
from bisect import bisect_right
from . import cal

_PATHS = ["/usr/share/zoneinfo", "/usr/lib/zoneinfo", "/usr/share/lib/zoneinfo", "/etc/zoneinfo"]


def _read(key):
    if key == "localtime":   # the machine's own, in force when there is no TZ variable
        if not os.path.exists("/etc/localtime"):
            key = "UTC"
        else:
            with open("/etc/localtime", "rb") as fh:
                return fh.read()
    for p in _PATHS:
        f = os.path.join(p, key)
        if os.path.isfile(f):
            with open(f, "rb") as fh:
                return fh.read()
    import tzdata  # fallback package, as documented by the standard library
    with open(os.path.join(os.path.dirname(tzdata.__file__), "zoneinfo", key), "rb") as fh:
        return fh.read()


def _parse_posix_offset(s, i):
    sign = 1
    if s[i] in "+-":
        sign = -1 if s[i] == "-" else 1
        i += 1
    parts = []
    while True:
        j = i
        while j < len(s) and s[j].isdigit():
            j += 1
        parts.append(int(s[i:j]))
        i = j
        if i < len(s) and s[i] == ":":
            i += 1
            continue
        break
    secs = sum(p * f for p, f in zip(parts, (3600, 60, 1)))
    return sign * secs, i


def _parse_name(s, i):
    if s[i] == "<":
        return s.index(">", i) + 1
    while i < len(s) and s[i].isalpha():
        i += 1
    return i


class _Rule:
    def __init__(self, spec):
        body, _, tm = spec.partition("/")
        self.time = _parse_posix_offset(tm, 0)[0] if tm else 7200
        if body[0] == "M":
            self.kind = "M"
            self.m, self.w, self.d = map(int, body[1:].split("."))
        elif body[0] == "J":
            self.kind = "J"
            self.n = int(body[1:])
        else:
            self.kind = "N"
            self.n = int(body)

    def local(self, y):
        """local seconds since epoch of the switch in year y"""
        if self.kind == "M":
            first = cal.day_number(y, self.m, 1)
            wd = cal.weekday(first) % 7  # Sunday=0
            day = first + (self.d - wd) % 7 + (self.w - 1) * 7
            if day - first >= cal.dim(y, self.m):
                day -= 7
        elif self.kind == "J":
            day = cal.day_number(y, 1, 1) + self.n - 1 + (cal.is_leap(y) and self.n >= 60)
        else:
            day = cal.day_number(y, 1, 1) + self.n
        return day * cal.DAY_S + self.time


class Zone:
    def __init__(self, key):
        self.key = key
        self._cache = {}
        if key.startswith("posix:"):   # a rule string, as the TZ variable may hold
            self.utc, self.off, self.first = [], [], 0
            self._footer(key[6:])
            self.first = self.after
            return
        data = _read(key)
        assert data[:4] == b"TZif"
        ver = data[4:5]
        cnt = struct.unpack(">6l", data[20:44])
        pos = 44
        size = 4

        def skip(cnt, size):
            isut, isstd, leap, tc, ty, ch = cnt
            return tc * size + tc + ty * 6 + ch + leap * (size + 4) + isstd + isut

        if ver >= b"2":
            pos += skip(cnt, 4)
            assert data[pos:pos + 4] == b"TZif"
            cnt = struct.unpack(">6l", data[pos + 20:pos + 44])
            pos += 44
            size = 8
        isut, isstd, leap, tc, ty, ch = cnt
        times = list(struct.unpack(">%d%s" % (tc, "q" if size == 8 else "l"), data[pos:pos + tc * size]))
        idx = list(data[pos + tc * size:pos + tc * size + tc])
        p2 = pos + tc * size + tc
        types = [struct.unpack(">lBB", data[p2 + 6 * i:p2 + 6 * i + 6]) for i in range(ty)]
        footer = ""
        if size == 8:
            end = pos + skip(cnt, 8)
            footer = data[end:].strip(b"\n").decode()
        self.first = next((t[0] for t in types if not t[1]), types[0][0])
        self.utc = times
        self.off = [types[i][0] for i in idx]
        self._footer(footer)

    def _footer(self, footer):
        self.rule = None
        self.after = self.off[-1] if self.off else self.first
        if footer:
            i = _parse_name(footer, 0)
            std, i = _parse_posix_offset(footer, i)
            self.after = -std
            if i < len(footer):
                i = _parse_name(footer, i)
                if i < len(footer) and footer[i] != ",":
                    dst, i = _parse_posix_offset(footer, i)
                    dst = -dst
                else:
                    dst = -std + 3600
                _, a, b = footer[i:].split(",")
                self.rule = (-std, dst, _Rule(a), _Rule(b))

    def _year(self, y):
        r = self._cache.get(y)
        if r is None:
            std, dst, a, b = self.rule
            r = sorted([(a.local(y) - std, dst), (b.local(y) - dst, std)])
            self._cache[y] = r
        return r

    def offset_at(self, t):
        """UTC offset (s) in effect at UTC second t"""
        if not self.utc or t < self.utc[0]:
            if not self.utc and self.rule:
                return self._rule_offset(t)
            return self.first if self.utc else self.after
        if t < self.utc[-1] or not self.rule:
            if t >= self.utc[-1]:
                return self.after
            return self.off[bisect_right(self.utc, t) - 1]
        return self._rule_offset(t)

    def _rule_offset(self, t):
        std = self.rule[0]
        y = cal.from_day_number((t + std) // cal.DAY_S)[0]
        best = None
        for yy in (y - 1, y, y + 1):
            for u, o in self._year(yy):
                if u <= t:
                    best = o
        return best

    def transitions(self, lo, hi):
        """[(utc, before, after)] of real offset changes with lo <= utc <= hi"""
        out = []
        i = bisect_right(self.utc, lo - 1)
        while i < len(self.utc) and self.utc[i] <= hi:
            b = self.off[i - 1] if i else self.first
            if b != self.off[i]:
                out.append((self.utc[i], b, self.off[i]))
            i += 1
        if self.rule and (not self.utc or hi > self.utc[-1]):
            start = max(lo, self.utc[-1] + 1 if self.utc else lo)
            y0 = cal.from_day_number(start // cal.DAY_S)[0] - 1
            y1 = cal.from_day_number(hi // cal.DAY_S)[0] + 1
            for y in range(y0, y1 + 1):
                for u, o in self._year(y):
                    if start <= u <= hi:
                        b = self.offset_at(u - 1)
                        if b != o:
                            out.append((u, b, o))
        return out

    def resolve(self, loc):
        """local second -> ('unique', off) | ('repeated', off_first, off_second)
        | ('skipped', off_before, off_after) | ('weird',)"""
        W = 2 * cal.DAY_S
        tr = self.transitions(loc - W, loc + W)
        if not tr:
            return ("unique", self.offset_at(loc))
        offs = {o for _, a, b in tr for o in (a, b)}
        valid = sorted((loc - o, o) for o in offs if self.offset_at(loc - o) == o)
        if len(valid) == 1:
            if any(a <= loc - u < b or b <= loc - u < a for u, a, b in tr):
                return ("weird",)
            return ("unique", valid[0][1])
        if len(valid) == 2:
            return ("repeated", valid[0][1], valid[1][1])
        if not valid:
            g = [(a, b) for u, a, b in tr if u + a <= loc < u + b]
            if len(g) == 1:
                a, b = g[0]
                # after shifting, the results must really exist with those offsets
                if self.offset_at(loc - a) == b and self.offset_at(loc - b) == a:
                    return ("skipped", a, b)
        return ("weird",)


@functools.lru_cache(None)
def zone(key):
    return Zone(key)


@functools.lru_cache(None)
def all_keys():
    """every canonical/alias key of the tz database list shipped with the system"""
    keys = set()
    base = next((p for p in _PATHS if os.path.isdir(p)), None)
    for root, dirs, files in os.walk(base):
        dirs.sort()
        rel = os.path.relpath(root, base)
        if rel.split(os.sep)[0] in ("right", "posix"):
            continue
        for f in files:
            k = f if rel == "." else rel + "/" + f
            if k in ("localtime", "posixrules", "Factory", "leapseconds", "tzdata.zi", "leap-seconds.list"):
                continue
            with open(os.path.join(root, f), "rb") as fh:
                if fh.read(4) == b"TZif":
                    keys.add(k)
    return sorted(keys)


@functools.lru_cache(None)
def package_keys():
    """keys which only the database packaged for Python has; no good as a system timezone"""
    spec = importlib.util.find_spec("tzdata")
    if spec is None:
        return []
    keys = set()
    for p in spec.submodule_search_locations:
        base = os.path.join(p, "zoneinfo")
        for root, dirs, files in os.walk(base):
            for f in files:
                k = os.path.relpath(os.path.join(root, f), base)
                if k != "Factory" and "__pycache__" not in k:
                    with open(os.path.join(root, f), "rb") as fh:
                        if fh.read(4) == b"TZif":
                            keys.add(k)
    return sorted(keys - set(all_keys()))


def odd_names():
    """identifiers with an unusual length or unusual characters, mostly"""
    ks = all_keys() + package_keys()
    return sorted(k for k in ks if len(k) > 24 or len(k) < 5 or any(c in "+-0123456789" for c in k) or k.count("/") > 1 or k in package_keys())


# zones chosen for unusual transitions
NOTABLE = [
    "Europe/Amsterdam", "America/New_York", "UTC", "Europe/London", "Australia/Lord_Howe",
    "America/Sao_Paulo", "Pacific/Apia", "America/St_Johns", "Asia/Kolkata", "Asia/Tokyo",
    "Africa/Casablanca", "Europe/Dublin", "Antarctica/Troll", "America/Caracas", "Asia/Pyongyang",
    "Asia/Kathmandu", "Pacific/Kwajalein", "Pacific/Kiritimati", "Africa/Monrovia", "Europe/Zurich",
    "America/Havana", "Asia/Tehran", "Asia/Gaza", "Africa/Cairo", "America/Asuncion", "Asia/Beirut",
    "America/Scoresbysund", "Pacific/Chatham", "Antarctica/Casey", "Asia/Manila", "Europe/Lisbon",
    "Pacific/Auckland", "Etc/GMT+12", "Etc/GMT-14", "America/Nuuk",
]


@functools.lru_cache(None)
def notable():
    ok = set(all_keys())
    return [k for k in NOTABLE if k in ok]


@functools.lru_cache(None)
def aim_points(key):
    """transitions to aim at: every explicit one plus a few far-future rule years"""
    z = zone(key)
    out = []
    # avoid the very first LMT transitions being too dominant is unnecessary: keep them all
    out += z.transitions(cal.day_number(1800, 1, 1) * cal.DAY_S, cal.day_number(2038, 1, 1) * cal.DAY_S)
    if z.rule:
        for y in (2050, 2100, 2400, 5000, 9998, 9999):
            out += z.transitions(cal.day_number(y, 1, 1) * cal.DAY_S, cal.day_number(y, 12, 31) * cal.DAY_S)
    return out


KEYSET = frozenset(all_keys() + package_keys())


@functools.lru_cache(None)
def _by_content():
    out = {}
    for k in all_keys():
        out.setdefault(_read(k), []).append(k)
    return {k: g for g in out.values() for k in g}


def twins():
    """groups of timezones with the same data"""
    return sorted({tuple(g) for g in _by_content().values() if len(g) > 1})
