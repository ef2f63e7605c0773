"""Strategies mutating valid texts into near misses."""
import re

from hypothesis import strategies as st
from .gen import ints, pick, weighted

CHARS = list("0123456789-+:.,TtZz[] _/PYMWDHS\n\t\0") + ["٣", "𝟙", "３", "−", "é", "²", "\ud800", "\u200b"]
chars = st.sampled_from(CHARS)
GROUP = re.compile("(?<![0-9])[0-9]{2}(?![0-9])")
LIMIT = st.sampled_from(["60", "60", "61", "62", "69", "59", "24", "24", "25", "23", "00", "00", "01", "12", "13", "28", "29", "30", "31", "32", "99"])
digits = st.sampled_from("0123456789")


@st.composite
def _mutated(draw, text_st, maxn, extra):
    s = draw(text_st)
    pool = chars if extra is None else st.one_of(chars, extra)
    for _ in range(draw(weighted((2, st.just(0)), (5, st.just(1)), (2, ints(1, maxn))))):
        k = draw(ints(0, 14))
        i = draw(ints(0, len(s)))
        if k <= 3:  # one digit to another digit
            pos = [j for j, c in enumerate(s) if c.isdigit()]
            if pos:
                i = pos[draw(ints(0, len(pos) - 1))]
                s = s[:i] + draw(digits) + s[i + 1:]
        elif k == 4:
            s = s[:i] + draw(pool) + s[i + 1:]
        elif k == 5:
            s = s[:i] + draw(pool) + s[i:]
        elif k == 6:
            s = s[:i] + s[i + 1:]
        elif k == 7:
            s = s[:i]
        elif k == 8:
            j = draw(ints(0, len(s)))
            i, j = min(i, j), max(i, j)
            s = s[:i] + s[i:j] + s[i:] if draw(st.booleans()) else s[:i] + s[j:]
        elif k == 9:
            s = draw(pick(s + " ", " " + s, s + "\n", s.lower(), s.upper(), s.swapcase(), s + s, s[1:], s[::-1], s + "Z", s + "\0"))
        elif k == 10:
            pos = [j for j, c in enumerate(s) if c in "0123456789"]
            if pos:
                i = pos[draw(ints(0, len(pos) - 1))]
                s = s[:i] + draw(pick(*(chr(b + int(s[i])) for b in (0x0660, 0xFF10, 0x1D7CE, 0x0966)))) + s[i + 1:]
        elif k >= 12:  # a two-digit field to a value at or just beyond some field's limit
            pos = [m.start() for m in GROUP.finditer(s)]
            if pos:
                i = pos[draw(ints(0, len(pos) - 1))]
                s = s[:i] + draw(LIMIT) + s[i + 2:]
        else:
            if i + 1 < len(s):
                s = s[:i] + s[i + 1] + s[i] + s[i + 2:]
    return s


def mutated(text_st, maxn=3, extra=None):
    return _mutated(text_st, maxn, extra)


anytext = st.text(alphabet=st.one_of(chars, st.characters()), max_size=40)
