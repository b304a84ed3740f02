"""An independent reader of the PGN text, and the text of moves."""
import re
import cshogi
from ref import m_drop, m_from, m_to, m_pro

L = (None, "P", "L", "N", "S", "B", "R", "G", "K", "+P", "+L", "+N", "+S", "+B", "+R")
RES = {cshogi.BLACK_WIN: "1-0", cshogi.WHITE_WIN: "0-1", cshogi.DRAW: "1/2-1/2", None: "*"}


def sq(s):
    return "abcdefghi"[8 - s // 9] + str(9 - s % 9)


def san(r, m):
    if m_drop(m):
        return L[m_from(m) - 80] + "@" + sq(m_to(m))
    return L[r.s.b[m_from(m)] & 15] + sq(m_from(m)) + sq(m_to(m)) + ("+" if m_pro(m) else "")


def read(text):
    """[(tags, tokens)] of every game"""
    got = []
    for l in text.split("\n"):
        m = re.match(r'\[(\w+) "(.*)"\]$', l)
        if m:
            if not got or m.group(1) == "Event":
                got.append(([], []))
            got[-1][0].append(m.groups())
        elif l:
            if not got:
                raise ValueError("moves before the first tag in\n" + text)
            got[-1][1].extend(l.split())
    return got
