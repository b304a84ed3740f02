"""Japanese notation written from its published description, sharing nothing with the package."""
import math
from ref import m_to, m_from, m_drop, m_pro

FILES = "１２３４５６７８９"
RANKS = "一二三四五六七八九"
KIF_PIECE = (None, "歩", "香", "桂", "銀", "角", "飛", "金", "玉", "と", "杏", "圭", "全", "馬", "龍")
ALT = {"玉": ("玉", "王"), "龍": ("龍", "竜"), "全": ("全", "成銀"), "圭": ("圭", "成桂"), "杏": ("杏", "成香")}
DROP = {1: "歩", 2: "香", 3: "桂", 4: "銀", 5: "角", 6: "飛", 7: "金"}

EVEN = "lnsgkgsnl/1r5b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL b - 1"
# the pieces the handicap giver (White, who also starts) plays without
HANDICAP_REMOVES = {"香落ち": ["11"], "右香落ち": ["91"], "角落ち": ["22"], "飛車落ち": ["82"], "飛香落ち": ["82", "11"], "二枚落ち": ["82", "22"],
                    "三枚落ち": ["82", "22", "11"], "四枚落ち": ["82", "22", "11", "91"], "五枚落ち": ["82", "22", "11", "91", "81"],
                    "左五枚落ち": ["82", "22", "11", "91", "21"], "六枚落ち": ["82", "22", "11", "91", "21", "81"],
                    "八枚落ち": ["82", "22", "11", "91", "21", "81", "31", "71"],
                    "十枚落ち": ["82", "22", "11", "91", "21", "81", "31", "71", "41", "61"]}


def handicap(name):
    from ref import Ref
    r = Ref(EVEN)
    if name == "平手":
        return r
    for q in HANDICAP_REMOVES[name]:
        r.s.b[(int(q[0]) - 1) * 9 + int(q[1]) - 1] = 0
    r.s.turn = 1
    return r


def square(sq):
    return FILES[sq // 9] + RANKS[sq % 9]


def kif(r, m, prev=None, piece=None):
    """the KIF text of model move m in model position r"""
    to = m_to(m)
    s = "同　" if prev is not None and m_to(prev) == to else square(to)
    if m_drop(m):
        return s + DROP[m_from(m) - 80] + "打"
    p = piece or KIF_PIECE[r.s.b[m_from(m)] & 15]
    f = m_from(m)
    return s + p + ("成" if m_pro(m) else "") + "(%d%d)" % (f // 9 + 1, f % 9 + 1)


def info_comment(items, mover):
    """what KIF.Exporter.info makes of a USI info line given as (key, value...) tuples"""
    out = "対局"
    sign = 1 if mover == 0 else -1
    for it in items:
        if it[0] == "time":
            ds = it[1] // 100
            out += " 時間 %02d:%02d.%d" % (ds // 600, ds % 600 // 10, ds % 10)
        elif it[0] == "depth":
            out += " 深さ %d" % it[1]
        elif it[0] == "nodes":
            out += " ノード数 %d" % it[1]
        elif it[0] == "cp":
            out += " 評価値 %d" % (sign * it[1])
        elif it[0] == "mate":
            v = it[1]
            pos = not v.startswith("-")
            out += (" +詰" if pos == (mover == 0) else " -詰") + v.lstrip("+-")
    return out
