"""Every picture of a board (BOD, CSA position, text, SVG) shows exactly its position."""
import xml.etree.ElementTree as ET
import cshogi
from cshogi import KIF, KI2
from pbt import Test
import gen
import jp
from ref import Ref, usi, m_to, m_from, m_drop
from util import enc, obs, CSA_NAME

RULE = ("a case is a position, alone or at the end of a game that may contain passes and take-backs, drawn as BOD, CSA position, text "
        "and SVG; independent readers of the four pictures recover the pieces, hands, side to move and last move, and drawing "
        "changes nothing. Non-trivial: hands or promoted pieces are shown; distinct by position.")

BOD = {"歩": 1, "香": 2, "桂": 3, "銀": 4, "角": 5, "飛": 6, "金": 7, "玉": 8, "と": 9, "杏": 10, "圭": 11, "全": 12, "馬": 13, "龍": 14}
KAN = {"一": 1, "二": 2, "三": 3, "四": 4, "五": 5, "六": 6, "七": 7, "八": 8, "九": 9, "十": 10}


def kanji(s):
    if s == "":
        return 1
    if len(s) == 2:
        assert s[0] == "十" and s[1] != "十", s
        return 10 + KAN[s[1]]
    return KAN[s]


SLOT = {1: 0, 2: 1, 3: 2, 4: 3, 7: 4, 5: 5, 6: 6}


def read_bod(c, t):
    lines = t.split("\n")
    hands = {}
    board = [0] * 81
    turn = 0
    y = 0
    last = None
    for l in lines:
        if l.startswith(("先手の持駒：", "後手の持駒：")):
            h = [0] * 7
            v = l.split("：")[1]
            if v != "なし":
                for it in v.split("　"):
                    k = SLOT[BOD[it[0]]]
                    assert h[k] == 0
                    h[k] = kanji(it[1:])
            hands[0 if l[0] == "先" else 1] = tuple(h)
        elif l.startswith("|"):
            body, rank = l[1:].split("|")
            assert rank == "一二三四五六七八九"[y] and len(body) == 18
            for i in range(9):
                a, p = body[2 * i], body[2 * i + 1]
                if p != "・":
                    board[(8 - i) * 9 + y] = BOD[p] + (16 if a == "v" else 0)
            y += 1
        elif l == "後手番":
            turn = 1
        elif l.startswith("手数＝"):
            last = l
    assert y == 9
    return board, (hands[0], hands[1]), turn, last


def read_csa(lines):
    board = [0] * 81
    hands = [[0] * 7, [0] * 7]
    turn = None
    for l in lines:
        if l in "+-" and l:
            turn = "+-".index(l)
        elif l[:1] == "P" and l[1] in "+-":
            for i in range(2, len(l), 4):
                assert l[i:i + 2] == "00"
                hands["+-".index(l[1])][SLOT[CSA_NAME.index(l[i + 2:i + 4])]] += 1
        elif l[:1] == "P":
            y = int(l[1]) - 1
            assert len(l) == 29
            for i in range(9):
                x = l[2 + 3 * i:5 + 3 * i]
                if x != " * ":
                    board[(8 - i) * 9 + y] = CSA_NAME.index(x[1:]) + 16 * "+-".index(x[0])
        else:
            assert l == "" or l[0] == "'", l
    return board, tuple(map(tuple, hands)), turn


NAMES = ("pawn", "lance", "knight", "silver", "bishop", "rook", "gold", "king", "pro-pawn", "pro-lance", "pro-knight", "pro-silver", "horse",
         "dragon")
SVG_TEXT = ("歩", "香", "桂", "銀", "角", "飛", "金", "王", "と", "成香", "成桂", "成銀", "馬", "龍")


def read_svg(s):
    x = ET.fromstring(s)
    ns = "{http://www.w3.org/2000/svg}"
    defs = {}
    for g in x.find(ns + "defs"):
        defs[g.get("id")] = "".join(t.text for t in g)
    ids = {}
    for col, w in enumerate(("black", "white")):
        for i, n in enumerate(NAMES):
            ids["%s-%s" % (w, n)] = i + 1 + 16 * col
            assert defs["%s-%s" % (w, n)] == SVG_TEXT[i], (w, n, defs["%s-%s" % (w, n)])
    board = [0] * 81
    marks = []
    hand = [[], []]
    sizes = set()
    for e in x:
        if e.tag == ns + "use":
            f, r = (float(e.get("x")) - 20.5) / 20, (float(e.get("y")) - 10.5) / 20
            sq = int(8 - f) * 9 + int(r)
            assert board[sq] == 0
            board[sq] = ids[e.get("{http://www.w3.org/1999/xlink}href")[1:]]
        elif e.tag == ns + "rect":
            f, r = (float(e.get("x")) - 20.5) / 20, (float(e.get("y")) - 10.5) / 20
            marks.append((int(8 - f) * 9 + int(r), e.get("fill")))
        elif e.tag == ns + "text":
            assert e.get("transform") in (None, "rotate(180)")
            col = 1 if e.get("transform") else 0
            y, size = float(e.get("y")), float(e.get("font-size"))
            # the character stands on its base line: inside the picture, and beside the board
            top, bottom = (y - size, y) if col == 0 else (-y, size - y)
            assert -1 <= top and bottom <= 193, "a character of a hand drawn outside the picture (%r)" % e.text
            hand[col].append((y, e.text))
            sizes.add((col, size))
    hands = []
    for col in (0, 1):
        ys = [y for y, _ in hand[col]]
        size = max(z for k, z in sizes if k == col)
        ys.sort()
        assert all(b - a > size - 0.01 for a, b in zip(ys, ys[1:])), "characters of a hand drawn over each other"
        t = "".join(ch for _, ch in sorted(hand[col]))
        # from top to bottom: mark, side, then the pieces with their counts
        assert t[:3] == ("☗先手", "☖後手")[col], t
        h = [0] * 7
        i = 3
        while i < len(t):
            k = SLOT[BOD[t[i]]]
            j = i + 1
            while j < len(t) and t[j] in KAN:
                j += 1
            h[k] = kanji(t[i + 1:j])
            i = j
        hands.append(tuple(h))
    return board, tuple(hands), marks, (float(x.get("width")), float(x.get("height")))


def pictures(c, b, r, last, prev_ref, prev_board, how):
    s = r.sfen()
    want = (r.board(), r.hands(), r.turn)
    before = obs(b)
    w = lambda x: lambda: "%s of %s%s" % (x, s, how)
    t = b.to_bod()
    c.note(t)
    got = read_bod(c, t)
    c.eq(got[:3], want, w("BOD"))
    if last is None:
        c.eq(got[3], None, w("last move in the BOD"))
    else:
        m = last
        text = KI2.move_to_ki2(enc(prev_ref, m), prev_board)
        if text[1] == "同":
            text = text[0] + jp.square(m_to(m)) + "同" + text[2:].lstrip("　")
        g = got[3].split("　")
        c.eq((g[0], g[-1]), ("手数＝%d" % prev_ref.ply, "まで"), w("last move line of the BOD"))
        c.eq("".join(g[1:-1]), text, w("last move in the BOD"))
    c.eq(read_bod(c, KIF.board_to_bod(b))[:3], want, w("board_to_bod"))
    t = b.csa_pos()
    c.eq(read_csa(t.split("\n")), want, w("csa_pos"))
    c.eq(read_csa(str(b).split("\n")), want, w("str"))
    c.eq(repr(b), str(b), w("repr"))
    scale = c.pick((1.0, 0.5, 2, 3.25))
    lm = enc(prev_ref, last) if last is not None else None
    for name, svg, k in (("to_svg", b.to_svg(lm, scale) if lm is not None else b.to_svg(scale=scale), scale), ("_repr_svg_", b._repr_svg_(), 1)):
        board, hands, marks, size = read_svg(svg)
        c.eq((board, hands), want[:2], w(name))
        c.eq(size, (230 * k, 192 * k), w("size of " + name))
        exp = []
        if last is not None:
            exp = [m_to(last)] + ([m_from(last)] if not m_drop(last) else [])
        c.eq([q for q, _ in marks], exp, w("squares marked by " + name))
        c.eq(svg._repr_svg_(), str(svg), w("the wrapper of " + name))
    c.eq(obs(b), before, lambda: "drawing %s changes the board" % s)
    if sum(map(sum, r.hands())) or any(x & 15 > 8 for x in r.board()):
        c.nontrivial(s)


def t_position(c):
    r = gen.placement(c) if c.prob(80) else gen.placement(c, no_king_of=(c.draw(1),))
    pictures(c, cshogi.Board(r.sfen()), r, None, None, None, "")


def t_game(c):
    start, moves, refs = gen.game(c, 25)
    b = cshogi.Board(start)
    r = refs[0]
    prev = None
    last = None
    pb = None
    for i, m in enumerate(moves):
        pb = b.copy()
        b.push(enc(refs[i], m))
        if c.prob(15):
            b.pop()
            b.push_usi(usi(m))
    r = refs[len(moves)].copy()
    if moves:
        last, prev = moves[-1], refs[len(moves) - 1]
    how = " after " + " ".join(usi(m) for m in moves[-3:])
    if c.prob(25) and not r.in_check():
        b.push_pass()
        r.s.turn ^= 1
        r.s.ply = b.move_number
        last = None
        how += " and a pass"
        c.event("pass")
    elif c.prob(20) and moves:
        b.pop()
        r = refs[len(moves) - 1].copy()
        last = moves[-2] if len(moves) > 1 else None
        prev = refs[len(moves) - 2] if len(moves) > 1 else None
        pb = b.copy()
        if last is not None:
            pb.pop()
        how += " and a take-back"
    pictures(c, b, r, last, prev, pb, how)


TESTS = [Test("position", t_position, 3000), Test("game", t_game, 2000)]
