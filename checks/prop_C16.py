"""KI2 records: the text of a move tells it apart from every other move, and records are read back exactly."""
import datetime
import os
import cshogi
from cshogi import KI2
from pbt import Test, Discard
import gen
import jp
from ref import Ref, START, HAND_SLOT, usi, m_to, m_from, m_drop, m_pro
from util import enc
from prop_C15 import play, stamp, name, start_of, NAMES

RULE = ("a case is a position (from play, random placements, and positions crowded with several pieces of one kind that can reach one "
        "square) with the KI2 text of all its legal moves, or a game written by KI2.Exporter or laid out freely (moves per line, "
        "spellings, comments, ends) and read back. Non-trivial: two legal moves of one kind of piece reach one square / the game has "
        "moves; distinct by position or text.")

PIECE = (None, "歩", "香", "桂", "銀", "角", "飛", "金", "玉", "と", "成香", "成桂", "成銀", "馬", "龍")


def spec(c, r, b, m, t, prev):
    """what must be true of the text t of legal model move m"""
    s = r.sfen()
    w = lambda x: lambda: "KI2 text %s of %s in %s: %s" % (t, usi(m), s, x)
    c.check(t[0] == "▲△"[r.turn], w("the mark of the side to move"))
    u = t[1:]
    to = m_to(m)
    if prev is not None and m_to(prev) == to:
        c.check(u[0] == "同", w("the square of the last move is 同"))
        u = u[1:].lstrip("　")
    else:
        c.check(u[:2] == jp.square(to), w("the destination"))
        u = u[2:]
    if m_drop(m):
        p = jp.DROP[m_from(m) - 80]
        c.check(u[:1] == p, w("the piece"))
        rest = u[1:]
        others = [x for x in r.legal() if not m_drop(x) and m_to(x) == to and r.s.b[m_from(x)] & 15 == m_from(m) - 80]
        c.check(rest == ("打" if others else ""), w("打 exactly when a piece on the board can go there"))
        return
    kind = r.s.b[m_from(m)] & 15
    p = PIECE[kind]
    c.check(u.startswith(p), w("the piece"))
    rest = u[len(p):]
    both = any(m_to(x) == to and m_from(x) == m_from(m) and m_pro(x) != m_pro(m) and not m_drop(x) for x in r.legal())
    if m_pro(m):
        c.check(rest.endswith("成") and not rest.endswith("不成"), w("a promotion ends in 成"))
        rest = rest[:-1]
    elif both:
        c.check(rest.endswith("不成"), w("a promotion declined ends in 不成"))
        rest = rest[:-2]
    else:
        c.check("成" not in rest, w("no promotion to speak of"))
    fr = m_from(m)
    f2, t2 = (fr, to) if r.turn == 0 else (80 - fr, 80 - to)
    ff, fk = divmod(f2, 9)
    tf, tk = divmod(t2, 9)
    cand = {m_from(x) for x in r.pseudo() if not m_drop(x) and m_to(x) == to and r.s.b[m_from(x)] & 15 == kind}
    legal = {m_from(x) for x in r.legal() if not m_drop(x) and m_to(x) == to and r.s.b[m_from(x)] & 15 == kind}
    if len(cand) == 1:
        c.check(rest == "", w("nothing to tell apart"))
    if len(legal) > 1:
        c.check(rest != "", w("several pieces of the kind can go there"))
    for ch in rest:
        c.check(ch in "左直右上寄引", w("unknown word " + ch))
    if "上" in rest:
        c.check(fk > tk, w("上 is a move forward"))
    if "引" in rest:
        c.check(fk < tk, w("引 is a move back"))
    if "寄" in rest:
        c.check(fk == tk, w("寄 is a move sideways"))
    if "直" in rest:
        c.check(ff == tf and fk == tk + 1 and kind not in (13, 14), w("直 is one step straight forward"))
    others = [divmod(x if r.turn == 0 else 80 - x, 9)[0] for x in cand if x != fr]
    if "左" in rest:
        c.check(ff > tf or kind in (13, 14) and ff >= max(others), w("左 comes from the left"))
    if "右" in rest:
        c.check(ff < tf or kind in (13, 14) and ff <= min(others), w("右 comes from the right"))
    if len(cand) > 1:
        def direction(x):
            k = (x if r.turn == 0 else 80 - x) % 9
            return (k > tk) - (k < tk)
        dirs = [direction(x) for x in cand]
        if dirs.count(direction(fr)) == 1:
            c.check(rest in ("上", "寄", "引"), w("the motion alone tells the pieces apart"))

        def fits(x):
            """whether the words describe the piece on x too"""
            xf, xk = divmod(x if r.turn == 0 else 80 - x, 9)
            rest_files = [divmod(y if r.turn == 0 else 80 - y, 9)[0] for y in cand if y != x]
            for ch in rest:
                if ch in "上引寄" and "引寄上"[direction(x) + 1] != ch:
                    return False
                if ch == "直" and not (xf == tf and xk == tk + 1):
                    return False
                if ch == "左" and not (xf > tf or kind in (13, 14) and xf >= max(rest_files)):
                    return False
                if ch == "右" and not (xf < tf or kind in (13, 14) and xf <= min(rest_files)):
                    return False
            return True
        # pieces that their motion alone tells apart are called by it, so the other words never mean them
        like = [x for x in cand if x == fr or fits(x) and dirs.count(direction(x)) > 1]
        c.check(like == [fr] or set(like) == {fr}, w("the words also fit the piece on " + ", ".join(str(x) for x in like)))


def position_texts(c, r, prev=None, b=None):
    s = r.sfen()
    b = b or cshogi.Board(s)
    seen = {}
    groups = {}
    for m in r.legal():
        if not m_drop(m):
            groups.setdefault((m_to(m), r.s.b[m_from(m)] & 15), set()).add(m_from(m))
        t = KI2.move_to_ki2(enc(r, m), b)
        spec(c, r, b, m, t, prev)
        c.check(t not in seen, lambda: "%s and %s in %s are both written %s" % (usi(m), usi(seen[t]), s, t))
        seen[t] = m
    big = max([len(g) for g in groups.values()] or [0])
    for t, m in seen.items():
        if big < 2 and not c.prob(20):
            continue
        x = b.copy()
        got = KI2.Parser.parse_move_str(t, x)
        c.eq(got, [enc(r, m)], lambda: "KI2 %s read in %s" % (t, s))
    c.event("up to %d alike" % big)
    return big


def crowded(c):
    """several pieces of one kind around one square"""
    board = [0] * 81
    hands = [[0] * 7, [0] * 7]
    turn = c.draw(1)
    sq = c.draw(80)
    t = c.weighted([(5, 7), (4, 4), (2, 9), (2, 10), (2, 11), (2, 12), (2, 5), (2, 6), (3, 13), (3, 14), (1, 3), (1, 2), (1, 1)])
    n = c.int(2, 6 if t in (7, 9) else 4)
    if t in (5, 6, 13, 14):
        n = 2
    for _ in range(n):
        near = gen.around(sq, 1) if t not in (2, 3, 5, 6, 13, 14) or c.prob(40) else gen.around(sq, 4)
        q = c.pick(near)
        if not gen.dead(t, turn, q) and not (t == 1 and any(board[q // 9 * 9 + y] == 1 + 16 * turn for y in range(9))):
            board[q] = t + 16 * turn
    if c.prob(40):
        if not board[sq]:
            board[sq] = c.pick((9, 4, 7)) + 16 * (turn ^ 1)
    if c.prob(50):
        k = t - 8 if t > 8 else t
        hands[turn][HAND_SLOT[k]] = 1
    kings = [-1, -1]
    for col in (0, 1):
        for _ in range(8):
            q = c.draw(80)
            if not board[q] and q != sq and not (kings[0] >= 0 and q in gen.around(kings[0])):
                board[q] = 8 + 16 * col
                kings[col] = q
                break
    if min(kings) < 0:
        raise Discard("kings")
    if c.prob(40):
        # something that pins
        q = c.draw(80)
        if not board[q]:
            board[q] = c.pick((5, 6, 13, 14)) + 16 * (turn ^ 1)
    r = Ref.make(board, hands, turn, 1)
    if r.in_check(turn ^ 1):
        raise Discard("opponent in check")
    return r


def t_crowded(c):
    r = crowded(c)
    c.note(r.sfen())
    if position_texts(c, r) > 1:
        c.nontrivial(r.sfen())


def t_position(c):
    r = gen.position(c, max_len=120)
    c.note(r.sfen())
    big = position_texts(c, r)
    ms = r.legal()
    if ms:
        m = c.pick(ms)
        b = cshogi.Board(r.sfen())
        b.push(enc(r, m))
        big = max(big, position_texts(c, r.copy().apply(m), m, b))
    if big > 1:
        c.nontrivial(r.sfen())


ENDS = ("%TORYO", "%JISHOGI", "%KACHI", "%SENNICHITE", "%+ILLEGAL_ACTION", "%-ILLEGAL_ACTION", "%ILLEGAL_MOVE")


def winner(end, turn):
    wins = (cshogi.BLACK_WIN, cshogi.WHITE_WIN)
    if end in ("%TORYO", "%ILLEGAL_MOVE"):
        return wins[turn ^ 1]
    if end == "%KACHI":
        return wins[turn]
    if end == "%+ILLEGAL_ACTION":
        return cshogi.WHITE_WIN
    if end == "%-ILLEGAL_ACTION":
        return cshogi.BLACK_WIN
    return cshogi.DRAW


def compare(c, p, w, moves, refs, names, when, comments, end, comment="", var=None):
    c.eq(p.comment, comment, lambda: w + "comment")
    c.eq({k: v for k, v in p.var_info.items() if k == "棋戦"}, var or {}, lambda: w + "var_info")
    c.eq(p.moves, [enc(r, m) for r, m in zip(refs, moves)], lambda: w + "moves")
    c.eq(p.names, names, lambda: w + "names")
    c.eq(p.starttime, when, lambda: w + "starttime")
    c.eq(p.comments, comments, lambda: w + "comments")
    c.check(Ref(p.sfen).key() == refs[0].key(), lambda: w + "starts from %s" % p.sfen)
    if end:
        c.eq((p.endgame, p.win), (end, winner(end, refs[-1].turn)), lambda: w + "result")
    else:
        c.eq((p.endgame, p.win), ("", None), lambda: w + "result of an unfinished game")


def t_export(c):
    moves, refs = play(c, "平手", 60)
    names = [name(c), name(c)]
    when = stamp(c)
    path = os.path.join(c.env.tmp, "c16-%d.ki2" % os.getpid())
    c.cleanup.append(lambda: os.path.exists(path) and os.remove(path))
    e = KI2.Exporter(path)
    if c.prob(25):
        # an exporter that has written another game before
        r0 = Ref(START)
        for _ in range(c.int(1, 3)):
            l = r0.legal()
            m0 = c.pick([x for x in l if moves and m_to(x) == m_to(moves[0])] or l)
            e.move(enc(r0, m0))
            r0.apply(m0)
        e.close()
        e.open(path)
    e.header(names, when)
    comments = []
    for r, m in zip(refs, moves):
        t = gen.text(c, 1, 6, NAMES) if c.prob(30) else ""
        e.move(enc(r, m), t or None)
        comments.append(t or None)
    end = c.pick(ENDS) if c.prob(85) else None
    if end:
        e.end(end)
    e.close()
    with open(path, encoding="cp932") as f:
        text = f.read()
    c.note(text)
    w = "what Exporter wrote\n%s\n" % text
    compare(c, KI2.Parser.parse_file(path), w, moves, refs, names, when, comments, end)
    compare(c, KI2.Parser.parse_str(text), w, moves, refs, names, when, comments, end)
    if end:
        c.check("まで%d手で" % len(moves) in text, lambda: w + "the number of moves in the result")
    if moves:
        c.nontrivial(text)


def t_read(c):
    hand = start_of(c)
    moves, refs = play(c, hand, 40)
    out = []
    names = [None, None]
    when = None
    if c.prob(40):
        when = stamp(c)
        if c.prob(30):
            when = when.replace(second=0)
            out.append("開始日時：" + when.strftime("%Y/%m/%d %H:%M"))
        else:
            out.append("開始日時：" + when.strftime("%Y/%m/%d %H:%M:%S"))
    var = {}
    if c.prob(20):
        var["棋戦"] = name(c)
        out.append("棋戦：" + var["棋戦"])
    if hand != "平手" or c.prob(50):
        out.append("手合割：" + hand + c.pick(("", "", "　　")))
    giver = hand != "平手" and c.prob(50)
    if c.prob(60):
        names = [name(c), name(c)]
        out += [("下手：" if giver else "先手：") + names[0], ("上手：" if giver else "後手：") + names[1]]
    hc = []
    for _ in range(c.weighted([(7, 0), (2, 1), (1, 3)])):
        hc.append(gen.text(c, 0, 5, NAMES))
        out.append("*" + hc[-1])
    out.append("")
    b = cshogi.Board(refs[0].sfen())
    comments = []
    line = ""
    alt = {"玉": "王", "龍": "竜", "成銀": "全", "成桂": "圭", "成香": "杏"}
    for r, m in zip(refs, moves):
        t = KI2.move_to_ki2(enc(r, m), b)
        if c.prob(30):
            for k, v in alt.items():
                # 銀成 and 成銀 are different things: only the piece's own name is respelled
                if k in t and not (k[0] == "成" and m_drop(m)) and t.find(k) >= 2:
                    t = t.replace(k, v, 1)
                    break
        if t[1] == "同" and c.prob(50):
            t = t[:2] + "　" + t[2:].lstrip("　")
        b.push(enc(r, m))
        line += t
        if c.prob(35):
            out.append(line)
            line = ""
        else:
            line += c.pick(("    ", " ", "", "　"))
        if c.prob(12):
            if line:
                out.append(line.rstrip(" 　"))
                line = ""
            n = c.int(1, 3)
            ts = []
            for _ in range(n):
                x = gen.text(c, 0, 5, NAMES).lstrip("*")
                ts.append(x)
                out.append(c.pick(("*", "**")) + x)
            comments.append("\n".join(ts))
        else:
            comments.append(None)
    if line:
        out.append(line)
    end = None
    if c.prob(80):
        end = c.pick(ENDS)
        who = ("先手", "後手") if not giver else ("下手", "上手")
        turn = refs[-1].turn
        n = len(moves)
        out.append({"%TORYO": "まで%d手で%sの勝ち" % (n, who[turn ^ 1]), "%JISHOGI": "まで%d手で持将棋" % n, "%SENNICHITE": "まで%d手で千日手" % n,
                    "%KACHI": "まで%d手で%sの入玉勝ち" % (n, who[turn]), "%+ILLEGAL_ACTION": "まで%d手で%sの反則勝ち" % (n, who[1]),
                    "%-ILLEGAL_ACTION": "まで%d手で%sの反則勝ち" % (n, who[0]), "%ILLEGAL_MOVE": "まで%d手で%sの反則負け" % (n, who[turn])}[end])
    text = c.pick(("\n", "\r\n", "\r")).join(out) + "\n"
    c.note(text.replace("\r\n", "\n").replace("\r", "\n"))
    compare(c, KI2.Parser.parse_str(text), "the record\n%s\n" % text.replace("\r", "\n"), moves, refs, names, when, comments, end, "\n".join(hc), var)
    if moves:
        c.nontrivial(text)


TESTS = [Test("crowded", t_crowded, 4000), Test("position", t_position, 600), Test("export", t_export, 1000), Test("read", t_read, 1000)]
