"""KIF records: every move's text, and whole records, are written and read back exactly."""
import datetime
import math
import os
import re
import cshogi
from cshogi import KIF
from pbt import Test
import gen
import jp
from ref import Ref, START, usi, m_to, m_drop
from util import enc

RULE = ("a case is a game (even or any named handicap, random moves, times in whole or fractional seconds, engine comments, every game end) "
        "written by KIF.Exporter in either encoding, or by an independent KIF writer (king and promoted-piece spellings, spacing, "
        "comments, variations after the end, line ends), and read back; and the KIF text of all legal moves of a position. "
        "Non-trivial: the game has moves; distinct by text.")

NAMES = ("a", "Z", "7", " ", "-", "+", "歩", "手", "駒", "＊", "０", "名", "人", "(", ")", "/", "ー", "ア", "*", "：")
HANDICAPS = ["平手"] + list(jp.HANDICAP_REMOVES)


def name(c):
    return gen.text(c, 0, 6, NAMES)


def start_of(c):
    return "平手" if c.prob(60) else c.pick(HANDICAPS)


def play(c, hand, n=30):
    r = jp.handicap(hand)
    refs, moves = [r.copy()], []
    for _ in range(c.draw(gen.stretch(c, n))):
        # recaptures make 同
        ms = r.legal()
        same = [m for m in ms if moves and m_to(m) == m_to(moves[-1])]
        m = c.pick(same) if same and c.prob(50) else gen.pick_move(c, r, ms)
        if m is None:
            break
        moves.append(m)
        r.apply(m)
        refs.append(r.copy())
    return moves, refs


def stamp(c):
    return datetime.datetime(c.int(1970, 2099), c.int(1, 12), c.int(1, 28), c.draw(23), c.draw(59), c.draw(59))


def info_items(c):
    it = []
    for k in c.shuffle(["depth", "nodes", "time", "score", "noise"])[:c.int(1, 5)]:
        if k == "score":
            it.append(("cp", c.pick((0, 1, -1, 30000, -30000, 77, -1234))) if c.prob(60)
                      else ("mate", c.pick(("3", "-3", "+5", "-12", "+", "-", "1"))))
        elif k == "time":
            it.append(("time", 100 * c.pick((0, 1, 9, 10, 99, 599, 600, 601, 6000, 36001))))
        elif k == "noise":
            it.append(("seldepth", c.draw(30)))
        else:
            it.append((k, c.pick((0, 1, 99, 1234567))))
    return it


def info_line(items):
    return "info " + " ".join("score %s %s" % (a, b) if a in ("cp", "mate") else "%s %s" % (a, b) for a, b in items)


RESULT = {"resign": "%TORYO", "draw": "%JISHOGI", "win": "%KACHI", "sennichite": "%SENNICHITE", "illegal_win": None, "illegal_lose": None}


CLOCK = re.compile(r"\( *(\d+:\d\d)/(\d+:\d\d:\d\d)\)\s*$")


def clock(s):
    """seconds of m:ss or h:mm:ss; None if a field is out of range"""
    f = [int(x) for x in s.split(":")]
    if any(x > 59 for x in f[1:]):
        return None
    v = 0
    for x in f:
        v = v * 60 + x
    return v


def t_export(c):
    hand = start_of(c)
    moves, refs = play(c, hand)
    names = [name(c), name(c)]
    when = stamp(c)
    ext = c.pick((".kif", ".kifu"))
    path = os.path.join(c.env.tmp, "c15-%d%s" % (os.getpid(), ext))
    c.cleanup.append(lambda: os.path.exists(path) and os.remove(path))
    how = c.draw(3)
    if how < 2:
        e = KIF.Exporter(path)
    else:
        e = KIF.Exporter()
        if how == 3:
            # an exporter that has written another game before, whose last move went where this game begins
            h0 = start_of(c)
            e.open(path)
            e.header(["x", "y"], stamp(c), h0)
            r0 = jp.handicap(h0)
            to = m_to(moves[0]) if moves else -1
            for _ in range(c.int(1, 3)):
                l = r0.legal()
                m0 = c.pick([x for x in l if m_to(x) == to] or l)
                e.move(enc(r0, m0), 3, 3)
                r0.apply(m0)
            if c.prob(50):
                e.end("resign")
            e.close()
        e.open(path)
    e.header(names, when, None if hand == "平手" and c.prob(50) else hand)
    times, comments = [], []
    total = [0, 0]
    sums = []
    for r, m in zip(refs, moves):
        sec = c.pick((0, 1, 59, 60, 61, 3599, 6000, 0.5, 12.25, 59.5)) if c.prob(97) else c.pick((3600, 86399, 86400, 100000.5))
        total[r.turn] += sec
        e.move(enc(r, m), sec, total[r.turn])
        times.append(math.ceil(sec))
        sums.append(math.ceil(total[r.turn]))
        com = []
        for _ in range(c.weighted([(4, 0), (2, 1), (1, 2)])):
            it = info_items(c)
            e.info(info_line(it))
            com.append(jp.info_comment(it, r.turn))
        comments.append("\n".join(com) if com else None)
    reason = c.pick(tuple(RESULT)) if c.prob(85) else None
    if reason:
        sec = c.pick((0, 5, 61.5))
        e.end(reason, sec, sec)
        times.append(math.ceil(sec))
    e.close()
    with open(path, encoding="utf-8" if ext == ".kifu" else "cp932") as f:
        text = f.read()
    c.note(text)
    for how, p in (("parse_file", KIF.Parser.parse_file(path)), ("parse_str", KIF.Parser.parse_str(text))):
        w = "%s of what Exporter wrote\n%s\n" % (how, text)
        c.eq(p.moves, [enc(r, m) for r, m in zip(refs, moves)], lambda: w + "moves")
        c.eq(p.times, times, lambda: w + "times")
        c.eq(p.names, names, lambda: w + "names")
        c.eq(p.starttime, when, lambda: w + "starttime")
        c.check(Ref(p.sfen).key() == refs[0].key(), lambda: w + "starts from %s" % p.sfen)
        c.eq(p.comments + [None] * (len(moves) - len(p.comments)), comments, lambda: w + "comments")
        if reason and RESULT[reason]:
            c.eq(p.endgame, RESULT[reason], lambda: w + "endgame")
            turn = refs[-1].turn
            want = {"resign": cshogi.WHITE_WIN if turn == 0 else cshogi.BLACK_WIN, "win": cshogi.BLACK_WIN if turn == 0 else cshogi.WHITE_WIN}
            c.eq(p.win, want.get(reason, cshogi.DRAW), lambda: w + "winner")
        elif not reason:
            c.eq((p.endgame, p.win), (None, None), lambda: w + "result of an unfinished game")
    # the lines of the moves are what the format says
    lines = [l for l in text.split("\n") if l[:4].strip().isdigit()]
    prev = None
    for i, (r, m) in enumerate(zip(refs, moves)):
        c.check(lines[i].split()[0] == str(i + 1) and jp.kif(r, m, prev) in lines[i],
                lambda: "line of move %d %s in\n%s" % (i + 1, jp.kif(r, m, prev), text))
        t = CLOCK.search(lines[i])
        c.check(t is not None and clock(t.group(1)) == times[i] and clock(t.group(2)) == sums[i] and t.group(2).count(":") == 2,
                lambda: "line of move %d, %d s used and %d s in all, in\n%s" % (i + 1, times[i], sums[i], text))
        prev = m
    c.event(hand, reason or "unfinished")
    if moves:
        c.nontrivial(text)


ENDS = [("投了", "まで%(n)d手で%(other)sの勝ち", "%TORYO", "other"), ("入玉宣言", "まで%(n)d手で%(self)sの入玉勝ち", "%KACHI", "self"),
        ("持将棋", "まで%(n)d手で持将棋", "%JISHOGI", "draw"), ("千日手", "まで%(n)d手で千日手", "%SENNICHITE", "draw"),
        ("中断", "まで%(n)d手で中断", "%CHUDAN", None), ("反則勝ち", "まで%(n)d手で%(self)sの反則勝ち", "foul", "self"),
        ("反則負け", "まで%(n)d手で%(self)sの反則負け", "%ILLEGAL_MOVE", "other"), ("切れ負け", "まで%(n)d手で%(other)sの勝ち", "%TORYO", "other"),
        ("詰み", "まで%(n)d手で%(other)sの勝ち", "%TORYO", "other")]


def t_read(c):
    hand = start_of(c)
    moves, refs = play(c, hand)
    out = []
    names = [None, None]
    var = {}
    if c.prob(20):
        out.append("# ---- Kifu for Windows ----")
    hc = []
    when = None
    if c.prob(50):
        when = stamp(c)
        if c.prob(50):
            when = when.replace(second=0)
            out.append("開始日時：" + when.strftime("%Y/%m/%d %H:%M"))
        else:
            out.append("開始日時：" + when.strftime("%Y/%m/%d %H:%M:%S"))
    if c.prob(30):
        var["棋戦"] = name(c)
        out.append("棋戦：" + var["棋戦"])
    giver = hand != "平手" and c.prob(50)
    head = ["手合割：" + hand + c.pick(("", "　　"))] if hand != "平手" or c.prob(60) else []
    if c.prob(70):
        names = [name(c), name(c)]
        ns = [("下手：" if giver else "先手：") + names[0], ("上手：" if giver else "後手：") + names[1]]
        head = c.shuffle(head + ns)
    out += head
    for _ in range(c.weighted([(7, 0), (2, 1), (1, 3)])):
        t = gen.text(c, 0, 6, NAMES)
        hc.append(t)
        out.append("*" + t)
    if c.prob(70):
        out.append("手数----指手---------消費時間--")
    times, comments = [], []
    prev = None
    timed = c.prob(60)
    for i, (r, m) in enumerate(zip(refs, moves)):
        p = None
        if not m_drop(m):
            k = jp.KIF_PIECE[r.s.b[m >> 7 & 127] & 15]
            p = c.pick(jp.ALT.get(k, (k,)))
        t = jp.kif(r, m, prev if c.prob(85) else None, p)
        l = c.pick(("%4d ", "%d ", "%3d   ")) % (i + 1) + t
        if timed:
            sec = c.pick((0, 1, 59, 60, 61, 3599, 3600, 7325))
            if sec >= 3600 or c.prob(20):
                s = "%d:%02d:%02d" % (sec // 3600, sec // 60 % 60, sec % 60)
            else:
                s = "%d:%02d" % (sec // 60, sec % 60)
            l += c.pick(("   ", " ", "      ")) + c.pick(("(%s/00:00:00)", "( %s/00:01:40)")) % s
            times.append(sec)
        if c.prob(5):
            l += "+"
        out.append(l)
        com = []
        for _ in range(c.weighted([(6, 0), (2, 1), (1, 3)])):
            t = gen.text(c, 0, 6, NAMES)
            while t.startswith("*"):
                t = t[1:]
            com.append(t)
            out.append(c.pick(("*", "**")) + t)
        comments.append("\n".join(com) if com else None)
        if c.prob(3):
            out.append("")
        prev = m
    end = None
    if c.prob(80):
        end = c.pick(ENDS)
        who = ("先手", "後手") if not giver else ("下手", "上手")
        turn = refs[-1].turn
        if c.prob(80):
            l = "%4d %s" % (len(moves) + 1, end[0])
            if timed:
                l += "   ( 0:07/00:00:07)"
                times.append(7)
            out.append(l)
        out.append(end[1] % {"n": len(moves), "self": who[turn], "other": who[turn ^ 1]})
        if c.prob(30) and moves:
            # variations follow the end of the game and are not part of it
            out += ["", "変化：%d手" % 1, "   1 %s   ( 0:00/00:00:00)" % jp.kif(refs[0], moves[0])]
    text = c.pick(("\n", "\r\n", "\r")).join(out) + "\n"
    c.note(text)
    w = "the record\n%s\n" % text.replace("\r\n", "\n").replace("\r", "\n")
    p = KIF.Parser.parse_str(text)
    c.eq(p.moves, [enc(r, m) for r, m in zip(refs, moves)], lambda: w + "moves")
    c.eq(p.times, times, lambda: w + "times")
    c.eq(p.names, names, lambda: w + "names")
    c.eq(p.starttime, when, lambda: w + "starttime")
    c.eq({k: v for k, v in p.var_info.items() if k == "棋戦"}, var, lambda: w + "var_info")
    c.eq(p.comment, "\n".join(hc), lambda: w + "comment")
    c.check(Ref(p.sfen).key() == refs[0].key(), lambda: w + "starts from %s" % p.sfen)
    c.eq(p.comments + [None] * (len(moves) - len(p.comments)), comments, lambda: w + "comments")
    if end:
        turn = refs[-1].turn
        wins = (cshogi.BLACK_WIN, cshogi.WHITE_WIN)
        win = {"other": wins[turn ^ 1], "self": wins[turn], "draw": cshogi.DRAW, None: None}[end[3]]
        eg = end[2]
        if eg == "foul":
            eg = ("%-ILLEGAL_ACTION", "%+ILLEGAL_ACTION")[turn]
        c.eq((p.endgame, p.win), (eg, win), lambda: w + "result")
    else:
        c.eq((p.endgame, p.win), (None, None), lambda: w + "result of an unfinished game")
    c.event(hand, end[0] if end else "unfinished")
    if moves:
        c.nontrivial(text)


def t_moves(c):
    """the text of every legal move, and back"""
    r = gen.position(c)
    s = r.sfen()
    c.note(s)
    b = cshogi.Board(s)
    ms = r.legal()
    if ms:
        c.nontrivial(s)
    for i, m in enumerate(ms):
        t = KIF.move_to_kif(enc(r, m))
        c.eq(t, jp.kif(r, m), lambda: "KIF text of %s in %s" % (usi(m), s))
        got = KIF.Parser.parse_move_str("%4d %s   ( 0:01/00:00:01)" % (i + 1, t), b)
        c.eq(got, (enc(r, m), 1, None), lambda: "KIF move %s read in %s" % (t, s))
    # and after a move, where a recapture is 同
    for _ in range(min(3, len(ms))):
        m = c.pick(ms)
        q = r.copy().apply(m)
        b.push(enc(r, m))
        for n in q.legal():
            if m_to(n) == m_to(m) or c.prob(5):
                t = KIF.move_to_kif(enc(q, n), enc(r, m))
                c.eq(t, jp.kif(q, n, m), lambda: "KIF text of %s after %s in %s" % (usi(n), usi(m), s))
                c.eq(KIF.Parser.parse_move_str("%4d %s" % (2, t), b)[0], enc(q, n), lambda: "KIF move %s read after %s in %s" % (t, usi(m), s))
                c.event("同" if t[0] == "同" else "other square")
        b.pop()


TESTS = [Test("export", t_export, 3000), Test("read", t_read, 4000), Test("moves", t_moves, 3000)]
