"""CSA records: what the exporter writes, and any record of the documented format, is read back exactly."""
import io
import os
import cshogi
from cshogi import CSA
from pbt import Test
import gen
from ref import Ref, START, usi, m_drop
from util import enc, csa, sqname, CSA_NAME

RULE = ("a case is one or several games (start positions of every kind, names, headers, comments, times, scores, every game end) "
        "written by CSA.Exporter or by an independent writer of the CSA format (P1..P9, PI with removals, P+/P- lines) and read "
        "back through all four readers; or a record spoiled by a move that is not legal or a broken line, which must raise. "
        "Non-trivial: the game has a move and a header, comment, time or non-standard start; distinct by text.")

ENDS = ("%TORYO", "%CHUDAN", "%SENNICHITE", "%TIME_UP", "%ILLEGAL_MOVE", "%+ILLEGAL_ACTION", "%-ILLEGAL_ACTION", "%JISHOGI", "%KACHI",
        "%HIKIWAKE", "%MATTA", "%TSUMI", "%FUZUMI", "%ERROR")


def winner(end, turn):
    if end in ("%TORYO", "%TIME_UP", "%ILLEGAL_MOVE"):
        return cshogi.WHITE_WIN if turn == 0 else cshogi.BLACK_WIN
    if end == "%KACHI":
        return cshogi.BLACK_WIN if turn == 0 else cshogi.WHITE_WIN
    if end == "%+ILLEGAL_ACTION":
        return cshogi.WHITE_WIN
    if end == "%-ILLEGAL_ACTION":
        return cshogi.BLACK_WIN
    return cshogi.DRAW


class G:
    pass


def words(c, lo, hi):
    """a line of text as it is: blanks at either end count, and it may be long"""
    if c.draw(149) == 0:
        lo, hi = 100, 400
    return gen.text(c, lo, hi, strip=False)


def make(c, own):
    g = G()
    g.start, g.moves, g.refs = gen.game(c, 30)
    g.names = [words(c, 0, 8), words(c, 0, 8)] if c.prob(60) else None
    g.version = c.pick(("V2.2", "V2", "V2.1", "V3.0")) if c.prob(50) else None
    g.var = {}
    if c.prob(40):
        for _ in range(c.int(1, 4)):
            g.var[c.pick(("EVENT", "SITE", "START_TIME", "END_TIME", "TIME_LIMIT", "OPENING", "X"))] = words(c, 0, 8)
    g.comment = []
    if c.prob(40):
        for _ in range(c.int(1, 3)):
            t = words(c, 1, 8)
            if t and not t.startswith(("black_rate", "white_rate", "summary")):
                g.comment.append(t)
    g.times = [c.pick((0, 1, 7, 59, 3600, 999999, 2147483647)) if c.prob(50) else None for _ in g.moves]
    g.scores = []
    g.comments = []
    g.kind = []
    for _ in g.moves:
        k = c.draw(3)
        if k <= 1:
            g.comments.append(None)
            g.scores.append(0)
        elif k == 2:
            s = c.pick((0, 1, -1, 30000, -30000, 123, -4567, 100000, -100000, 2147483647, -2147483648))
            t = words(c, 0, 6)
            g.comments.append("%d %s" % (s, t) if t else "%d" % s)
            g.scores.append(s)
        else:
            t = words(c, 1, 8)
            import re
            m = re.match(r"\s*([+-]?\d+)", t.split(" ")[0])
            if not t or m or t[:1] in "+-":
                t = "x" + t
            g.comments.append(t)
            g.scores.append(0)
    g.inline = [False] * len(g.moves)      # the comment stands in the line of the move
    g.end = c.pick(ENDS) if c.prob(80) else None
    g.end_time = c.pick((0, 3, 600)) if g.end and c.prob(50) else None
    return g


def expected(g):
    return {"version": g.version or "", "var": g.var, "names": g.names or ["", ""], "moves": [enc(r, m) for r, m in zip(g.refs, g.moves)],
            "times": [t or 0 for t in g.times] + ([g.end_time] if g.end_time is not None else []),
            "scores": g.scores, "comments": [x or "" for x in g.comments], "endgame": g.end or "",
            "win": winner(g.end, g.refs[-1].turn) if g.end else cshogi.DRAW,
            "comment": "".join((x if x.startswith("'") else "'" + x) + "\n" for x in g.comment)}


def compare(c, p, g, what):
    e = expected(g)
    got = {"version": p.version, "var": p.var_info, "names": p.names, "moves": list(p.moves), "times": list(p.times), "scores": list(p.scores),
           "comments": p.comments, "endgame": p.endgame, "win": p.win, "comment": p.comment}
    for k in e:
        c.eq(got[k], e[k], lambda: "%s: %s" % (what, k))
    r = Ref(p.sfen)
    s = g.refs[0]
    c.check(r.key() == s.key(), lambda: "%s: starts from %s instead of %s" % (what, p.sfen, g.start))
    c.eq(list(p.ratings), getattr(g, "ratings", [0.0, 0.0]), lambda: what + ": ratings")


def export(c, e, g):
    k = c.draw(2)
    if g.start == START and c.prob(50):
        init = None
    elif k == 0:
        init = g.start
    else:
        init = cshogi.Board(g.start)
    com = "\n".join(g.comment) if g.comment else None
    e.info(init, g.names, g.var or None, com, g.version)
    one = c.prob(20)    # everything about a move in one line
    for i, (r, m, t, x) in enumerate(zip(g.refs, g.moves, g.times, g.comments)):
        if one and t is None and x is not None:
            g.scores[i] = 0
            e.move(enc(r, m), t, x, ",")
        else:
            e.move(enc(r, m), t, "** " + x if x is not None else None, **({"sep": ","} if one else {}))
    if g.end:
        e.endgame(g.end, g.end_time)


def t_export(c):
    n = c.weighted([(6, 1), (2, 2), (1, 3), (1, 4)])
    games = [make(c, False) for _ in range(n)]
    path = os.path.join(c.env.tmp, "c14-%d.csa" % os.getpid())
    c.cleanup.append(lambda: os.path.exists(path) and os.remove(path))
    if os.path.exists(path):
        os.remove(path)
    how = c.draw(3)
    e = None
    for i, g in enumerate(games):
        if e is None or how in (1, 3):
            if e is not None:
                e.close()
            if how >= 2:
                e = e or CSA.Exporter()
                e.open(path, append=i > 0, encoding="utf-8")
            else:
                e = CSA.Exporter(path, append=i > 0, encoding="utf-8")
        export(c, e, g)
    e.close()
    with open(path, encoding="utf-8", newline="") as f:
        text = f.read()
    c.note(text)
    readers = [("parse_str", cshogi.Parser.parse_str(text)), ("parse_file", cshogi.Parser.parse_file(path, encoding="utf-8")),
               ("CSA.Parser.parse_file", CSA.Parser.parse_file(io.StringIO(text)))]
    if n == 1:
        p = cshogi.Parser()
        p.parse_csa_file(path)
        readers.append(("parse_csa_file", [p]))
    for name, ps in readers:
        c.eq(len(ps), n, lambda: "number of games from %s of\n%s" % (name, text))
        for p, g in zip(ps, games):
            compare(c, p, g, "%s of what Exporter wrote\n%s\n" % (name, text))
    # one parser used for one record after the other
    p = cshogi.Parser()
    for part, g in zip(text.split("\n/\n"), games):
        p.parse_csa_str(part)
        compare(c, p, g, "a reused Parser after what Exporter wrote\n%s\n" % text)
    if any(g.moves for g in games):
        c.nontrivial(text)
    c.event("%d games" % n)


def header(c, g):
    """the start position in one of the ways the format allows"""
    r = g.refs[0]
    b = r.board()
    out = []
    ini = Ref(START).board()
    k = c.draw(2)
    sign = "+-"
    only_removed = all(x == y or x == 0 for x, y in zip(b, ini)) and not any(map(sum, r.hands()))
    if only_removed and k == 0:
        rem = [sq for sq in range(81) if ini[sq] and not b[sq]]
        out.append("PI" + "".join(sqname(sq) + CSA_NAME[ini[sq] & 15] for sq in c.shuffle(rem)))
        g.tag = "PI"
    elif k <= 1:
        g.tag = "P1-P9"
        rows = []
        for y in range(9):
            rows.append("P%d" % (y + 1) + "".join(" * " if not b[x * 9 + y] else sign[b[x * 9 + y] >> 4] + CSA_NAME[b[x * 9 + y] & 15]
                                                    for x in range(8, -1, -1)))
        out += rows if c.prob(70) else c.shuffle(rows)
    else:
        g.tag = "P+P-"
        for col in (0, 1):
            ps = [sq for sq in range(81) if b[sq] and b[sq] >> 4 == col]
            ps = c.shuffle(ps) if c.prob(50) else ps
            while ps:
                n = c.int(1, 12)
                out.append("P" + sign[col] + "".join(sqname(sq) + CSA_NAME[b[sq] & 15] for sq in ps[:n]))
                ps = ps[n:]
        if c.prob(40):
            out = c.shuffle(out)
    for col in (0, 1):
        h = r.hands()[col]
        hp = []
        for slot, t in enumerate((1, 2, 3, 4, 7, 5, 6)):
            hp += ["00" + CSA_NAME[t]] * h[slot]
        hp = c.shuffle(hp) if c.prob(40) else hp
        while hp:
            n = c.int(1, 18)
            out.append("P" + sign[col] + "".join(hp[:n]))
            hp = hp[n:]
    out.append(sign[r.turn])
    return out


def write(c, g):
    """an independent writer of the documented format"""
    out = []
    if g.version:
        out.append(g.version)
    if g.names:
        out += ["N+" + g.names[0], "N-" + g.names[1]]
    out += ["$%s:%s" % kv for kv in g.var.items()]
    g.ratings = [0.0, 0.0]
    if c.prob(25):
        for i, w in enumerate(("black", "white")):
            if c.prob(80):
                v = c.pick((1500.0, 2800.5, 3999.25, 0.0))
                g.ratings[i] = v
                out.append("'%s_rate:%s:%s" % (w, gen.text(c, 1, 5, ("a", "b", "+", "x", "歩")), v))
    out += [x if x.startswith("'") else "'" + x for x in g.comment]
    if c.prob(20):
        out.append("")
    out += header(c, g)
    for i, (r, m, t, x) in enumerate(zip(g.refs, g.moves, g.times, g.comments)):
        l = "+-"[r.turn] + csa(r, m)
        extra = []
        if x is not None and x != "" and c.prob(20):
            l += ",'" + x
            g.scores[i] = 0
        elif x is not None:
            extra.append("'** " + x)
        if t is not None:
            extra.append("T%d" % t)
        if len(extra) == 2 and c.prob(50):
            extra.reverse()
        out += [l] + extra
        if c.prob(3):
            out.append("")
    if g.end:
        out.append(g.end)
        if c.prob(5):
            out[-1] += ",'" + gen.text(c, 0, 5) + c.pick(("", ",", ",x", ",T5"))
        if g.end_time is not None:
            out.append("T%d" % g.end_time)
    elif c.prob(30):
        g.end, s = c.pick((("%ILLEGAL_MOVE", "illegal move"), ("%JISHOGI", "max_moves"), ("%ERROR", "abnormal")))
        l = "'summary:%s:a lose:b win" % s
        out.append(l)
        g.comment.append(l)
    return out


def several(c, lines):
    """the same record with several statements in a line: a comma separates them, a comment goes on to the end of the line"""
    out = []
    for l in lines:
        last = out[-1].split(",")[-1] if out else ""
        if out and "'" not in out[-1] and l and l[0] in "+-T%'" and len(l) > 1 and c.prob(50) and (
                last[:1] == "T" and last[1:].isdigit() or len(last) == 7 and last[0] in "+-" and l[0] != "'"):
            out[-1] += "," + l
        else:
            out.append(l)
    return out


def t_read(c):
    g = make(c, True)
    lines = write(c, g)
    if c.prob(15):
        lines = several(c, lines)
        c.event("several statements in a line")
    nl = c.pick(("\n", "\n", "\n", "\r\n"))
    text = nl.join(lines) + (nl if c.prob(80) else "")
    c.note(text)
    p = cshogi.Parser()
    p.parse_csa_str(text)
    compare(c, p, g, "the record\n%s\n" % text)
    if c.prob(20):
        n = c.int(1, 3)
        text = (nl + "/" + nl).join([nl.join(lines)] * n)
        ps = cshogi.Parser.parse_str(text)
        c.eq(len(ps), n, lambda: "number of games in\n%s" % text)
        for p in ps:
            compare(c, p, g, "parse_str of\n%s\n" % text)
    if c.prob(20):
        path = os.path.join(c.env.tmp, "c14r-%d.csa" % os.getpid())
        c.cleanup.append(lambda: os.path.exists(path) and os.remove(path))
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(text if nl + "/" + nl not in text else nl.join(lines))
        p = cshogi.Parser()
        p.parse_csa_file(path)
        compare(c, p, g, "parse_csa_file of\n%s\n" % text)
        p = cshogi.Parser.parse_file(path, encoding="utf-8")[0]
        compare(c, p, g, "parse_file of\n%s\n" % text)
    c.event(g.tag, "CR-LF" if nl == "\r\n" else "LF")
    if g.moves:
        c.nontrivial(text)


def t_spoiled(c):
    """a move that is not legal, or a line that is none, raises ValueError; the next record is read as usual"""
    g = make(c, True)
    lines = write(c, g)
    k = c.draw(3)
    pos = [i for i, l in enumerate(lines) if len(l) >= 7 and l[0] in "+-"]
    if k <= 1 and pos:
        i = c.pick(pos)
        n = pos.index(i)
        r = g.refs[n]
        legal = {csa(r, m) for m in r.legal()}
        j = c.draw(4)
        if j == 0:
            new = csa(g.refs[n], g.moves[n])[:4] + c.pick(CSA_NAME[1:])
        elif j == 1:
            new = sqname(c.draw(80)) + sqname(c.draw(80)) + c.pick(CSA_NAME[1:])
        elif j == 2:
            new = "00" + sqname(c.draw(80)) + c.pick(CSA_NAME[1:])
        elif j == 3:
            ps = [m for m in r.pseudo() if not r.is_legal(m)]
            if not ps:
                new = "5555FU"
            else:
                new = csa(r, c.pick(ps))
        else:
            q = c.pick(g.refs)
            ps = q.legal()
            new = csa(q, c.pick(ps)) if ps else "1199OU"
        if new in legal:
            return
        lines[i] = lines[i][0] + new + lines[i][7:]
        c.event("illegal move")
    elif k == 2:
        lines.insert(c.draw(len(lines)), c.pick(("Q", "hello", "@7776FU", "*", "?", "歩", "1", "p1", "n+x", " +7776FU")))
        c.event("no line")
    else:
        hd = [i for i, l in enumerate(lines) if l[:1] == "P"]
        i = c.pick(hd)
        l = lines[i]
        if l[:2] == "PI":
            lines[i] = "PI" + c.pick(("55FU", "82KA", "00FU", "77XX", "99KYx", "9", "0", "XXFU"))
        elif l[1] in "+-":
            lines[i] = l + c.pick(("55XX", "9", "5", "55", "55F", "xxFU", "05FU", "50FU"))
        else:
            j = c.draw(8)
            lines[i] = l[:2 + 3 * j] + c.pick(("+XX", "fu ", "   ", "*  ", "-K", "+FU+")) + l[5 + 3 * j:]
            if len(l) - 2 == 27 and len(lines[i]) - 2 == 28:
                lines[i] = l[:2 + 3 * j]
        c.event("position line")
    text = "\n".join(lines)
    c.note(text)
    c.nontrivial(text)
    p = cshogi.Parser()
    try:
        p.parse_csa_str(text)
    except ValueError:
        pass
    except IndexError:
        c.event("IndexError")
    else:
        c.check(False, lambda: "this record is accepted:\n%s" % text)
    g = make(c, True)
    text = "\n".join(write(c, g))
    p.parse_csa_str(text)
    compare(c, p, g, "after a rejected record, the record\n%s\n" % text)


TESTS = [Test("export", t_export, 3000), Test("read", t_read, 4000), Test("spoiled", t_spoiled, 3000)]
