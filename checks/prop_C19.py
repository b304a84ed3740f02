"""Whatever the readers are given, calls return or raise: no crash, no endless loop, no memory error."""
import contextlib
import io
import os
import numpy as np
import cshogi
from cshogi import CSA, KIF, KI2, osl
from pbt import Test
import gen
import jp
from ref import Ref, START, usi
from util import enc, csa as csa_text, obs

RULE = ("a case is one damaged input (SFEN, position line, moves, CSA/KIF/KI2 record, packed bytes, move integers: valid ones with characters, words, lines or "
        "bits changed, dropped, doubled, swapped or spliced, and plain noise) given to every reader of its kind in a build in which memory and undefined-behaviour "
        "errors are fatal, after which the objects must still work; or a random position asked everything a board can be asked. "
        "Non-trivial: the input differs from every valid one it was made from; distinct by input.")
ASSUMPTIONS = ["programming errors (squares, plies or arrays of the wrong size passed by the caller) are not data and not generated",
               "accepted positions are queried in depth when they have both kings, no more than the usual pieces, no piece without a move on the last ranks, and the side not to move is not in check"]


def damage(c, s, alphabet, sep=None):
    """s with a few local changes"""
    for _ in range(c.weighted([(6, 1), (3, 2), (1, 5), (1, 12)])):
        k = c.draw(8)
        if sep is not None and k <= 3:
            w = s.split(sep)
            i = c.draw(len(w) - 1)
            j = c.draw(len(w) - 1)
            if k == 0:
                del w[i]
            elif k == 1:
                w.insert(j, w[i])
            elif k == 2:
                w[i], w[j] = w[j], w[i]
            else:
                w = w[:i] + [c.pick(("", " ", "x", "0", "-1", "99999999999999999999", "\t", "moves", "sfen"))] + w[i:]
            s = sep.join(w)
            continue
        i = c.draw(len(s))
        if k == 4:
            s = s[:i] + s[i + 1:]
        elif k == 5:
            s = s[:i] + c.pick(alphabet) + s[i + 1:]
        elif k == 6:
            s = s[:i] + c.pick(alphabet) * c.pick((1, 1, 2, 9, 100, 3000)) + s[i:]
        elif k == 7:
            j = c.draw(len(s))
            i, j = min(i, j), max(i, j)
            s = s[:j] + s[i:j] * c.pick((1, 1, 40)) + s[j:]
        else:
            s = s[:i]
    return s[:200000]


ASCII = "".join(map(chr, range(32, 127)))
SFEN_CH = "PLNSBRGKplnsbrgk+123456789/ bw-" * 2 + ASCII + "\0\n\t\x7f\xff王"


def survive(f, *a, **kw):
    """the result, or None if f raises"""
    try:
        return f(*a, **kw)
    except Exception:
        return None


def noise(c, ch):
    return "".join(c.pick(ch) for _ in range(c.draw(30)))


def stock_ok(b):
    """a position of the game: both kings, at most the usual pieces, none stuck on the last ranks, the side not to move not in check"""
    ps = list(b.pieces)
    n = {}
    for p in ps:
        if p:
            t = p & 15
            t = t - 8 if t > 8 else t
            n[t] = n.get(t, 0) + 1
            if t == 8:
                n[p] = n.get(p, 0) + 1
    for h in b.pieces_in_hand:
        for t, k in zip((1, 2, 3, 4, 7, 5, 6), h):
            n[t] = n.get(t, 0) + k
    if not (ps.count(8) == 1 and ps.count(24) == 1):
        return False
    if any(n.get(t, 0) > gen.TOTAL[t] for t in gen.TOTAL):
        return False
    if any(p and gen.dead(p & 15, p >> 4, sq) for sq, p in enumerate(ps)):
        return False
    r = Ref(b.sfen())
    return not r.in_check(1 - r.turn)


def ask(c, b):
    """everything a board can be asked about a position of the game"""
    obs(b)
    ms = list(b.legal_moves)
    list(b.pseudo_legal_moves)
    for f in (b.is_game_over, b.is_check, b.is_nyugyoku, b.is_ok, b.mate_move_in_1ply, b.to_bod, b.csa_pos, b.to_svg, b.is_draw, b.__repr__, b.book_key, b.zobrist_hash):
        f()
    if not b.is_check():
        b.mate_move(3)
        if c.prob(30):
            b.mate_move(5)
    else:
        b.is_mate(2)
        if c.prob(30):
            b.is_mate(4)
    h = np.zeros(1, cshogi.HuffmanCodedPos)
    b.to_hcp(h)
    b.to_psfen(np.zeros(1, cshogi.PackedSfen))
    for m in ms[:40]:
        cshogi.move_to_usi(m), cshogi.move_to_csa(m), b.move_is_draw(m), KIF.move_to_kif(m)
        b.is_legal(m)
        b.book_key_after(b.book_key(), m)
    for m in [c.pick(ms) for _ in range(3)] if ms else []:
        KI2.move_to_ki2(m, b)
        k = b.copy()
        k.push(m)
        k.is_draw(), k.mate_move_in_1ply(), k.legal_moves
        k.pop()
        c.eq(k.sfen(), b.sfen(), "after taking back a move")
    if c.prob(30):
        for S in (cshogi.DfPn, osl.DfPn if hasattr(osl, "DfPn") else cshogi.DfPn):
            d = S(depth=9, nodes=500, draw_ply=100)
            k = b.copy()
            if d.search(k):
                d.get_move(k)
                d.get_pv(k)
            c.eq(k.sfen(), b.sfen(), "the board after a search")


def works(c, b):
    """the board still plays"""
    b.reset()
    b.push_usi("7g7f")
    c.eq(b.sfen(), "lnsgkgsnl/1r5b1/ppppppppp/9/9/2P6/PP1PPPPPP/1B5R1/LNSGKGSNL w - 2", "the board after all that")
    c.eq(len(list(b.legal_moves)), 30, "its legal moves")


def t_sfen(c):
    r = gen.position(c, max_len=60) if c.prob(70) else gen.placement(c)
    good = r.sfen()
    s = noise(c, SFEN_CH) if c.prob(10) else damage(c, good, SFEN_CH, c.pick((" ", "/", None)))
    c.note(repr(s)[:600])
    b = cshogi.Board()
    b.push_usi("2g2f")
    for f in (lambda: cshogi.Board(s), lambda: b.set_sfen(s), lambda: b.set_position("sfen " + s), lambda: b.set_position(s), lambda: cshogi.rotate_sfen(s)):
        survive(f)
        obs(b)
    d = survive(cshogi.Board, s)
    if d is not None:
        obs(d)
        d.copy()
        repr(d), d.to_svg(), d.to_bod(), d.csa_pos()
        if stock_ok(d):
            c.event("accepted")
            ask(c, d)
    works(c, b)
    if s != good:
        c.nontrivial(s)


def t_position(c):
    start, moves, r = gen.playout(c, max_len=30)
    good = ("startpos" if start == START else "sfen " + start) + " moves " + " ".join(usi(m) for m in moves)
    s = damage(c, good, SFEN_CH, c.pick((" ", " ", None)))
    c.note(repr(s)[:600])
    b = cshogi.Board(r.sfen())
    if survive(lambda: b.set_position(s) or True):
        c.event("accepted")
        if stock_ok(b):
            ask(c, b)
        while b.history:
            b.pop()
        obs(b)
    works(c, b)
    if s != good:
        c.nontrivial(s)


def t_moves(c):
    r = gen.position(c, max_len=60)
    b = cshogi.Board(r.sfen())
    before = obs(b)
    legal = {enc(r, m) for m in r.legal()}
    tried = []
    for _ in range(20):
        ps = r.legal() or r.pseudo()
        if not ps:
            return
        m = c.pick(ps)
        k = c.draw(5)
        if k == 0:
            s = damage(c, usi(m), "PLNSBRGK*+123456789abcdefghi0jJ \0zé王")
            tried.append(s)
            x = survive(b.move_from_usi, s)
            y = b.copy()
            z = survive(y.push_usi, s)
            y2 = obs(y)
        elif k == 1:
            s = damage(c, csa_text(r, m), "+-0123456789FUKYEGIAHTORNM \0zé王")
            tried.append(s)
            x = survive(b.move_from_csa, s)
            survive(b.copy().push_csa, s)
        elif k == 2:
            x = c.draw(2 ** 31 - 1) if c.prob(50) else enc(r, m) ^ 1 << c.draw(30)
            tried.append(x)
        elif k == 3:
            x = -c.draw(2 ** 31 - 1)
            tried.append(x)
        elif k == 4:
            v = c.draw(65535) if c.prob(50) else (enc(r, m) & 65535) ^ 1 << c.draw(15)
            tried.append(v)
            x = survive(b.move_from_move16, v)
        else:
            v = c.draw(65535)
            tried.append(v)
            x = survive(b.move_from_psv, v)
        if x is not None:
            c.eq(bool(b.is_legal(x)), x in legal, lambda: "is_legal(%r) made from %r in %s" % (x, tried[-1], r.sfen()))
    c.eq(obs(b), before, "the board after asking about %r" % tried)
    c.note(repr(tried)[:500])
    works(c, b)
    c.nontrivial(repr(tried))


def t_bytes(c):
    r = gen.position(c, max_len=60) if c.prob(60) else gen.placement(c, dense=c.draw(2) or None)
    b = cshogi.Board(r.sfen())
    name = c.pick(("hcp", "psfen"))
    a = np.zeros(32, np.uint8)
    k = c.draw(3)
    if k == 0:
        a[:] = [c.draw(255) for _ in range(32)]
    else:
        h = np.zeros(1, cshogi.HuffmanCodedPos if name == "hcp" else cshogi.PackedSfen)
        getattr(b, "to_" + name)(h)
        a[:] = h.view(np.uint8)
        for _ in range(c.pick((1, 2, 8))):
            a[c.draw(31)] ^= 1 << c.draw(7)
        if k == 1:
            i = c.draw(31)
            a[i:] = c.pick((0, 255))
        if c.prob(15):
            # the kings' squares (seven bits each, after the bit of the turn), alike or off the board
            v = int.from_bytes(a[:2].tobytes(), "little")
            k0 = c.pick((v >> 1 & 127, v >> 8 & 127, 80, 81, 82, 127))
            k1 = k0 if c.prob(60) else c.pick((80, 81, 82, 127))
            v = v & 0x8001 | k0 << 1 | k1 << 8
            a[0], a[1] = v & 255, v >> 8
    c.note(a.tobytes().hex())
    # the bytes lie at the very end of their buffer
    big = np.frombuffer(bytearray(a.tobytes()), np.uint8)
    d = cshogi.Board()
    d.push_usi("2g2f")
    if survive(lambda: getattr(d, "set_" + name)(big) or True):
        obs(d)
        # what is accepted is a position: it can be written down and read again
        same = cshogi.Board(d.sfen())
        for what in ("pieces", "pieces_in_hand", "turn"):
            c.eq(getattr(d, what), getattr(same, what), lambda: "%s of the accepted position and of its SFEN, %s" % (what, d.sfen()))
        for side in (0, 1):
            c.eq(d.king_square(side), same.king_square(side), lambda: "king_square(%d) of the accepted position and of its SFEN, %s" % (side, d.sfen()))
        c.eq(d.zobrist_hash(), same.zobrist_hash(), lambda: "hash of the accepted position and of its SFEN, " + d.sfen())
        if stock_ok(d):
            c.event("accepted")
            ask(c, d)
    works(c, d)
    c.nontrivial(a.tobytes())


def csa_record(c):
    start, moves, r = gen.playout(c, c.pick(gen.HANDICAPS) if c.prob(50) else None, max_len=30)
    q = Ref(start)
    b = cshogi.Board(start)
    lines = [c.pick(("V2.2", "V2", "V3.0")), "N+" + gen.text(c), "N-" + gen.text(c), "$EVENT:x", "$START_TIME:2020/01/02 03:04:05", "'black_rate:a:123.4", "'white_rate:b:5"]
    lines += b.csa_pos().strip().split("\n") if start != START or c.prob(50) else ["PI", "+"]
    for m in moves:
        l = "+-"[q.turn] + csa_text(q, m)
        if c.prob(20):
            l += ",'" + gen.text(c)
        lines.append(l)
        if c.prob(50):
            lines.append("T%d" % c.draw(100))
        if c.prob(40):
            lines.append("'** %d +7776FU" % c.draw(5000))
        q.apply(m)
    lines += [c.pick(("%TORYO", "%SENNICHITE", "%KACHI", "%+ILLEGAL_ACTION", "%CHUDAN")), "T3", "'summary:toryo:a lose:b win"]
    if c.prob(20):
        lines += ["/"] + lines
    return "\n".join(lines) + "\n"


CSA_CH = "+-0123456789FUKYEGIAHTORNMPV%'/$,*:. \n\r\0T" * 2 + ASCII + "王é"


def t_csa(c):
    good = csa_record(c)
    s = noise(c, CSA_CH) if c.prob(5) else damage(c, good, CSA_CH, c.pick(("\n", "\n", None)))
    c.note(repr(s)[:1500])
    path = os.path.join(c.env.tmp, "c19-%d.csa" % os.getpid())
    c.cleanup.append(lambda: os.path.exists(path) and os.remove(path))
    raw = s.encode("utf-8", "replace")
    if c.prob(20):
        i = c.draw(len(raw))
        raw = raw[:i] + bytes([c.draw(255)]) + raw[i:]
    with open(path, "wb") as f:
        f.write(raw)
    n = 0
    for f in (lambda: CSA.Parser.parse_str(s), lambda: CSA.Parser.parse_file(path), lambda: [one(s)], lambda: CSA.Parser.parse_file(path, encoding=c.pick(("utf-8", "cp932", "shift-jis")))):
        for p in survive(f) or []:
            n += 1
            survive(lambda: (p.version, p.var_info, p.sfen, p.endgame, p.names, p.ratings, p.moves, p.times, p.scores, p.comments, p.win, p.comment))
            c.check(len(p.scores) == len(p.moves), "a score for every move")
            b = survive(cshogi.Board, p.sfen)
            if b is None:
                c.check(not p.moves, lambda: "moves without a position: %r" % p.sfen)
                continue
            for m in p.moves:
                c.check(b.is_legal(m), lambda: "the record is read as %s with the illegal move %s" % (p.sfen, cshogi.move_to_usi(m)))
                b.push(m)
    if n:
        c.event("accepted")
    if s != good:
        c.nontrivial(s)


def one(s):
    p = cshogi.Parser()
    p.parse_csa_str(s)
    return p


def jp_record(c, ki2):
    start, moves, r = gen.playout(c, START, max_len=25)
    path = os.path.join(c.env.tmp, "c19-%d.txt" % os.getpid())
    c.cleanup.append(lambda: os.path.exists(path) and os.remove(path))
    ex = (KI2 if ki2 else KIF).Exporter(path)
    ex.header(["A", "B"])
    q = Ref(start)
    for m in moves:
        ex.move(enc(q, m)) if ki2 or c.prob(50) else ex.move(enc(q, m), c.draw(99), c.draw(9999))
        q.apply(m)
    survive(ex.end, c.pick(("resign", "sennichite", "draw", "win", "illegal_win")))
    ex.close()
    for e in ("utf-8", "cp932", "shift-jis"):
        try:
            with open(path, encoding=e) as f:
                return path, f.read()
        except UnicodeError:
            pass


KIF_CH = "１２３４５６７８９一二三四五六七八九同　歩香桂銀金角飛玉王とと成杏圭全馬龍竜打左右直上寄引行投了中断▲△()0123456789: /*#&|+-\n" * 2 + ASCII


def t_jp(c):
    ki2 = c.prob(50)
    path, good = jp_record(c, ki2)
    s = noise(c, KIF_CH) if c.prob(5) else damage(c, good, KIF_CH, c.pick(("\n", "\n", None)))
    if c.prob(15):
        bod = "後手の持駒：" + c.pick(("なし", "飛　角二　歩十八", "歩十九", "玉")) + "\n  ９ ８ ７ ６ ５ ４ ３ ２ １\n+---------------------------+\n" + \
              "".join("|" + "".join(c.pick((" ・", " 歩", "v歩", " 玉", "v玉", "v飛", " と", "")) for _ in range(9)) + "|" + z + "\n" for z in "一二三四五六七八九") + \
              "+---------------------------+\n先手の持駒：なし\n"
        s = bod + s
    c.note(repr(s)[:1500])
    with open(path, "wb") as f:
        f.write(s.encode(c.pick(("utf-8", "cp932")), "replace"))
    P = (KI2 if ki2 else KIF).Parser
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        for f in (lambda: P.parse_str(s), lambda: P.parse_file(path)):
            p = survive(f)
            if p is None:
                continue
            c.event("accepted")
            survive(lambda: (p.moves, p.times, p.comments, p.win, p.endgame, p.names, p.sfen))
    if s != good:
        c.nontrivial(s)


def t_ask(c):
    """random positions, asked everything"""
    k = c.draw(2)
    if k == 0:
        r = gen.placement(c)
        b = cshogi.Board(r.sfen())
    elif k == 1:
        r = gen.placement(c, dense=2)
        b = cshogi.Board(r.sfen())
    else:
        start, moves, r = gen.playout(c, max_len=80)
        b = cshogi.Board(start)
        q = Ref(start)
        for m in moves:
            b.push(enc(q, m))
            q.apply(m)
    c.note(r.sfen())
    if not stock_ok(b):
        return
    ask(c, b)
    from cshogi import dlshogi as dl
    f1 = np.empty((dl.FEATURES1_NUM, 9, 9), np.float32)
    f2 = np.empty((dl.FEATURES2_NUM, 9, 9), np.float32)
    dl.make_input_features(b, f1, f2)
    for m in b.legal_moves:
        dl.make_move_label(m, b.turn)
    c.nontrivial(r.key())


A = "asan"
TESTS = [Test("sfen", t_sfen, 4000, flavour=A), Test("position", t_position, 2000, flavour=A), Test("moves", t_moves, 2500, flavour=A), Test("bytes", t_bytes, 4000, flavour=A),
         Test("csa", t_csa, 4000, flavour=A), Test("jp", t_jp, 1500, flavour=A), Test("ask", t_ask, 3000, flavour=A)]
