"""Positions survive SFEN, set_position and set_pieces; what is not a position is refused without damage."""
import cshogi
from pbt import Test
import gen
from ref import Ref, usi, START, HAND_SLOT, MAX_HAND, LETTERS
from util import enc, obs, pos_obs, model_matches

RULE = ("a case is a position (from play, or any placement of pieces and hands, including ones no game reaches) written and "
        "read back through every text channel, or a corrupted SFEN. Non-trivial: the position has hands, promoted pieces or a "
        "non-initial board / the corrupted text differs from every valid one; distinct by text.")


def wild(c):
    """any placement at all: no rule but at most one king a side and the stock of hand pieces"""
    board = [0] * 81
    n = c.draw(60)
    for _ in range(n):
        t = c.pick((1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14))
        board[c.draw(80)] = t + 16 * c.draw(1)
    for col in (0, 1):
        if c.prob(90):
            s = c.draw(80)
            if board[s] & 15 != 8:
                board[s] = 8 + 16 * col
    hands = [[c.draw(MAX_HAND[i]) if c.prob(45) else 0 for i in range(7)] for _ in (0, 1)]
    return Ref.make(board, hands, c.draw(1), gen.number(c, 999))


def origin(c):
    k = c.draw(2)
    if k == 0:
        start, moves, r = gen.playout(c, max_len=80)
        return r
    if k == 1:
        r = gen.placement(c)
        r.s.ply = gen.number(c)
        return r
    return wild(c)


def t_sfen(c):
    r = origin(c)
    s = r.sfen()
    c.note(s)
    b = cshogi.Board(s)
    model_matches(c, b, r, "Board(sfen): ")
    c.eq(b.move_number, r.ply, "move_number")
    c.eq(list(b.history), [], "history of a new board")
    d = cshogi.Board()
    d.push_usi("7g7f")
    d.set_sfen(s)
    c.eq(obs(d), obs(b), lambda: "set_sfen against Board(sfen) for " + s)
    d = cshogi.Board()
    d.push_usi("2g2f")
    d.set_position("sfen " + s)
    c.eq(obs(d), obs(b), lambda: "set_position against Board(sfen) for " + s)
    d = cshogi.Board()
    d.push_usi("2g2f")
    d.turn = r.turn
    d.move_number = r.ply
    d.set_pieces(b.pieces, b.pieces_in_hand)
    c.eq(obs(d), obs(b), lambda: "set_pieces(pieces, pieces_in_hand) for " + s)
    c.eq(cshogi.Board(b.sfen()).sfen(), s, "a second round trip")
    d.reset()
    c.eq(obs(d), obs(cshogi.Board()), "reset()")
    c.eq(cshogi.Board().sfen(), START, "the default position")
    if s != START:
        c.nontrivial(s)


def t_position(c):
    start, moves, r = gen.playout(c, max_len=40)
    head = "startpos" if start == START and c.prob(60) else "sfen " + start
    text = head + (" moves " + " ".join(usi(m) for m in moves) if moves else "")
    c.note(text)
    b = cshogi.Board(c.pick(gen.SEEDS))
    b.set_position(text)
    model_matches(c, b, r, text + ": ")
    q = Ref(start)
    k = cshogi.Board(start)
    for m in moves:
        k.push(enc(q, m))
        q.apply(m)
    c.eq(obs(b), obs(k), "set_position against pushing the moves: " + text)
    while b.history:
        b.pop()
    c.eq(b.sfen(), start, "the position before the first move of " + text)
    if moves:
        c.nontrivial(text)


def t_reject(c):
    """what cannot be a position is refused, and the board keeps its position and history"""
    r = origin(c)
    parts = r.sfen().split(" ")
    bd = parts[0]
    k = c.draw(10)
    if k == 0:  # foreign character on the board
        i = c.draw(len(bd))
        bd = bd[:i] + c.pick("xyzXYZ*?!_,.acdefhijmoqtuvwACDEFHIJMOQTUVW") + bd[i:]
    elif k == 1:  # promoted gold or king
        i = c.pick([j for j, ch in enumerate("/" + bd) if ch == "/"])
        bd = bd[:i] + c.pick(("+G", "+g", "+K", "+k")) + bd[i:]
    elif k == 2:  # a sign that promotes nothing
        bd = bd.replace("/", "+/", 1) if c.draw(1) else bd + "+"
    elif k == 3:
        parts[1] = c.pick(("x", "B", "W", "1", "bx", "-"))
    elif k == 4:  # king in hand
        parts[2] = ("" if parts[2] == "-" else parts[2]) + c.pick(("K", "k", "2K"))
    elif k == 5:  # more than exist
        t = c.pick("PLNSGBR")
        n = MAX_HAND[HAND_SLOT[LETTERS.index(t)]] + c.int(1, 80)
        parts[2] = str(n) + (t if c.draw(1) else t.lower())
    elif k == 6:
        parts[2] = c.pick(("+P", "P?", "x", "*", "p/", "P,p", "AZ"))
    elif k == 7:  # ten pieces on the last rank
        rk = bd.split("/")
        rk[8] = "PPPPPPPPPP" if c.draw(1) else "9P"
        bd = "/".join(rk)
    elif k == 8:  # ten ranks
        bd = bd + "/" + c.pick(("P8", "1P7", "4k4", "9", ""))
    elif k == 9:  # eight ranks
        rk = bd.split("/")
        del rk[c.draw(8)]
        bd = "/".join(rk)
    else:  # a rank that is not nine squares long
        rk = bd.split("/")
        i = c.draw(8)
        rk[i] = c.pick((rk[i] + "1", rk[i] + "P", "8", "PPPP", "", "55", "4k5", "99"))
        bd = "/".join(rk)
    parts[0] = bd
    s = " ".join(parts)
    c.note(s)
    start, moves, _ = gen.playout(c, max_len=8)
    q = Ref(start)
    b = cshogi.Board(start)
    for m in moves:
        b.push(enc(q, m))
        q.apply(m)
    before = obs(b)
    for f, a in ((b.set_sfen, s), (b.set_position, "sfen " + s), (cshogi.Board, s)):
        try:
            f(a)
            c.check(False, lambda: "%s(%r) was accepted" % (getattr(f, "__name__", f), a))
        except RuntimeError:
            pass
        c.eq(obs(b), before, lambda: "the board after the refused %r" % s)
    for a in ("startpos moves 7g7e", "start", "", "moves 7g7f", "sfen " + START + " moves 7g7f 7g7f", "startpos moves 7g7f 3c3d 8h2b+ 0000"):
        if c.prob(30):
            try:
                b.set_position(a)
                c.check(False, lambda: "set_position(%r) was accepted" % a)
            except RuntimeError:
                pass
            c.eq(obs(b), before, lambda: "the board after the refused %r" % a)
    while moves:
        moves.pop()
        b.pop()
    c.eq(b.sfen(), Ref(start).sfen(), "the history below a refused position")
    c.nontrivial(s)


TESTS = [Test("sfen", t_sfen, 12000), Test("set_position", t_position, 3000), Test("reject", t_reject, 8000)]
