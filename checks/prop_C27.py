"""Turning the board: rotate_sfen and move_rotate agree with each other, and the game is the same from the other side."""
import cshogi
from pbt import Test
import gen
from ref import Ref, usi, m_drop, m_to, m_from, m_pro
from util import enc

RULE = ("a case is a game or a random placement with its board turned by 180 degrees; rotate_sfen is compared with the turned "
        "model, move_rotate with the turned moves, and the turned game is played along: legal moves, checks, repetition verdicts "
        "and the SFENs must correspond at every ply. Non-trivial: there is a piece in hand, a promoted piece or a move; distinct by "
        "final position.")


def turned(r):
    q = Ref(None)
    for sq in range(81):
        p = r.s.b[80 - sq]
        q.s.b[sq] = (p ^ 16) if p else 0
    h = list(r.s.h)
    q.s.h[:] = h[7:] + h[:7]
    q.s.turn = 1 - r.turn
    q.s.ply = r.ply
    return q


def at(c, r, q, b, d):
    s = r.sfen()
    t = cshogi.rotate_sfen(s)
    c.eq(t, q.sfen(), lambda: "rotate_sfen of " + s)
    c.eq(cshogi.rotate_sfen(t), s, lambda: "rotate_sfen twice")
    c.eq(b.sfen(), s, "sfen")
    c.eq(d.sfen(), t, lambda: "sfen of the turned game of " + s)
    x = sorted(b.legal_moves)
    y = [cshogi.move_rotate(m) for m in x]
    for m, k in zip(x, y):
        to, fr = m & 127, m >> 7 & 127
        w = m & ~0x3fff | 80 - to | (fr if fr >= 81 else 80 - fr) << 7
        c.eq(k, w, lambda: "move_rotate of %#x" % m)
        c.eq(cshogi.move_rotate(k), m, lambda: "move_rotate twice of %#x" % m)
        c.eq(cshogi.move_rotate(m & 0xffff), w & 0xffff, lambda: "move_rotate of the 16-bit move %#x" % (m & 0xffff))
    c.eq(sorted(y), sorted(d.legal_moves), lambda: "the turned legal moves of " + s)
    c.eq(b.is_check(), d.is_check(), lambda: "is_check of %s turned" % s)
    c.eq(b.is_game_over(), d.is_game_over(), lambda: "is_game_over of %s turned" % s)
    c.eq(b.is_draw(), d.is_draw(), lambda: "is_draw of the turned game at " + s)
    kb, kw = b.king_square(0), b.king_square(1)
    c.eq((d.king_square(1), d.king_square(0)), tuple(80 - k if k < 81 else k for k in (kb, kw)), lambda: "king squares of %s turned" % s)


def t_game(c):
    start, moves, refs = gen.game(c, 40)
    if c.prob(40):
        # shuffle back and forth so that positions recur
        start, moves, refs = shuffle(c)
    b = cshogi.Board(start)
    d = cshogi.Board(cshogi.rotate_sfen(start))
    qs = [turned(r) for r in refs]
    at(c, refs[0], qs[0], b, d)
    for i, m in enumerate(moves):
        x = enc(refs[i], m)
        b.push(x)
        d.push(cshogi.move_rotate(x))
        at(c, refs[i + 1], qs[i + 1], b, d)
    c.note(start + " moves " + " ".join(map(usi, moves)))
    if moves:
        c.nontrivial(refs[-1].key())


def shuffle(c):
    r = gen.position(c, max_len=30)
    start = r.sfen()
    refs, moves = [r.copy()], []
    last = {}
    for _ in range(c.int(4, 20)):
        ms = r.legal()
        if not ms:
            break
        p = last.get(r.turn)
        back = [m for m in ms if p is not None and not m_drop(p) and not m_drop(m) and m_to(m) == m_from(p) and m_from(m) == m_to(p) and not m_pro(m)]
        quiet = [m for m in ms if not m_drop(m) and not r.s.b[m_to(m)]]
        if back and c.prob(85):
            m = back[0]
        elif quiet and c.prob(80):
            m = c.pick(quiet)
        else:
            m = c.pick(ms)
        last[r.turn] = m
        moves.append(m)
        r.apply(m)
        refs.append(r.copy())
    return start, moves, refs


def t_place(c):
    r = gen.placement(c)
    if c.prob(60):
        r.s.ply = c.pick((1, 2, 10, 99, 512, 1023))
    q = turned(r)
    at(c, r, q, cshogi.Board(r.sfen()), cshogi.Board(q.sfen()))
    c.note(r.sfen())
    if any(map(any, r.hands())) or any(x & 15 > 8 for x in r.s.b):
        c.nontrivial(r.key())


TESTS = [Test("games", t_game, 1500), Test("placements", t_place, 5000)]
