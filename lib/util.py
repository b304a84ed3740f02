"""Helpers shared by the checks: the observable state of a board, expected move integers, notations from the model."""
import cshogi
import numpy as np
from ref import Ref, usi, m_to, m_from, m_drop, m_pro

CSA_NAME = (None, "FU", "KY", "KE", "GI", "KA", "HI", "KI", "OU", "TO", "NY", "NK", "NG", "UM", "RY")
KIND = ".PLNSBRGKPLNSBR"


def sqname(sq):
    return "%d%d" % (sq // 9 + 1, sq % 9 + 1)


def enc(r, m):
    """The documented 32-bit move for model move m in model position r."""
    if m_drop(m):
        return m_to(m) | m_from(m) << 7
    b = r.s.b
    return m_to(m) | m_from(m) << 7 | m_pro(m) << 14 | (b[m_from(m)] & 15) << 16 | (b[m_to(m)] & 15) << 20


def csa(r, m):
    if m_drop(m):
        return "00" + sqname(m_to(m)) + CSA_NAME[m_from(m) - 80]
    p = r.s.b[m_from(m)] & 15
    return sqname(m_from(m)) + sqname(m_to(m)) + CSA_NAME[p + 8 if m_pro(m) else p]


def obs(b):
    """Everything a user can see of a board (without searching)."""
    return (b.sfen(), tuple(b.pieces), tuple(map(tuple, b.pieces_in_hand)), b.turn, b.move_number, b.zobrist_hash(),
            b.book_key(), b.is_check(), b.king_square(0), b.king_square(1), tuple(b.history), b.peek(), b.is_draw(),
            b.is_nyugyoku(), tuple(b.piece(s) for s in range(81)))


def pos_obs(b):
    """The part of obs that depends on the position alone, not on how it was reached."""
    return (b.sfen(), tuple(b.pieces), tuple(map(tuple, b.pieces_in_hand)), b.turn, b.zobrist_hash(), b.book_key(), b.is_check(),
            b.king_square(0), b.king_square(1), b.is_nyugyoku(), tuple(b.piece(s) for s in range(81)))


def moves_of(b):
    return sorted(b.legal_moves)


def model_matches(c, b, r, what=""):
    """the board shows exactly the model's position"""
    c.eq(b.sfen(), r.sfen(), lambda: what + "sfen")
    c.eq(list(b.pieces), r.board(), lambda: what + "pieces of " + r.sfen())
    c.eq(tuple(map(tuple, b.pieces_in_hand)), r.hands(), lambda: what + "pieces_in_hand of " + r.sfen())
    c.eq(b.turn, r.turn, lambda: what + "turn")


def hist_text(moves):
    return " ".join(usi(m) for m in moves)


def board_via(c, r):
    """a board with the position of r, set in one of the ways there are, on a new board or a used one"""
    b = cshogi.Board()
    if c.prob(30):
        for _ in range(c.int(1, 3)):
            b.push(next(iter(b.legal_moves)))
    k = c.draw(9)
    both = r.s.b[:].count(8) == 1 and r.s.b[:].count(24) == 1
    if k == 5:
        b.set_sfen(r.sfen())
    elif k == 6:
        b.set_position("sfen " + r.sfen())
    elif k == 7 and r.turn == b.turn:
        b.set_pieces(r.board(), r.hands())
    elif k == 7:
        b.turn = r.turn
        b.set_pieces(r.board(), r.hands())
    elif k >= 8 and both:
        t = cshogi.Board(r.sfen())
        a = np.zeros(32, dtype=np.uint8)
        if k == 8:
            t.to_hcp(a)
            b.set_hcp(a)
        else:
            t.to_psfen(a)
            b.set_psfen(a)
    else:
        b = cshogi.Board(r.sfen())
    return b
