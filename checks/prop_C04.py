"""Every accessor of a Board shows the position the rules give."""
import cshogi
from pbt import Test
import gen
from ref import Ref, usi, HAND_TYPES
from util import enc

RULE = ("a case is a position reached by random play, random placement, set_pieces or a turn change; every accessor of every "
        "position on the way is compared with the reference board. Non-trivial: the position has pieces in hand or promoted "
        "pieces or a check; distinct by position.")

CONST = {"PAWN": 1, "LANCE": 2, "KNIGHT": 3, "SILVER": 4, "BISHOP": 5, "ROOK": 6, "GOLD": 7, "KING": 8, "PROM_PAWN": 9,
         "PROM_LANCE": 10, "PROM_KNIGHT": 11, "PROM_SILVER": 12, "PROM_BISHOP": 13, "PROM_ROOK": 14}


def compare(c, b, r):
    s = r.sfen
    bd = r.board()
    c.eq(list(b.pieces), bd, lambda: "pieces of " + s())
    for sq in range(81):
        c.eq(b.piece(sq), bd[sq], lambda: "piece(%d) of %s" % (sq, s()))
        c.eq(b.piece_type(sq), bd[sq] & 15, lambda: "piece_type(%d) of %s" % (sq, s()))
    c.eq(tuple(map(tuple, b.pieces_in_hand)), r.hands(), lambda: "pieces_in_hand of " + s())
    c.eq(b.turn, r.turn, lambda: "turn of " + s())
    c.eq(b.move_number, r.ply, lambda: "move_number of " + s())
    c.eq(b.sfen(), s(), "sfen")
    for col in (0, 1):
        k = r.king(col)
        c.eq(b.king_square(col), k if k >= 0 else 81, lambda: "king_square(%d) of %s" % (col, s()))
    chk = r.in_check()
    c.eq(bool(b.is_check()), chk, lambda: "is_check of " + s())
    c.eq(bool(b.is_game_over()), not r.any_legal(), lambda: "is_game_over of " + s())
    both = r.king(0) >= 0 and r.king(1) >= 0
    if both and r.attackers(r.king(r.turn), r.turn ^ 1) <= 2:
        c.check(b.is_ok(), lambda: "is_ok of the sound position " + s())
    n = 0
    if chk:
        c.event("in check")
        n = 1
    if any(x & 15 > 8 for x in bd):
        c.event("promoted pieces")
        n = 1
    if sum(map(sum, r.hands())):
        c.event("pieces in hand")
        n = 1
    if n:
        c.nontrivial(r.key())


def t_game(c):
    start, moves, _ = gen.playout(c, max_len=60)
    r = Ref(start)
    b = cshogi.Board(start)
    compare(c, b, r)
    c.note(start)
    c.note(" ".join(usi(m) for m in moves))
    for m in moves:
        b.push(enc(r, m))
        r.apply(m)
        compare(c, b, r)


def t_place(c):
    k = c.draw(3)
    r = gen.placement(c, no_king_of=(c.draw(1),) if c.prob(12) else ())
    how = c.draw(4)
    c.note(r.sfen())
    if how == 0:
        b = cshogi.Board(r.sfen())
    elif how == 1:
        b = cshogi.Board()
        b.push_usi("7g7f")
        if r.turn == 0:
            b.turn = 0
        b.move_number = n = c.int(1, 500)
        r.s.ply = n
        b.set_pieces(r.board(), r.hands())
    elif how == 2:
        # the pieces first, then the turn: in between the side not to move may stand in check
        b = cshogi.Board()
        if r.turn == 0:
            b.push_usi("7g7f")
        b.move_number = r.ply
        b.set_pieces(r.board(), r.hands())
        b.turn = r.turn
        c.event("turn set after the pieces")
    elif how == 3:
        q = r.copy()
        q.s.turn ^= 1
        b = cshogi.Board(q.sfen())
        b.turn = r.turn
        c.event("turn set after the pieces")
    else:
        b = cshogi.Board(r.sfen())
        # the other side to move, unless that leaves a king to be taken
        q = r.copy()
        q.s.turn ^= 1
        if not q.in_check(q.turn ^ 1):
            b.turn = q.turn
            r = q
            c.event("turn changed")
    compare(c, b, r)
    fresh = cshogi.Board(r.sfen())
    c.eq(b.zobrist_hash(), fresh.zobrist_hash(), "zobrist_hash against a fresh board")
    c.eq(sorted(b.legal_moves), sorted(fresh.legal_moves), "legal moves against a fresh board")
    for _ in range(c.draw(6)):
        m = gen.pick_move(c, r)
        if m is None:
            break
        b.push(enc(r, m))
        r.apply(m)
        compare(c, b, r)


def t_const(c):
    """the public numbering"""
    sq = c.draw(80)
    c.eq(cshogi.make_file(sq), sq // 9, "make_file")
    c.eq(cshogi.make_rank(sq), sq % 9, "make_rank")
    name = "ABCDEFGHI"[sq % 9] + str(sq // 9 + 1)
    c.eq(getattr(cshogi, name), sq, "constant " + name)
    c.eq(cshogi.SQUARE_NAMES[sq], "%d%s" % (sq // 9 + 1, "abcdefghi"[sq % 9]), "SQUARE_NAMES")
    for n, v in CONST.items():
        c.eq(getattr(cshogi, n), v, n)
        c.eq(getattr(cshogi, "B" + n), v, "B" + n)
        c.eq(getattr(cshogi, "W" + n), v + 16, "W" + n)
        c.eq(cshogi.piece_to_piece_type(v), v, "piece_to_piece_type")
        c.eq(cshogi.piece_to_piece_type(v + 16), v, "piece_to_piece_type")
    for i, t in enumerate(HAND_TYPES):
        c.eq(cshogi.hand_piece_to_piece_type(i), t, "hand_piece_to_piece_type(%d)" % i)
    c.eq(cshogi.opponent(cshogi.BLACK), cshogi.WHITE, "opponent")
    c.eq(cshogi.opponent(cshogi.WHITE), cshogi.BLACK, "opponent")
    c.eq(list(cshogi.SQUARES), list(range(81)), "SQUARES")
    c.nontrivial(sq)


TESTS = [Test("game", t_game, 800), Test("placement", t_place, 8000), Test("constants", t_const, 100, 100)]
