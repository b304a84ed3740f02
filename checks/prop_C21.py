"""Book keys: Apery's published key, for every route to the position, and after every move."""
import copy
import cshogi
from pbt import Test
import gen
from ref import Ref, usi, START
from util import enc

RULE = ("a case is a game (moves, passes, take-backs, copies) or a random placement; at every step book_key is compared with the "
        "key computed from Apery's definition (64-bit Mersenne twister with the standard seed) and book_key_after of legal moves "
        "with the key of the position after the move. Non-trivial: the game is longer than three plies or the placement has "
        "pieces in hand; distinct by final position.")


def mt64(seed=5489):
    M = (1 << 64) - 1
    mt = [seed]
    for i in range(1, 312):
        mt.append((6364136223846793005 * (mt[-1] ^ mt[-1] >> 62) + i) & M)
    while True:
        for i in range(312):
            x = mt[i] & 0xFFFFFFFF80000000 | mt[(i + 1) % 312] & 0x7FFFFFFF
            mt[i] = mt[(i + 156) % 312] ^ x >> 1 ^ (0xB5026F5AA96619E9 if x & 1 else 0)
        for y in mt:
            y ^= y >> 29 & 0x5555555555555555
            y ^= y << 17 & 0x71D67FFFEDA60000
            y ^= y << 37 & 0xFFF7EEE000000000
            yield (y ^ y >> 43) & M


_g = mt64()
PIECE = [[next(_g) for _ in range(81)] for _ in range(31)]
HAND = [[next(_g) for _ in range(19)] for _ in range(7)]
TURN = next(_g)


def key(r):
    k = TURN if r.turn else 0
    b = r.s.b
    for sq in range(81):
        if b[sq]:
            k ^= PIECE[b[sq]][sq]
    for i, n in enumerate(r.hands()[r.turn]):
        k ^= HAND[i][n]
    return k


def at(c, b, r, sample):
    k = key(r)
    c.eq(b.book_key(), k, lambda: "book_key of %s" % r.sfen())
    ms = r.legal()
    if not ms:
        return
    for m in ms if sample is None else [c.pick(ms) for _ in range(sample)]:
        q = r.copy()
        q.apply(m)
        c.eq(b.book_key_after(k, enc(r, m)), key(q), lambda: "book_key_after for %s in %s" % (usi(m), r.sfen()))


def t_game(c):
    start, moves, refs = gen.game(c, 60)
    b = cshogi.Board(start)
    at(c, b, refs[0], 3)
    for i, m in enumerate(moves):
        b.push(enc(refs[i], m))
        at(c, b, refs[i + 1], 3)
        k = c.draw(11)
        if k == 1:
            b.pop()
            c.eq(b.book_key(), key(refs[i]), lambda: "book_key after taking back into %s" % refs[i].sfen())
            b.push_usi(usi(m))
        elif k == 2:
            b = b.copy() if c.prob(50) else copy.copy(b)
            c.eq(b.book_key(), key(refs[i + 1]), lambda: "book_key of a copy of %s" % refs[i + 1].sfen())
        elif k == 3 and not refs[i + 1].in_check():
            b.push_pass()
            q = refs[i + 1].copy()
            q.s.turn ^= 1
            c.eq(b.book_key(), key(q), lambda: "book_key after a pass in %s" % refs[i + 1].sfen())
            b.pop_pass()
            c.eq(b.book_key(), key(refs[i + 1]), lambda: "book_key after a pass taken back in %s" % refs[i + 1].sfen())
    c.note(start + " " + " ".join(map(usi, moves)))
    if len(moves) > 3:
        c.nontrivial(refs[-1].key())


def t_place(c):
    r = gen.placement(c)
    b = cshogi.Board(r.sfen())
    at(c, b, r, None)
    if c.prob(30):
        d = cshogi.Board()
        d.set_position("sfen " + r.sfen())
        c.eq(d.book_key(), key(r), lambda: "book_key after set_position of %s" % r.sfen())
    c.note(r.sfen())
    if any(map(any, r.hands())):
        c.nontrivial(r.key())


TESTS = [Test("games", t_game, 1500), Test("placements", t_place, 4000)]
