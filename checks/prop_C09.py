"""Packed positions (hcp, psfen) and packed moves (move16, psv)."""
import numpy as np
import cshogi
from pbt import Test
import gen
from ref import Ref, usi, HAND_TYPES, m_to, m_from, m_drop, m_pro
from util import enc, obs, pos_obs

RULE = ("a case is a position with both kings (from play, placement, handicaps with pieces missing) packed by the library and "
        "unpacked by an independent decoder of the published bit formats and by the library, and packed by an independent "
        "encoder (hand pieces in any order) and unpacked by the library; plus all its legal moves through the 16-bit codes. "
        "Non-trivial: the position is not the initial one; distinct by position.")
ASSUMPTIONS = ["both kings are on the board and no piece type exceeds its stock, as the 256-bit formats presuppose"]

# piece type -> code bits, least significant first, of the two published formats
HCP = {0: "0", 1: "10", 2: "1100", 3: "1110", 4: "1101", 7: "1111", 5: "111110", 6: "111111"}
YANE = {1: "10", 2: "1100", 3: "1101", 4: "1110", 7: "11110", 5: "111110", 6: "111111"}


def bits_of(code, n):
    return "".join(str(code >> i & 1) for i in range(n))


def _hcp_tables():
    """Apery's table: value and length as documented; the string is least significant bit first."""
    T = {1: ("1", 4, "1001", "101", "1101"), 2: ("11", 6, "100011", "10011", "110011"), 3: ("111", 6, "100111", "10111", "110111"),
         4: ("1011", 6, "101011", "11011", "111011"), 5: ("11111", 8, "10011111", "1011111", "11011111"),
         6: ("111111", 8, "10111111", "1111111", "11111111"), 7: ("1111", 6, None, "101111", None)}
    board, hand = {0: "0"}, {}
    for t, (b, n, bp, w, wp) in T.items():
        board[t] = bits_of(int(b, 2), n)
        board[t + 16] = bits_of(int(w, 2), n)
        if bp:
            board[t + 8] = bits_of(int(bp, 2), n)
            board[t + 24] = bits_of(int(wp, 2), n)
    H = {1: ("0", "100", 3), 2: ("1", "10001", 5), 3: ("11", "10011", 5), 4: ("101", "10101", 5), 7: ("111", "10111", 5),
         5: ("11111", "1011111", 7), 6: ("111111", "1111111", 7)}
    for t, (b, w, n) in H.items():
        hand[t] = bits_of(int(b, 2), n)
        hand[t + 16] = bits_of(int(w, 2), n)
    B = {1: ("10", 3), 2: ("1001", 5), 3: ("1011", 5), 4: ("1101", 5), 7: ("11101", 5), 5: ("1111", 7), 6: ("101111", 7)}
    box = {t: bits_of(int(v, 2), n) for t, (v, n) in B.items()}
    return board, hand, box


def _yane_tables():
    """YaneuraOu's PackedSfen: huffman code, then promotion flag (not for gold), then colour; a hand piece drops the first bit."""
    board, hand, box = {0: "0"}, {}, {}
    for t, code in YANE.items():
        for col in (0, 1):
            if t == 7:
                board[t + 16 * col] = code + str(col)
                hand[t + 16 * col] = code[1:] + str(col)
            else:
                board[t + 16 * col] = code + "0" + str(col)
                board[t + 8 + 16 * col] = code + "1" + str(col)
                hand[t + 16 * col] = code[1:] + "0" + str(col)
    return board, hand, box


def encode(tables, r, order=None):
    board, hand, box = tables
    out = str(r.turn) + bits_of(r.king(0), 7) + bits_of(r.king(1), 7)
    left = dict(gen.TOTAL)
    for s in range(81):
        p = r.s.b[s]
        if p & 15 == 8:
            continue
        out += board[p]
        if p:
            left[(p & 15) - 8 if (p & 15) > 8 else p & 15] -= 1
    hs = []
    for col in (0, 1):
        for i, t in enumerate(HAND_TYPES):
            hs += [hand[t + 16 * col]] * r.hands()[col][i]
            left[t] -= r.hands()[col][i]
    if order:
        hs = order(hs)
    out += "".join(hs)
    full = not any(left.values())
    for t in HAND_TYPES:
        if t in box:
            out += box[t] * left[t]
    return out, full


def decode(tables, data):
    board, hand, box = tables
    bits = "".join(bits_of(int(x), 8) for x in data)
    pos = 15
    turn = int(bits[0])
    k0 = int(bits[1:8][::-1], 2)
    k1 = int(bits[8:15][::-1], 2)
    bd = [0] * 81
    bd[k0] = 8
    bd[k1] = 24
    rb = {v: k for k, v in board.items()}
    rh = {v: k for k, v in hand.items()}
    rx = {v: k for k, v in box.items()}
    for s in range(81):
        if bd[s]:
            continue
        for n in range(1, 9):
            w = bits[pos:pos + n]
            if len(w) == n and w in rb:
                bd[s] = rb[w]
                pos += n
                break
        else:
            return None
    hands = [[0] * 7, [0] * 7]
    while pos < 256:
        for n in range(1, 9):
            w = bits[pos:pos + n]
            if len(w) == n and w in rh:
                p = rh[w]
                hands[p >> 4][HAND_TYPES.index(p & 15)] += 1
                pos += n
                break
            if len(w) == n and w in rx:
                pos += n
                break
        else:
            return None
    return turn, bd, tuple(map(tuple, hands))


FORMATS = [("hcp", _hcp_tables(), "to_hcp", "set_hcp", "HuffmanCodedPos", "hcp"),
           ("psfen", _yane_tables(), "to_psfen", "set_psfen", "PackedSfen", "sfen")]


def legal_stock(r):
    left = dict(gen.TOTAL)
    for s in range(81):
        p = r.s.b[s] & 15
        if p and p != 8:
            left[p - 8 if p > 8 else p] -= 1
    for h in r.hands():
        for i, t in enumerate(HAND_TYPES):
            left[t] -= h[i]
    return all(v >= 0 for v in left.values())


def t_pack(c):
    k = c.draw(3)
    if k <= 1:
        start, moves, r = gen.playout(c, max_len=120)
        b = cshogi.Board(start)
        q = Ref(start)
        for m in moves:
            b.push(enc(q, m))
            q.apply(m)
    else:
        r = gen.placement(c, dense=2 if k == 2 else None)
        b = cshogi.Board(r.sfen())
    if not legal_stock(r):
        return
    c.note(r.sfen())
    want = (r.turn, r.board(), r.hands())
    for name, tables, to, set_, dt, _ in FORMATS:
        a = np.zeros(1, getattr(cshogi, dt))
        a.view(np.uint8)[:] = c.pick((0, 255, 170))
        getattr(b, to)(a)
        raw = a.view(np.uint8).tobytes()
        bits, full = encode(tables, r)
        if full or name == "hcp":
            c.eq(len(bits), 256, "the model's own length of " + r.sfen())
            c.eq(decode(tables, raw), want, lambda: "%s of %s, read by the independent decoder" % (to, r.sfen()))
        d = cshogi.Board()
        d.push_usi("7g7f")
        getattr(d, set_)(a)
        c.eq(pos_obs(d)[1:], pos_obs(b)[1:], lambda: "%s(%s(b)) for %s" % (set_, to, r.sfen()))
        c.eq(d.sfen().split()[:3], r.sfen().split()[:3], lambda: "%s(%s(b)) as SFEN" % (set_, to))
        c.eq(list(d.history), [], "history after " + set_)
        c.eq(d.move_number, 1, "move_number after " + set_)
        c.eq(a.view(np.uint8).tobytes(), raw, set_ + " left its input alone")
        # the same data inside a larger record array, and as plain bytes
        b2, _ = encode(tables, r, order=c.shuffle)
        if full or name == "hcp":
            data = np.array([int(b2[i:i + 8][::-1], 2) for i in range(0, 256, 8)], np.uint8)
            d2 = cshogi.Board()
            getattr(d2, set_)(data)
            c.eq(pos_obs(d2)[1:], pos_obs(b)[1:], lambda: "%s of an independently packed %s" % (set_, r.sfen()))
    if k == 1 or r.key() != Ref().key():
        c.nontrivial(r.key())


def t_records(c):
    """training records: position and best move in the published record types"""
    start, moves, r = gen.playout(c, max_len=80)
    ms = r.legal()
    if not ms:
        return
    b = cshogi.Board(r.sfen())
    for dt, field, to, set_ in (("HuffmanCodedPosAndEval", "hcp", "to_hcp", "set_hcp"), ("PackedSfenValue", "sfen", "to_psfen", "set_psfen")):
        rec = np.zeros(3, getattr(cshogi, dt))
        i = c.draw(2)
        b.to_hcp(rec[i][field]) if to == "to_hcp" else b.to_psfen(rec[i][field])
        for j in range(3):
            if j != i:
                c.check(not rec[j].tobytes().strip(b"\0"), "%s wrote into a neighbouring record" % to)
        d = cshogi.Board()
        getattr(d, set_)(np.asarray(rec[i][field]))
        c.eq(pos_obs(d)[1:], pos_obs(b)[1:], lambda: "%s through a %s record of %s" % (set_, dt, r.sfen()))
        m = c.pick(ms)
        e = enc(r, m)
        if dt == "HuffmanCodedPosAndEval":
            rec[i]["bestMove16"] = cshogi.move16(e)
            c.eq(d.move_from_move16(int(rec[i]["bestMove16"])), e, "bestMove16 of " + usi(m))
        else:
            rec[i]["move"] = cshogi.move16_to_psv(cshogi.move16(e))
            c.eq(d.move_from_psv(int(rec[i]["move"])), e, "psv move of " + usi(m))
            c.eq(d.push_psv(int(rec[i]["move"])), e, "push_psv")
            c.eq(d.sfen().split()[:3], r.copy().apply(m).sfen().split()[:3], "the position after push_psv")
    c.nontrivial(r.key())


def t_moves(c):
    """16-bit codes: bit layout, bijection on the legal moves"""
    r = gen.position(c, max_len=80)
    b = cshogi.Board(r.sfen())
    ms = r.legal()
    seen = {}
    for m in ms:
        e = enc(r, m)
        m16 = cshogi.move16(e)
        c.eq(m16, e & 0xffff, "move16 of " + usi(m))
        p = cshogi.move16_to_psv(m16)
        want = m_to(m) | ((m_from(m) - 80) << 7 | 1 << 14 if m_drop(m) else m_from(m) << 7 | m_pro(m) << 15)
        c.eq(p, want, lambda: "move16_to_psv of " + usi(m))
        c.eq(cshogi.move16_from_psv(p), m16, lambda: "move16_from_psv of " + usi(m))
        c.eq(b.move_from_psv(p), e, lambda: "move_from_psv of %s in %s" % (usi(m), r.sfen()))
        c.eq(b.move_from_move16(m16), e, lambda: "move_from_move16 of %s in %s" % (usi(m), r.sfen()))
        c.check(seen.setdefault(p, m) == m, "two legal moves share a psv code")
    if ms:
        c.note(r.sfen())
        c.nontrivial(r.key())


TESTS = [Test("pack", t_pack, 6000), Test("records", t_records, 2500), Test("moves", t_moves, 3000)]
