"""Generators of shogi positions, moves and games, built on the reference model."""
from ref import Ref, START, HAND_TYPES, HAND_SLOT, usi, mv, m_to, m_from, m_drop, m_pro
from pbt import Discard

TOTAL = {1: 18, 2: 4, 3: 4, 4: 4, 5: 2, 6: 2, 7: 4}

HANDICAPS = [
    START,
    "lnsgkgsn1/1r5b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL w - 1",
    "lnsgkgsnl/1r7/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL w - 1",
    "lnsgkgsnl/7b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL w - 1",
    "lnsgkgsnl/9/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL w - 1",
    "1nsgkgsn1/9/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL w - 1",
    "2sgkgs2/9/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL w - 1",
]

# middle- and endgame positions, tsume problems and corner cases to start games from
SEEDS = [
    START,
    "l6nl/5+P1gk/2np1S3/p1p4Pp/3P2Sp1/1PPb2P1P/P5GS1/R8/LN4bKL w RGgsn5p 1",
    "R8/2K1S1SSk/4B4/9/9/9/9/9/1L1L1L3 b RBGSNLP3g3n17p 1",
    "8l/1l+R2P3/p2pBG1pp/kps1p4/Nn1P2G2/P1P1P2PP/1PS6/1KSG3+r1/LN2+p3L w Sbgn3p 124",
    "lnsgk1snl/1r4gb1/p1pppp2p/6pR1/1p7/2P6/PP1PPPP1P/1BG6/LNS1KGSNL w Pp 12",
    "4k4/9/4P4/9/9/9/9/9/4K4 b RB4G4S4N4L17Prb 1",
    "l3k2G1/1+B4gPl/n2+Nppsp1/pP1R4p/2P2K3/P4PP1P/2+r1P4/6G2/LN5NL b BG2S3Ps2p 1",
    "3+P1+P1+P+P/2K+P2+P1+P/1+P+P+S1+S3/9/9/9/3+s1+s1+p+p/+p+p2k1+p2/+p1+p3+p2 b 2R2B4G4N4L 1",
]


def rank_of(c, sq):
    return 8 - sq % 9 if c else sq % 9


def dead(t, c, sq):
    r = rank_of(c, sq)
    return (t in (1, 2) and r == 0) or (t == 3 and r <= 1)


def around(sq, d=1):
    x, y = divmod(sq, 9)
    return [a * 9 + b for a in range(max(0, x - d), min(8, x + d) + 1) for b in range(max(0, y - d), min(8, y + d) + 1)
            if (a, b) != (x, y)]


def _square(c):
    """mostly anywhere, often on an edge"""
    if c.prob(25):
        return c.pick((0, 8, 72, 80, 4, 76, 36, 44, 1, 7, 9, 17, 63, 71, 73, 79))
    return c.draw(80)


def placement(c, no_king_of=(), dense=None, legal_only=True, nifu_ok=False):
    """A random placement: kings, then pieces sprinkled over board and hands.  The side not to move is never in check
    (its checkers are taken off the board)."""
    board = [0] * 81
    hands = [[0] * 7, [0] * 7]
    turn = c.draw(1)
    kings = [-1, -1]
    for col in (0, 1):
        if col in no_king_of:
            continue
        for _ in range(20):
            sq = _square(c)
            if board[sq] or (kings[0] >= 0 and sq in around(kings[0])):
                continue
            board[sq] = 8 + 16 * col
            kings[col] = sq
            break
        else:
            raise Discard("kings")
    mode = c.draw(5) if dense is None else dense
    pawn_files = [set(), set()]
    for t, n in TOTAL.items():
        if mode == 0:
            k = min(n, c.draw(2))
        elif mode == 1:
            k = c.draw(n)
        elif mode == 2:
            k = n
        elif mode == 3:
            k = n if t != 1 else c.draw(6)
        else:
            k = c.draw(min(n, 4))
        for _ in range(k):
            col = c.draw(1)
            where = c.draw(9)
            if where >= 7:
                hands[col][HAND_SLOT[t]] += 1
                continue
            if where >= 4 and kings[0] + kings[1] > -2:
                ks = [q for q in kings if q >= 0]
                sq = c.pick(around(c.pick(ks), 2))
            else:
                sq = c.draw(80)
            pro = t != 7 and c.prob(35)
            if board[sq]:
                continue
            if not pro:
                if dead(t, col, sq):
                    continue
                if t == 1 and not nifu_ok:
                    if sq // 9 in pawn_files[col]:
                        continue
                    pawn_files[col].add(sq // 9)
            board[sq] = t + (8 if pro else 0) + 16 * col
    if c.prob(6):
        # a hoard: one side has everything that is left of some kinds in hand
        col = c.draw(1)
        for t, n in TOTAL.items():
            if c.prob(40):
                used = hands[0][HAND_SLOT[t]] + hands[1][HAND_SLOT[t]] + sum(1 for p in board if p and p & 15 in (t, t + 8 if t < 7 else t))
                hands[col][HAND_SLOT[t]] += max(0, n - used)
    r = Ref.make(board, hands, turn, 1)
    opp = turn ^ 1
    k = r.king(opp)
    if k >= 0:
        for sq in range(81):
            p = r.s.b[sq]
            if p and p >> 4 == turn and p & 15 != 8:
                r.s.b[sq] = 0
                # does removing it reduce the attackers of the opponent king?
                before = None
                r.s.b[sq] = p
                before = r.attackers(k, turn)
                if before == 0:
                    break
                r.s.b[sq] = 0
                if r.attackers(k, turn) >= before:
                    r.s.b[sq] = p
        if r.attackers(k, turn):
            raise Discard("opponent in check")
    return r


def pick_move(c, r, moves=None, bias=None):
    """A legal move of r, biased towards captures, promotions, drops, checks or king moves."""
    if moves is None:
        moves = r.legal()
    if not moves:
        return None
    if bias is None:
        bias = c.draw(7)
    b = r.s.b
    if bias == 1:
        s = [m for m in moves if not m_drop(m) and b[m_to(m)]]
    elif bias == 2:
        s = [m for m in moves if m_pro(m)]
    elif bias == 3:
        s = [m for m in moves if m_drop(m)]
    elif bias == 4:
        s = r.checks()
    elif bias == 5:
        s = [m for m in moves if not m_drop(m) and b[m_from(m)] & 15 == 8]
    else:
        s = moves
    return c.pick(s or moves)


def number(c, top=400):
    """a move number: usually of a game, sometimes far beyond any"""
    return c.int(1, top) if not c.prob(8) else c.pick((511, 512, 1000, 1023, 1024, 1025, 2000, 4096, 9999, 10000, 32767, 32768, 65535, 65536, 99999, 1000000))


def stretch(c, max_len):
    """once in a while a game of unusual length"""
    return 1500 if max_len >= 25 and c.draw(299) == 299 else max_len


def playout(c, start=None, max_len=120, bias=None, stop_pct=None):
    """Plays random legal moves; returns (start sfen, [moves], final Ref)."""
    if start is None:
        start = c.weighted([(6, START), (2, "seed"), (1, "handicap")])
        if start == "seed":
            start = c.pick(SEEDS)
        elif start == "handicap":
            start = c.pick(HANDICAPS)
    if start == START and max_len >= 100 and bias is None and stop_pct is None and c.prob(3):
        return robbery(c, start, c.draw(max_len))
    r = Ref(start)
    max_len = stretch(c, max_len)
    n = c.draw(max_len) if stop_pct is None else max_len
    moves = []
    for _ in range(n):
        if stop_pct is not None and c.prob(stop_pct):
            break
        m = pick_move(c, r, bias=bias)
        if m is None:
            break
        r.apply(m)
        moves.append(m)
    return start, moves, r


def robbery(c, start=START, max_len=300):
    """A game in which one side takes whatever it can, pawns first, and drops nothing, and the other hardly takes
    anything but pawns, and those it drops again: hands that random games do not reach."""
    r = Ref(start)
    thief = c.draw(1)
    moves = []
    for _ in range(max_len):
        ms = r.legal()
        if not len(ms):
            break
        b = r.s.b
        take = [m for m in ms if not m_drop(m) and b[m_to(m)]]
        quiet = [m for m in ms if not m_drop(m) and not b[m_to(m)]]
        if r.turn == thief:
            pool = [m for m in take if b[m_to(m)] & 15 == 1] or take or quiet
        else:
            # what it takes, pawns alone, it gives back
            pool = [m for m in ms if m_drop(m)] or c.prob(60) and [m for m in take if b[m_to(m)] & 7 == 1] or quiet
        m = c.pick(pool or list(ms))
        r.apply(m)
        moves.append(m)
    return start, moves, r


def position(c, kings=True, max_len=150):
    """A position of mixed origin; returns a Ref."""
    k = c.draw(9)
    if k < 4:
        return playout(c, max_len=max_len)[2]
    if k < 8 or kings:
        return placement(c)
    return placement(c, no_king_of=(c.draw(1),))


def tsume(c, attacker_king=True):
    """The king of the side not to move, the attacker's pieces near it: often a short forced mate."""
    board = [0] * 81
    hands = [[0] * 7, [0] * 7]
    turn = c.draw(1)
    opp = turn ^ 1
    left = dict(TOTAL)
    # defender's king near its own edge, often
    x = c.draw(8)
    y = c.weighted([(5, 0), (4, 1), (2, 2), (1, 4), (1, 7)])
    k = x * 9 + (y if opp == 1 else 8 - y)
    board[k] = 8 + 16 * opp
    if attacker_king:
        for _ in range(10):
            q = c.draw(80)
            if not board[q] and q not in around(k, 2):
                board[q] = 8 + 16 * turn
                break
    near = around(k, 2)
    pf = [set(), set()]

    def put(col, t, sq, pro):
        if board[sq] or left[t] == 0:
            return
        if not pro:
            if dead(t, col, sq):
                return
            if t == 1:
                if sq // 9 in pf[col]:
                    return
                pf[col].add(sq // 9)
        board[sq] = t + (8 if pro and t != 7 else 0) + 16 * col
        left[t] -= 1

    for _ in range(c.int(1, 6)):
        put(turn, c.int(1, 7), c.pick(near) if c.prob(70) else c.draw(80), c.prob(40))
    for _ in range(c.int(0, 6)):
        put(opp, c.int(1, 7), c.pick(near) if c.prob(80) else c.draw(80), c.prob(15))
    for _ in range(c.int(0, 4)):
        t = c.int(1, 7)
        if left[t]:
            left[t] -= 1
            hands[turn][HAND_SLOT[t]] += 1
    if c.prob(40):
        for _ in range(c.int(1, 5)):
            t = c.int(1, 7)
            if left[t]:
                left[t] -= 1
                hands[opp][HAND_SLOT[t]] += 1
    if c.prob(30):
        # tsume convention: everything left is in the defender's hand
        for t, n in left.items():
            hands[opp][HAND_SLOT[t]] += n
    r = Ref.make(board, hands, turn, 1)
    if r.in_check(opp):
        # take the checking pieces off
        for sq in range(81):
            p = r.s.b[sq]
            if p and p >> 4 == turn and p & 15 != 8:
                before = r.attackers(k, turn)
                r.s.b[sq] = 0
                if r.attackers(k, turn) >= before:
                    r.s.b[sq] = p
    if r.in_check(opp):
        raise Discard("opponent in check")
    return r


def siege(c):
    """A king alone with a few shields against a slider far away, small pieces near and a hand of different small pieces:
    squares met again with other hands, interpositions, sacrifices."""
    board = [0] * 81
    hands = [[0] * 7, [0] * 7]
    turn = c.draw(1)
    opp = turn ^ 1
    left = dict(TOTAL)
    y = c.weighted([(5, 0), (4, 1), (2, 2), (1, 4)])
    k = c.draw(8) * 9 + (y if opp == 1 else 8 - y)
    board[k] = 8 + 16 * opp
    near = around(k, 2)
    pf = [set(), set()]

    def put(col, t, sq, pro):
        if board[sq] or left[t] == 0:
            return
        if not pro:
            if dead(t, col, sq):
                return
            if t == 1:
                if sq // 9 in pf[col]:
                    return
                pf[col].add(sq // 9)
        board[sq] = t + (8 if pro and t != 7 else 0) + 16 * col
        left[t] -= 1

    for _ in range(c.int(1, 2)):
        put(turn, c.pick((2, 5, 6, 5, 6)), c.draw(80), c.prob(30))
    for _ in range(c.int(0, 3)):
        put(turn, c.pick((1, 1, 3, 4, 7)), c.pick(near), c.prob(40))
    for _ in range(c.int(0, 3)):
        put(opp, c.pick((1, 1, 2, 3, 4)), c.pick(near), False)
    if c.prob(60):
        for f in range(9):
            if c.prob(50):
                put(opp, 1, f * 9 + ((6 if opp == 0 else 2) if c.prob(50) else c.draw(8)), False)
    for _ in range(c.int(2, 4)):
        t = c.pick((1, 2, 3, 4, 7, 1, 2, 4))
        if left[t] and (not hands[turn][HAND_SLOT[t]] or c.prob(30)):
            left[t] -= 1
            hands[turn][HAND_SLOT[t]] += 1
    if c.prob(30):
        t = c.int(1, 4)
        if left[t]:
            left[t] -= 1
            hands[opp][HAND_SLOT[t]] += 1
    r = Ref.make(board, hands, turn, 1)
    if r.in_check(opp):
        for sq in range(81):
            p = r.s.b[sq]
            if p and p >> 4 == turn and p & 15 != 8:
                before = r.attackers(k, turn)
                r.s.b[sq] = 0
                if r.attackers(k, turn) >= before:
                    r.s.b[sq] = p
    if r.in_check(opp):
        raise Discard("opponent in check")
    return r


WORDS = ("a", "Z", "7", " ", "-", "+", "'", "*", ":", "%", "$", "N", "P", "T", "#", "&", "/", ",", ".", "(", ")", "=", "\"", "\\", "歩", "▲", "△", "手",
         "☗", "駒", "é", "ß", "я", "😀", "　", "０", "１", "同", "成", "打", "右", "ー", "〜", "{", "}", "[", "]", "<", ">", "|", "_")


def text(c, lo=0, hi=12, words=WORDS, strip=True):
    """a line of text"""
    s = "".join(c.pick(words) for _ in range(c.int(lo, hi)))
    if strip:
        s = s.strip(" 　")
    return s


def game(c, max_len=40, starts=None):
    """(start sfen, moves, refs before every move + final)"""
    k = c.weighted([(5, START), (2, "seed"), (1, "handicap"), (2, "place")])
    if k == "seed":
        k = c.pick(SEEDS)
    elif k == "handicap":
        k = c.pick(HANDICAPS)
        if c.prob(25):
            # the other side begins
            k = k.replace(" w ", " x ").replace(" b ", " w ").replace(" x ", " b ")
    elif k == "place":
        k = placement(c).sfen()
    if starts is not None:
        k = c.pick(starts)
    r = Ref(k)
    refs = [r.copy()]
    moves = []
    for _ in range(c.draw(stretch(c, max_len))):
        m = pick_move(c, r)
        if m is None:
            break
        moves.append(m)
        r.apply(m)
        refs.append(r.copy())
    return k, moves, refs


def rays(sq):
    """the squares from sq outwards, in the eight directions"""
    out = []
    for dx in (-1, 0, 1):
        for dy in (-1, 0, 1):
            if dx or dy:
                l = []
                x, y = sq // 9 + dx, sq % 9 + dy
                while 0 <= x < 9 and 0 <= y < 9:
                    l.append(x * 9 + y)
                    x, y = x + dx, y + dy
                out.append(((dx, dy), l))
    return out


def stock_ok(r):
    n = [0] * 9
    for p in r.s.b:
        if p:
            t = p & 15
            n[t - 8 if t > 8 else t] += 1
    for i, t in enumerate((1, 2, 3, 4, 7, 5, 6)):
        n[t] += r.s.h[i] + r.s.h[7 + i]
    if any(n[t] > TOTAL[t] for t in TOTAL):
        return False
    for q in range(81):
        p = r.s.b[q]
        if p and dead(p & 15, p >> 4, q):
            return False
    for f in range(9):
        for col in (0, 16):
            if sum(1 for q in range(f * 9, f * 9 + 9) if r.s.b[q] == 1 + col) > 1:
                return False
    return True


def disturb(c, r, m):
    """r with a small change aimed at what makes move m (a mate, say) work; None when the change is no position"""
    from ref import m_to, m_from, m_drop
    n = r.copy()
    turn = r.turn
    opp = turn ^ 1
    b = n.s.b
    k = r.king(opp)
    to = m_to(m)
    how = c.draw(7)
    if how <= 1 and not m_drop(m):
        # the mover is pinned, or would be if the line were not blocked
        fr = m_from(m)
        rs = dict(rays(fr))
        d = c.pick([d for d in rs if rs[d] and rs[(-d[0], -d[1])]] or [None])
        if d is None:
            return None
        a = rs[d][c.draw(min(3, len(rs[d]) - 1))]
        z = rs[(-d[0], -d[1])][c.draw(min(3, len(rs[(-d[0], -d[1])]) - 1))]
        old = r.king(turn)
        if old >= 0:
            b[old] = 0
        if k in (a, z) or to in (a, z) and c.prob(80):
            return None
        b[a] = 8 + 16 * turn
        b[z] = c.pick((6, 14) if 0 in d else (5, 13)) + 16 * opp
        if d[0] == 0 and c.prob(25):
            b[z] = 2 + 16 * opp
    elif how == 2:
        # one more defender with a say about the square
        q = c.pick(around(to, 2)) if c.prob(60) else c.pick([x for _, l in rays(to) for x in l])
        if b[q]:
            return None
        b[q] = c.pick((1, 2, 3, 4, 5, 6, 7, 9, 12, 13, 14)) + 16 * opp
    elif how == 3:
        # one attacker or defender fewer
        q = c.pick([x for x in range(81) if b[x] and b[x] & 15 != 8 and (m_drop(m) or x != m_from(m))] or [k])
        if q == k:
            return None
        b[q] = 0
    elif how == 4:
        # another kind of piece in one place
        q = c.pick([x for x in range(81) if b[x] and b[x] & 15 != 8] or [k])
        if q == k:
            return None
        b[q] = c.pick((1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14)) + (b[q] & 16)
    elif how == 5:
        # somebody changes sides
        q = c.pick([x for x in range(81) if b[x] and b[x] & 15 != 8 and (m_drop(m) or x != m_from(m))] or [k])
        if q == k:
            return None
        b[q] ^= 16
    elif how == 6:
        # a piece stands elsewhere
        q = c.pick([x for x in range(81) if b[x] and x != k] or [k])
        if q == k:
            return None
        z = c.pick(around(q, 1)) if c.prob(50) else c.draw(80)
        if b[z]:
            return None
        b[z], b[q] = b[q], 0
    else:
        # a defender that is itself pinned to its king
        rs = [(d, l) for d, l in rays(k) if len(l) >= 2]
        d, l = c.pick(rs)
        i = c.draw(min(1, len(l) - 2))
        j = c.int(i + 1, len(l) - 1)
        if any(b[x] and b[x] & 15 == 8 for x in (l[i], l[j])):
            return None
        for x in l[:j]:
            if b[x] and b[x] & 15 != 8:
                b[x] = 0
        b[l[i]] = c.pick((1, 2, 3, 4, 5, 6, 7, 9, 13, 14)) + 16 * opp
        b[l[j]] = c.pick((6, 14) if 0 in d else (5, 13)) + 16 * turn
    if not stock_ok(n) or n.king(opp) < 0 or n.in_check(opp):
        return None
    return n


def net(c, far=30, pawn=False):
    """(position, move): a mate in one (with pawn: by a dropped pawn, which is not allowed) built around a check by any piece, from and to anywhere: what still evades it is
    blocked, guarded against, pinned or taken away until nothing does."""
    from ref import m_to, m_from, m_drop
    turn = c.draw(1)
    opp = turn ^ 1
    k = c.draw(80)
    board = [0] * 81
    board[k] = 8 + 16 * opp
    hands = [[0] * 7, [0] * 7]
    for _ in range(10):
        q = c.draw(80)
        if not board[q] and q not in around(k, 2):
            board[q] = 8 + 16 * turn
            break
    t = c.pick((1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14))
    drop = t <= 7 and t != 1 and c.prob(30)
    if pawn:
        t, drop = 1, True
    r = None
    # opened: the piece leaves a line on which a slider behind it then gives check too, or pins a defender of the target
    opened = 0 if drop else c.weighted([(5, 0), (2, 1), (2, 2)])
    for _ in range(12):
        b = list(board)
        h = [list(hands[0]), list(hands[1])]
        if drop:
            h[turn][HAND_SLOT[t]] = 1
        else:
            q = c.draw(80)
            if opened:
                (dx, dy), l = c.pick([z for z in rays(k) if len(z[1]) > opened])
                i = opened - 1 + c.draw(min(2, len(l) - opened - 1))
                q, z = l[i], l[i + 1 + c.draw(min(2, len(l) - i - 2))]
                if b[z]:
                    continue
                sl = (6, 14) if dx == 0 or dy == 0 else (5, 13)
                if dx == 0 and (dy > 0) == (turn == 0):
                    sl += (2, 2)
                b[z] = c.pick(sl) + 16 * turn
                if opened == 2:
                    b[l[c.draw(i - 1)]] = c.pick((3, 4, 4, 7, 7, 5, 6, 9, 12, 13, 14)) + 16 * opp
            if b[q] or dead(t, turn, q):
                continue
            b[q] = t + 16 * turn
        victim = -1
        if not drop and c.prob(50):
            # the check may take something: often what stood between
            l = [l for _, l in rays(k) if q in l]
            victim = l[0][c.draw(min(2, len(l[0]) - 1))] if l and c.prob(60) else c.pick(around(k, 1))
            if not b[victim]:
                b[victim] = c.pick((1, 2, 3, 4, 7, 5, 6, 9, 12, 13, 14)) + 16 * opp
        r = Ref.make(b, h, turn, 1)
        if r.in_check(opp) or r.in_check(turn) or not stock_ok(r):
            continue
        ch = [m for m in r.checks() if m_drop(m) or b[m_from(m)] & 15 != 8]
        near = [m for m in ch if m_to(m) in around(k, 2)]
        if near and not c.prob(far):
            ch = near
        ch = [m for m in ch if m_to(m) == victim] or ch
        if opened == 1:
            ch = [m for m in ch if (lambda n: n.attackers(k, turn) > 1)(r.copy().apply(m))] or ch
        if opened == 2:
            # a square that the piece in the line watches
            ch = [m for m in ch if r.attackers(m_to(m), opp) > (m_to(m) in around(k, 1))] or ch
        if ch:
            break
    else:
        raise Discard("no check")
    if not r or not ch:
        raise Discard("no check")
    m = c.pick(ch)
    to = m_to(m)

    def fine(x):
        if x.in_check(opp) or x.in_check(turn) or not (pawn or x.is_legal(m)) or not stock_ok(x):
            return False
        return x.copy().apply(m).in_check()

    def guard(x, q):
        """one more attacker of q"""
        for _ in range(4):
            s = c.pick(around(q, 2)) if c.prob(75) else c.draw(80)
            if x.s.b[s] or s == to:
                continue
            y = x.copy()
            y.s.b[s] = c.pick((1, 2, 3, 4, 7, 5, 6, 9, 12, 13, 14, 7)) + 16 * turn
            if y.attackers(q, turn) > x.attackers(q, turn) and fine(y):
                return y
        return None

    for _ in range(45):
        n = r.copy().apply(m)
        ev = n.legal()
        if not ev:
            break
        e = c.pick(ev)
        y = None
        if not m_drop(e) and m_from(e) == k:
            q = m_to(e)
            if q == to or r.s.b[q] or c.prob(45):
                y = guard(r, q)
            else:
                y = r.copy()
                y.s.b[q] = c.pick((1, 2, 3, 4, 7, 1, 3, 5, 6, 9)) + 16 * opp
        elif m_drop(e):
            y = r.copy()
            for i in range(7):
                y.s.h[7 * opp + i] = 0
        else:
            f = m_from(e)
            y = r.copy()
            if c.prob(40):
                # pinned instead of taken away
                d = [l for dd, l in rays(k) if f in l]
                if d and all(not r.s.b[x] for x in d[0][:d[0].index(f)]):
                    rest = d[0][d[0].index(f) + 1:]
                    if rest:
                        z = rest[c.draw(min(2, len(rest) - 1))]
                        if not y.s.b[z] and z != to:
                            straight = z // 9 == k // 9 or z % 9 == k % 9
                            y.s.b[z] = c.pick((6, 14) if straight else (5, 13)) + 16 * turn
                else:
                    y.s.b[f] = 0
            else:
                y.s.b[f] = 0
        if y is not None and fine(y):
            r = y
    else:
        if r.copy().apply(m).any_legal():
            raise Discard("no mate")
    if c.prob(40):
        # what the defender holds does not matter against a contact check
        for i, tt in enumerate((1, 2, 3, 4, 7, 5, 6)):
            y = r.copy()
            y.s.h[7 * opp + i] += c.draw(2)
            if fine(y) and not y.copy().apply(m).any_legal():
                r = y
    return r, m


def counter(c):
    """(position, move): a check that nearly mates, one of the few answers to which checks the attacker in turn"""
    r, m = net(c, far=60)
    turn = r.turn
    opp = turn ^ 1
    for _ in range(12):
        n = disturb(c, r, m)
        if n is None or not n.is_legal(m):
            continue
        n = n.copy()
        x = n.copy().apply(m)
        ev = x.legal()
        if not x.in_check() or not ev or len(ev) > 4:
            continue
        q = x.copy().apply(c.pick(ev))
        old = n.king(turn)
        free = [s for s in range(81) if not n.s.b[s] and not x.s.b[s] and not q.s.b[s]
                and not n.attackers(s, opp) and q.attackers(s, opp)]
        if not free:
            continue
        if old >= 0:
            n.s.b[old] = 0
        n.s.b[c.pick(free)] = 8 + 16 * turn
        if n.in_check() or n.in_check(opp) or not n.is_legal(m) or not stock_ok(n):
            continue
        y = n.copy().apply(m)
        if y.in_check() and any(y.copy().apply(e).in_check() for e in y.legal()):
            return n, m
    raise Discard("no counter check")


def retro(c, n):
    """a position in check whose few answers include a king's move to n, or None: what a longer search meets one ply earlier"""
    opp = n.turn ^ 1
    k = n.king(opp)
    if k < 0 or n.in_check(opp):
        return None
    best = None
    for s in c.shuffle([q for q in around(k, 1) if q != k and not n.s.b[q]]):
        x = n.copy()
        x.s.b[k] = 0
        x.s.b[s] = 8 + 16 * opp
        x.s.turn = opp
        if x.in_check(opp ^ 1):
            continue
        if not x.in_check():
            # a piece that gives check there, and leaves the other square alone
            y = x
            for _ in range(6):
                z = y.copy()
                q = c.pick([q for q in around(s, 2) if not y.s.b[q] and q != k])
                t = c.pick((1, 2, 3, 4, 5, 6, 7, 9, 12, 13, 14))
                if dead(t, opp ^ 1, q):
                    continue
                z.s.b[q] = t + 16 * (opp ^ 1)
                if z.in_check() and z.is_legal(mv(s, k)) and stock_ok(z):
                    x = z
                    break
        if not x.in_check() or not x.is_legal(mv(s, k)) or not stock_ok(x):
            continue
        ev = len(x.legal())
        if best is None or ev < best[0]:
            best = (ev, x)
    return best and best[1]


def perpetual(c):
    """(position, [check, answer, check, answer]) after which the position is there again, the king hardly having a choice"""
    for _ in range(14):
        turn = c.draw(1)
        opp = turn ^ 1
        board = [0] * 81
        k = c.pick((0, 8, 72, 80, 4, 76, 36, 44)) if c.prob(50) else c.draw(80)
        board[k] = 8 + 16 * opp
        for _ in range(c.int(0, 6)):
            q = c.pick(around(k, 2))
            t = c.pick((1, 2, 3, 4, 7, 5, 6, 9, 12))
            if not board[q] and not dead(t, opp, q):
                board[q] = t + 16 * opp
        for _ in range(c.int(1, 4)):
            q = c.pick(around(k, 2)) if c.prob(60) else c.draw(80)
            t = c.pick((4, 7, 5, 6, 13, 14, 14, 13, 6, 9, 1))
            if not board[q] and not dead(t, turn, q):
                board[q] = t + 16 * turn
        if c.prob(60):
            q = c.draw(80)
            if not board[q] and q not in around(k, 1):
                board[q] = 8 + 16 * turn
        r = Ref.make(board, [[0] * 7, [0] * 7], turn, 1)
        if r.in_check() or r.in_check(opp) or not stock_ok(r):
            continue
        for m in r.checks():
            if m_drop(m) or m_pro(m) or r.s.b[m_to(m)]:
                continue
            x = r.copy().apply(m)
            ev = x.legal()
            if not ev or len(ev) > 2:
                continue
            for e in ev:
                if m_drop(e) or m_pro(e) or x.s.b[m_to(e)]:
                    continue
                y = x.copy().apply(e)
                if y.in_check():
                    continue
                m2 = mv(m_to(m), m_from(m))
                e2 = mv(m_to(e), m_from(e))
                if m2 not in y.checks():
                    continue
                z = y.copy().apply(m2)
                if e2 in z.legal() and not z.copy().apply(e2).in_check():
                    return r, [m, e, m2, e2]
    raise Discard("no perpetual check")


def stepback(c):
    """the side to move is in check by a slider; its king, stepping back along the line (which is not allowed), would open a line of
    its own side's at the other king and leave that one without an answer"""
    turn = c.draw(1)
    opp = turn ^ 1
    e = c.pick((0, 8, 72, 80)) if c.prob(50) else c.draw(80)
    board = [0] * 81
    board[e] = 8 + 16 * opp
    (dx, dy), l = c.pick([z for z in rays(e) if len(z[1]) > 2] or [((0, 0), [])])
    if not l:
        raise Discard("no line")
    i = c.int(1, len(l) - 2)
    k = l[i]
    board[k] = 8 + 16 * turn
    sl = (6, 14) if dx == 0 or dy == 0 else (5, 13)
    board[l[c.int(i + 1, len(l) - 1)]] = c.pick(sl) + 16 * turn
    # the checker on another line of the king's, and a free square behind the king
    opts = []
    for (ax, ay), lk in rays(k):
        if not lk or (ax, ay) in ((dx, dy), (-dx, -dy)):
            continue
        bx, by = k // 9 - ax, k % 9 - ay
        if 0 <= bx < 9 and 0 <= by < 9 and not board[bx * 9 + by]:
            opts.append(((ax, ay), lk, bx * 9 + by))
    if not opts:
        raise Discard("no line")
    (ax, ay), lk, back = c.pick(opts)
    q = c.pick(lk)
    if board[q] or any(board[s] for s in lk[:lk.index(q)]):
        raise Discard("blocked")
    sl = (6, 14) if ax == 0 or ay == 0 else (5, 13)
    board[q] = c.pick(sl) + 16 * opp
    block = set(lk[:lk.index(q)]) | {back} | set(l[:i + 1])
    best = None
    for _ in range(30):
        b = list(board)
        for _ in range(c.int(1, 7)):
            s = c.pick(around(e, 1)) if c.prob(75) else c.pick(around(e, 2))
            t = c.pick((1, 2, 3, 4, 7, 9, 12, 4, 3, 2))
            col = opp if c.prob(70) else turn
            if not b[s] and s not in block and not dead(t, col, s):
                b[s] = t + 16 * col
        r = Ref.make(b, [[0] * 7, [0] * 7], turn, 1)
        if not stock_ok(r) or r.in_check(opp) or not r.in_check():
            continue
        x = r.copy()
        x.s.b[k] = 0
        x.s.b[back] = 8 + 16 * turn
        x.s.turn = opp
        if not x.in_check():
            continue
        ev = len(x.legal())
        if best is None or ev < best[0]:
            best = (ev, r)
        if ev == 0:
            break
        # keep what was built when it helps
        if ev <= best[0]:
            board = b
    if best is None:
        raise Discard("nothing")
    return best[1]
