"""The history of a game and its repetition verdicts, from the rules."""
import cshogi
import gen
from ref import Ref, mv, m_to, m_from, m_drop

NAMES = ("REPETITION_DRAW", "REPETITION_WIN", "REPETITION_LOSE", "REPETITION_SUPERIOR", "REPETITION_INFERIOR", "NOT_REPETITION")


class Hist:
    """position keys, boards, hands and check flags of every ply since the last pass"""

    def __init__(self, r):
        self.r = r
        self.plies = [(r.key(), r.board_key() + bytes([r.turn]), r.hands(), r.in_check())]

    def dup(self):
        h = Hist(self.r.copy())
        h.plies = list(self.plies)
        return h

    def play(self, m):
        self.r = self.r.copy().apply(m)
        r = self.r
        self.plies.append((r.key(), r.board_key() + bytes([r.turn]), r.hands(), r.in_check()))

    def verdict(self, limit=None):
        n = len(self.plies) - 1
        e = n if not limit else min(n, limit)
        key, bk, hands, _ = self.plies[n]
        stm = self.r.turn
        for i in range(4, e + 1, 2):
            k2, b2, h2, _ = self.plies[n - i]
            if k2 == key:
                # checks given by the side to move: positions where the opponent is to move, n-1, n-3, ...
                mine = all(self.plies[n - j][3] for j in range(1, i, 2))
                theirs = all(self.plies[n - j][3] for j in range(0, i, 2))
                if mine:
                    return cshogi.REPETITION_LOSE
                if theirs:
                    return cshogi.REPETITION_WIN
                return cshogi.REPETITION_DRAW
            if b2 == bk:
                a, z = hands[stm], h2[stm]
                if all(x >= y for x, y in zip(a, z)):
                    return cshogi.REPETITION_SUPERIOR
                if all(x <= y for x, y in zip(a, z)):
                    return cshogi.REPETITION_INFERIOR
        return cshogi.NOT_REPETITION


def name(v):
    for n in NAMES:
        if getattr(cshogi, n) == v:
            return n
    return repr(v)


STARTS = [
    # perpetual checks, sacrifices into the hand, and kings that shuffle
    "4k4/9/9/9/9/9/9/5R3/4K4 b r2b4g4s4n4l18p 1",
    "8k/9/9/9/9/9/9/9/K6R1 b RBGSbg 1",
    "k8/9/3B5/9/9/9/9/9/4K4 b RB2G4Pr2g4p 1",
    "4k4/4r4/9/9/9/9/9/4R4/4K4 w 2P2p 1",
    "3sks3/9/9/9/5+R3/9/9/3S1S3/4K4 b GNLPgnlp 1",
    "ln1gk1snl/1r4gb1/p1pppp2p/6pR1/1p7/2P6/PP1PPPP1P/1BG6/LNS1KGSNL w Pp 12",
    "4k4/9/4G4/9/9/9/9/9/4K3R b Pp 1",
]

assert not any(Ref(s).in_check(Ref(s).turn ^ 1) for s in STARTS)
assert all(gen.stock_ok(Ref(s)) for s in STARTS)


def occurrences(plies):
    """how often the last position occurs"""
    k = plies[-1][0]
    return sum(p[0] == k for p in plies)


def fourfold(plies, turn):
    """The verdict of the rules when the last position has occurred four times: None if it has not; otherwise the
    acceptable verdicts.  One side's moves all being checks since the first occurrence is perpetual check; being so since
    the last occurrence only is left open."""
    k = plies[-1][0]
    at = [i for i, p in enumerate(plies) if p[0] == k]
    if len(at) < 4:
        return None
    n = len(plies) - 1
    out = []
    for first in (at[-4], at[-2]):
        # positions in which the side to move stands in check came from the opponent's checks
        theirs = all(plies[j][3] for j in range(n, first, -2))
        mine = all(plies[j][3] for j in range(n - 1, first, -2))
        out.append(cshogi.REPETITION_LOSE if mine else cshogi.REPETITION_WIN if theirs else cshogi.REPETITION_DRAW)
    return set(out)


def repeating(c, h, log, pct):
    """a legal move, very likely one that repeats earlier positions"""
    r = h.r
    ms = r.legal()
    if not ms:
        return None
    if c.prob(pct):
        if len(h.plies) > 4 and h.plies[-1][0] == h.plies[-5][0] and log[-4] in ms:
            return log[-4]
        if len(log) >= 2 and not m_drop(log[-2]):
            back = mv(m_to(log[-2]), m_from(log[-2]))
            if back in ms:
                return back
    if c.prob(40):
        ch = r.checks()
        if ch:
            return c.pick(ch)
    return gen.pick_move(c, r, ms)
