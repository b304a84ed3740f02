"""A board is a faithful undo stack: pop restores exactly, copies are independent, the history is what was played."""
import copy as copymod
import gc
import numpy as np
import cshogi
from pbt import Test
import gen
from ref import Ref, usi, START
from hist import Hist, repeating
from util import enc, csa, obs, moves_of, sqname

RULE = ("a case is a history of operations (every kind of push, pass, pop, pop_pass, the three ways of copying, the setters, "
        "reset, dropping a board, boards moved between containers) over up to four live boards, each shadowed by a stack of "
        "recorded observations and reference positions. Non-trivial: the history took a move back after a copy or a pass.")


class Shadow:
    """what a board must look like: the reference position, and for every ply the observation made before it"""

    def __init__(self, board, r):
        self.b, self.r = board, r
        self.stack = []  # (move int, ref before, obs before)

    def dup(self, board):
        s = Shadow(board, self.r.copy())
        s.stack = list(self.stack)
        return s


NULL = cshogi.MOVE_NULL if hasattr(cshogi, "MOVE_NULL") else 129


def look(s):
    return obs(s.b)


def verify(c, s, what):
    b, r = s.b, s.r
    c.eq(b.sfen(), r.sfen(), lambda: "sfen after " + what)
    c.eq(list(b.history), [x[0] for x in s.stack], lambda: "history after " + what)
    c.eq(b.peek(), s.stack[-1][0] if s.stack else 0, lambda: "peek() after " + what)
    c.eq(list(b.pieces), r.board(), lambda: "pieces after " + what)
    c.eq(tuple(map(tuple, b.pieces_in_hand)), r.hands(), lambda: "hands after " + what)
    c.eq(b.turn, r.turn, lambda: "turn after " + what)
    c.eq(b.move_number, r.ply, lambda: "move_number after " + what)
    c.eq(b.is_check(), r.in_check(), lambda: "is_check after " + what)


def undo(c, s, got, how):
    m, r0, o0 = s.stack.pop()
    if got is not None:
        c.eq(got, m, "the move %s returned" % how)
    s.r = r0
    c.eq(look(s), o0, lambda: "everything observable after taking %s back by %s" % (cshogi.move_to_usi(m) if m != NULL else "a pass", how))


def do_push(c, s):
    r, b = s.r, s.b
    back = None
    ms = r.legal()
    if len(s.stack) >= 2 and c.prob(35):
        # undo the shuffle of two plies ago: makes repetitions
        want = s.stack[-2][0]
        for m in ms:
            e = enc(r, m)
            if e & 0x7f == want >> 7 & 0x7f and e >> 7 & 0x7f == want & 0x7f and not e >> 14 & 1 and not e >> 20:
                back = m
                break
    if back is None and c.prob(20):
        back = gen.pick_move(c, r, ms, bias=4)
    m = back if back is not None else gen.pick_move(c, r, ms)
    if m is None:
        return None
    e = enc(r, m)
    o = look(s)
    how = c.draw(4)
    if how == 0:
        b.push(e)
    elif how == 1:
        c.eq(b.push_usi(usi(m)), e, "push_usi(%s)" % usi(m))
    elif how == 2:
        c.eq(b.push_csa(csa(r, m)), e, "push_csa(%s)" % csa(r, m))
    elif how == 3:
        c.eq(b.push_move16(e & 0xffff), e, "push_move16(%s)" % usi(m))
    else:
        c.eq(b.push_psv(cshogi.move16_to_psv(e & 0xffff)), e, "push_psv(%s)" % usi(m))
    s.stack.append((e, r.copy(), o))
    s.r = r.copy().apply(m)
    return usi(m)


def do_pass(c, s):
    if s.r.in_check():
        return None
    if s.r.in_check(s.r.turn ^ 1):
        return None
    o = look(s)
    s.b.push_pass()
    s.stack.append((NULL, s.r.copy(), o))
    r = s.r.copy()
    r.s.turn ^= 1
    s.r = r
    return "pass"


def t_stack(c):
    live = [Shadow(cshogi.Board(), Ref())]
    if c.prob(50):
        start = c.pick(gen.SEEDS + gen.HANDICAPS)
        live[0] = Shadow(cshogi.Board(start), Ref(start))
    log = []
    copied = passed = False
    nt = 0
    for _ in range(c.int(1, 60)):
        i = c.draw(len(live) - 1)
        s = live[i]
        before = [(t, look(t)) for t in live if t is not s]
        op = c.weighted([(50, "push"), (22, "pop"), (7, "pass"), (9, "copy"), (3, "drop"), (4, "set"), (2, "empty"), (3, "number")])
        text = None
        if op == "push":
            text = do_push(c, s)
        elif op == "pass":
            text = do_pass(c, s)
            passed |= text is not None
        elif op == "pop" and s.stack:
            if s.stack[-1][0] == NULL and c.prob(50):
                s.b.pop_pass()
                undo(c, s, None, "pop_pass")
            else:
                undo(c, s, s.b.pop(), "pop")
            text = "pop"
            nt += copied or passed
        elif op == "copy" and len(live) < 4:
            k = c.draw(2)
            nb = s.b.copy() if k == 0 else copymod.copy(s.b) if k == 1 else cshogi.Board(board=s.b)
            t = s.dup(nb)
            c.eq(look(t), look(s), "the copy against its original")
            c.eq(moves_of(nb), moves_of(s.b), "the copy's legal moves against its original's")
            live.append(t)
            copied = True
            text = "copy -> #%d" % (len(live) - 1)
        elif op == "drop" and len(live) > 1:
            live.pop(i)
            del s
            before = [(t, look(t)) for t in live]
            gc.collect(0)
            log.append("#%d dropped" % i)
            for t, o in before:
                c.eq(look(t), o, "a board after another was dropped")
            continue
        elif op == "set":
            k = c.draw(5)
            if k == 0:
                s.b.reset()
                s.r = Ref()
                text = "reset"
            elif k == 1:
                st = c.pick(gen.SEEDS)
                s.b.set_sfen(st)
                s.r = Ref(st)
                text = "set_sfen " + st
            elif k == 2:
                hcp = np.zeros(1, cshogi.HuffmanCodedPos)
                t = c.pick(live)
                t.b.to_hcp(hcp)
                r2 = t.r.copy()
                r2.s.ply = 1
                s.b.set_hcp(hcp)
                s.r = r2
                text = "set_hcp"
            elif k == 3:
                ps = np.zeros(1, cshogi.PackedSfen)
                t = c.pick(live)
                t.b.to_psfen(ps)
                r2 = t.r.copy()
                r2.s.ply = 1
                s.b.set_psfen(ps)
                s.r = r2
                text = "set_psfen"
            elif k == 4:
                t = c.pick(live)
                pcs, hs = t.b.pieces, t.b.pieces_in_hand
                if t.r.in_check(s.r.turn ^ 1):
                    continue
                s.b.set_pieces(pcs, hs)
                r2 = t.r.copy()
                r2.s.turn = s.r.turn
                r2.s.ply = s.r.ply
                s.r = r2
                text = "set_pieces"
            else:
                t = c.pick(live)
                ms = [x[0] for x in t.stack]
                if any(m == NULL for m in ms):
                    continue
                st = t.stack[0][1].sfen() if t.stack else t.r.sfen()
                us = [cshogi.move_to_usi(m) for m in ms]
                pos = "sfen " + st + (" moves " + " ".join(us) if us else "")
                # move numbers set by hand inside the history cannot be expressed
                if any(t.stack[k + 1][1].ply != t.stack[k][1].ply + 1 for k in range(len(t.stack) - 1)) or \
                        (t.stack and t.r.ply != t.stack[-1][1].ply + 1):
                    continue
                r2, stack = t.r.copy(), list(t.stack)
                s.b.set_position(pos)
                s.r = r2
                s.stack = stack
                log.append("#%d set_position" % i)
                verify(c, s, " ; ".join(log))
                continue
            s.stack = []
        elif op == "empty" and not s.stack:
            o = look(s)
            for f in (s.b.pop, s.b.pop_pass):
                try:
                    f()
                    c.check(False, "%s on an empty history did not raise" % f.__name__)
                except IndexError:
                    pass
            c.eq(look(s), o, "the board after a refused pop")
            text = "pop on empty"
        elif op == "empty" and s.stack and s.stack[-1][0] != NULL:
            o = look(s)
            try:
                s.b.pop_pass()
                c.check(False, "pop_pass took back a move")
            except IndexError:
                pass
            c.eq(look(s), o, "the board after a refused pop_pass")
            text = "refused pop_pass"
        elif op == "number" and not s.stack:
            n = gen.number(c, 300)
            s.b.move_number = n
            s.r = s.r.copy()
            s.r.s.ply = n
            text = "move_number=%d" % n
        if text is None:
            continue
        log.append("#%d %s" % (i, text))
        verify(c, s, "the last of: " + " ; ".join(log))
        for t, o in before:
            c.check(look(t) == o, lambda: "another board changed after the last of: " + " ; ".join(log))
    # unwind everything
    for s in live:
        while s.stack:
            undo(c, s, s.b.pop(), "pop")
    for l in log[:38]:
        c.note(l)
    if nt:
        c.nontrivial(tuple(log))


def t_deep(c):
    """A long game, copied half way, both unwound in an interleaved order."""
    if c.prob(40):
        # a game that goes back and forth, so that verdicts depend on the history
        start = c.pick(gen.SEEDS + [START])
        h = Hist(Ref(start))
        moves = []
        for _ in range(c.draw(gen.stretch(c, 120))):
            m = repeating(c, h, moves, 70)
            if m is None:
                break
            h.play(m)
            moves.append(m)
    else:
        start, moves, _ = gen.playout(c, max_len=200)
    r = Ref(start)
    b = cshogi.Board(start)
    cut = c.draw(len(moves))
    trail = []
    k = None
    for i, m in enumerate(moves):
        if i == cut:
            k = b.copy()
        trail.append(obs(b))
        b.push(enc(r, m))
        r.apply(m)
    if k is None:
        k = b.copy()
        cut = len(moves)
    final = obs(b)
    if c.prob(50):
        # the copy outlives its original
        b2 = b.copy()
        del b
        b = b2
    n, j = len(moves), cut
    c.eq(obs(b), final, "a copy of a copy")
    while n or j:
        if n and (not j or c.draw(1)):
            n -= 1
            b.pop()
            c.check(obs(b) == trail[n], lambda: "the board with %d of %d moves taken back (%s)" % (len(moves) - n, len(moves), start))
        else:
            j -= 1
            k.pop()
            c.check(obs(k) == trail[j], lambda: "the copy with %d moves taken back" % (cut - j))
    # and forward again
    r = Ref(start)
    for m in moves:
        b.push(enc(r, m))
        r.apply(m)
    c.eq(obs(b), final, "the game played again after unwinding")
    if moves:
        c.nontrivial((start, tuple(moves), cut))


def t_queries(c):
    """Asking never changes a board: searches, generators, exports leave everything as it was."""
    if c.prob(40):
        r = gen.tsume(c)
        b = cshogi.Board(r.sfen())
        for _ in range(c.draw(3)):
            m = gen.pick_move(c, r)
            if m is None:
                break
            b.push(enc(r, m))
            r.apply(m)
    else:
        start, moves, _ = gen.playout(c, max_len=60)
        r = Ref(start)
        b = cshogi.Board(start)
        for m in moves:
            b.push(enc(r, m))
            r.apply(m)
    before = obs(b)
    both = r.king(0) >= 0 and r.king(1) >= 0
    ms = moves_of(b)
    qs = []
    for _ in range(c.int(1, 8)):
        q = c.draw(13)
        qs.append(q)
        if q == 0:
            b.mate_move_in_1ply() if not r.in_check() else None
        elif q == 1:
            b.mate_move(c.pick((3, 5)))
        elif q == 2:
            b.is_mate(c.pick((2, 4)))
        elif q == 3:
            d = cshogi.DfPn(depth=9, nodes=300)
            if both:
                d.search(b)
                c.eq(obs(b), before, "the board after DfPn.search")
                d.get_move(b)
                d.get_pv(b)
        elif q == 4:
            list(b.pseudo_legal_moves)
        elif q == 5:
            for m in ms[:10]:
                b.move_is_draw(m)
                b.book_key_after(b.book_key(), m)
        elif q == 6:
            b.to_bod()
        elif q == 7:
            b.to_svg()
        elif q == 8:
            str(b), b.csa_pos(), b.is_ok()
        elif q == 9 and both:
            b.to_hcp(np.zeros(1, cshogi.HuffmanCodedPos))
            b.to_psfen(np.zeros(1, cshogi.PackedSfen))
        elif q == 10:
            b.push_usi("9z9z"), b.push_csa("0000XX"), b.move_from_usi("K*5e")
        elif q == 11:
            f = np.zeros((cshogi.dlshogi.FEATURES1_NUM, 9, 9), np.float32) if hasattr(cshogi, "dlshogi") else np.zeros((62, 9, 9), np.float32)
            b.piece_planes(np.zeros((28, 9, 9), np.float32))
            b.piece_planes_rotate(np.zeros((28, 9, 9), np.float32))
            b._dlshogi_make_input_features(np.zeros((62, 9, 9), np.float32), np.zeros((57 + 62, 9, 9), np.float32))
        elif q == 12:
            b.copy().push_pass() if not r.in_check() else None
        else:
            for s in ("nonsense", "lnsgkgsnl/9/9/9/9/9/9/9/9 x - 1"):
                try:
                    b.set_sfen(s)
                    c.check(False, "set_sfen(%r) was accepted" % s)
                except RuntimeError:
                    pass
        c.check(obs(b) == before, lambda: "query kinds %s changed the board %s" % (qs, r.sfen()))
    c.eq(moves_of(b), ms, "legal moves after only asking")
    c.nontrivial((r.key(), tuple(qs)))


TESTS = [Test("stack", t_stack, 4000), Test("deep", t_deep, 1500), Test("queries", t_queries, 4000)]
