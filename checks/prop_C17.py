"""PGN files: an independent reader recovers the games."""
import datetime
import os
import cshogi
from cshogi import PGN
from pbt import Test
import gen
import pgn
from ref import Ref, START, HAND_TYPES, usi, m_to, m_from, m_drop, m_pro
from util import enc

RULE = ("a case is one or several games written by PGN.Exporter (one file, appended or not) and read by an independent reader: tag pairs, "
        "numbering, moves (coordinates a1-i9, drops with @, promoted pieces with +), result at the end; and the text of all legal moves "
        "of a position. Non-trivial: some game has moves; distinct by text.")

NAMEW = ("a", "Z", "7", " ", "-", "+", "_", ".", "(", ")")


def t_moves(c):
    r = gen.position(c)
    s = r.sfen()
    c.note(s)
    for m in r.legal():
        c.eq(PGN.move_to_san(enc(r, m)), pgn.san(r, m), lambda: "PGN text of %s in %s" % (usi(m), s))
        c.nontrivial(s)




def t_games(c):
    path = os.path.join(c.env.tmp, "c17-%d.pgn" % os.getpid())
    c.cleanup.append(lambda: os.path.exists(path) and os.remove(path))
    if os.path.exists(path):
        os.remove(path)
    n = c.int(1, 3)
    want = []
    e = None
    for i in range(n):
        start, moves, refs = gen.game(c, 120 if c.prob(30) else 30)
        if e is None or c.prob(40):
            if e is not None:
                e.close()
            if e is not None and c.prob(50):
                e.open(path, append=True)
            else:
                e = PGN.Exporter(path, append=i > 0)
        names = [gen.text(c, 0, 8, NAMEW), gen.text(c, 0, 8, NAMEW)]
        res = c.pick(list(pgn.RES))
        when = datetime.datetime(c.int(1970, 2099), c.int(1, 12), c.int(1, 28))
        kw = {}
        if c.prob(50):
            kw = {"event": gen.text(c, 1, 5, NAMEW), "site": gen.text(c, 1, 5, NAMEW), "round": c.int(0, 999)}
        e.tag_pair(names, res, starttime=when, **kw)
        e.movetext([enc(r, m) for r, m in zip(refs, moves)])
        tags = [("Event", kw.get("event", "?")), ("Site", kw.get("site", "?")), ("Date", when.strftime("%Y.%m.%d")),
                ("Round", str(kw.get("round", 1))), ("White", names[0]), ("Black", names[1]), ("Result", pgn.RES[res])]
        toks = []
        for k, (r, m) in enumerate(zip(refs, moves)):
            if k % 2 == 0:
                toks.append("%d." % (k // 2 + 1))
            toks.append(pgn.san(r, m))
        if moves:
            toks.append(pgn.RES[res])
        want.append((tags, toks))
    e.close()
    with open(path, newline="") as f:
        text = f.read()
    c.note(text)
    got = pgn.read(text)
    c.eq(got, want, lambda: "games read from\n" + text)
    if any(len(t) > 1 for _, t in want):
        c.nontrivial(text)


TESTS = [Test("moves", t_moves, 4000), Test("games", t_games, 2500)]
