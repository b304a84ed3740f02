"""ctypes face of the reference model (ref.cpp)."""
import ctypes as C
from build import build_ref

L = C.CDLL(build_ref())
L.ref_perft.restype = C.c_long
N = L.ref_sizeof()
_ibuf = (C.c_int * 2048)()
_tbuf = C.create_string_buffer(65536)

START = "lnsgkgsnl/1r5b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL b - 1"
LETTERS = ".PLNSBRGKPLNSBR"
HAND_TYPES = (1, 2, 3, 4, 7, 5, 6)
HAND_SLOT = {1: 0, 2: 1, 3: 2, 4: 3, 7: 4, 5: 5, 6: 6}
MAX_HAND = (18, 4, 4, 4, 4, 2, 2)


class St(C.Structure):
    _fields_ = [("b", C.c_uint8 * 81), ("h", C.c_uint8 * 14), ("turn", C.c_uint8), ("ply", C.c_int32)]


assert C.sizeof(St) == N


class Ref:
    __slots__ = ("s",)

    def __init__(self, sfen=START):
        self.s = St()
        if sfen is not None:
            if L.ref_from_sfen(C.byref(self.s), sfen.encode()) != 0:
                raise ValueError("reference model rejects SFEN " + repr(sfen))

    @classmethod
    def make(cls, board, hands, turn, ply=1):
        r = cls(None)
        r.s.b[:] = board
        r.s.h[:] = list(hands[0]) + list(hands[1])
        r.s.turn = turn
        r.s.ply = ply
        return r

    def copy(self):
        r = Ref(None)
        C.memmove(C.byref(r.s), C.byref(self.s), N)
        return r

    def key(self):
        """board, hands and side to move"""
        return bytes(self.s)[:96]

    def board_key(self):
        return bytes(self.s)[:81]

    def hands(self):
        h = self.s.h
        return (tuple(h[0:7]), tuple(h[7:14]))

    @property
    def turn(self):
        return self.s.turn

    @property
    def ply(self):
        return self.s.ply

    def board(self):
        return list(self.s.b)

    def sfen(self, ply=True):
        L.ref_to_sfen(C.byref(self.s), _tbuf, 1 if ply else 0)
        return _tbuf.value.decode()

    def legal(self):
        n = L.ref_legal(C.byref(self.s), _ibuf)
        return _ibuf[:n]

    def legal_usi(self):
        n = L.ref_legal_usi(C.byref(self.s), _ibuf, _tbuf)
        return _ibuf[:n], _tbuf.value.decode().split()

    def pseudo(self):
        n = L.ref_pseudo(C.byref(self.s), _ibuf)
        return _ibuf[:n]

    def checks(self):
        n = L.ref_checks(C.byref(self.s), _ibuf)
        return _ibuf[:n]

    def any_legal(self):
        return bool(L.ref_any_legal(C.byref(self.s)))

    def is_legal(self, m):
        return bool(L.ref_is_legal(C.byref(self.s), m))

    def in_check(self, c=None):
        return bool(L.ref_in_check(C.byref(self.s), self.s.turn if c is None else c))

    def king(self, c):
        return L.ref_king(C.byref(self.s), c)

    def apply(self, m):
        L.ref_apply(C.byref(self.s), m)
        return self

    def attackers(self, sq, by):
        return L.ref_attackers(C.byref(self.s), sq, by)

    def attack_map(self):
        b = C.create_string_buffer(2 * 15 * 81)
        L.ref_attack_map(C.byref(self.s), b)
        return b.raw

    def attack_count(self):
        b = C.create_string_buffer(2 * 81)
        L.ref_attack_count(C.byref(self.s), b)
        return b.raw

    def mate(self, d, limit=200000):
        """(1, move) mate within d plies by checks, (0, None) none, (-1, None) undecided within the node limit"""
        b = C.c_int(-1)
        n = C.c_long(0)
        r = L.ref_mate(C.byref(self.s), d, C.c_long(limit), C.byref(b), C.byref(n))
        return r, (b.value if r == 1 else None)

    def mated(self, d, limit=200000):
        return L.ref_mated(C.byref(self.s), d, C.c_long(limit))

    def contact_mate(self):
        """a mating check by a knight or from a square next to the king, the mover not being in check; or None"""
        b = C.c_int(-1)
        return b.value if L.ref_contact_mate(C.byref(self.s), C.byref(b)) else None

    def weak_mate(self, d, limit=50000):
        return L.ref_weak_mate(C.byref(self.s), d, C.c_long(limit))

    def weak_mated(self, d, limit=50000):
        return L.ref_weak_mated(C.byref(self.s), d, C.c_long(limit))

    def mate_abs(self, d, limit=50000):
        """1 mate by checks within d plies, 0 no mate by checks however long, -1 undecided"""
        return L.ref_mate_abs(C.byref(self.s), d, C.c_long(limit))

    def solve(self, limit=2000, attacker=True):
        """1 mate by checks, 0 none however long, -1 undecided; limit: positions looked into"""
        return L.ref_solve(C.byref(self.s), 1 if attacker else 0, C.c_long(limit))

    def perft(self, d):
        return L.ref_perft(C.byref(self.s), d)


def usi(m):
    to, fr = m & 127, m >> 7 & 127
    a = LETTERS[fr - 80] + "*" if fr > 80 else "%d%s" % (fr // 9 + 1, "abcdefghi"[fr % 9])
    return a + "%d%s" % (to // 9 + 1, "abcdefghi"[to % 9]) + ("+" if m >> 14 & 1 else "")


def mv(fr, to, pr=0):
    return to | fr << 7 | (1 << 14 if pr else 0)


def m_to(m):
    return m & 127


def m_from(m):
    return m >> 7 & 127


def m_drop(m):
    return (m >> 7 & 127) > 80


def m_pro(m):
    return m >> 14 & 1
