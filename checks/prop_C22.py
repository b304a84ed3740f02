"""Elo statistics of a match result follow the published formulas."""
import math
import statistics
from cshogi.elo import Elo
from pbt import Test

RULE = ("a case is a match result (wins, losses, draws; small, lopsided and large counts); the ratios, rating difference, error "
        "margin and likelihood of superiority are compared with their definitions computed independently, and with those of the "
        "mirrored result. Non-trivial: both sides won a game; distinct by result.")
ND = statistics.NormalDist()
SIZES = ((3, 3, 3), (10, 10, 10), (100, 100, 100), (1000, 10, 2), (5, 500, 50), (100000, 100000, 100000), (1, 1, 10000))


def close(c, got, want, what, rel=1e-9, ab=1e-9):
    c.check(isinstance(got, float) and math.isclose(got, want, rel_tol=rel, abs_tol=ab), lambda: "%s: got %r, expected %r" % (what(), got, want))


def rating(p):
    return 400 * (math.log10(p) - math.log10(1 - p))


def margin(mu, sd, z):
    lo, hi = mu - z * sd, mu + z * sd
    if not (0 < lo and hi < 1):
        return None
    return (rating(hi) - rating(lo)) / 2


def t_elo(c):
    a, b, d = c.pick(SIZES)
    w, l, d = c.draw(a), c.draw(b), c.draw(d)
    if c.prob(15):
        l = w
    n = w + l + d
    if n == 0:
        w = n = 1
    t = "%d-%d-%d" % (w, l, d)
    c.note(t)
    e = Elo(w, l, d)
    f = Elo(l, w, d)
    mu = (2 * w + d) / (2 * n)
    close(c, e.point_ratio(), mu, lambda: "point_ratio of " + t)
    close(c, e.draw_ratio(), d / n, lambda: "draw_ratio of " + t)
    close(c, e.point_ratio() + f.point_ratio(), 1.0, lambda: "point ratios of both sides of " + t)
    if w + l:
        los = 100 * ND.cdf((w - l) / math.sqrt(w + l))
        close(c, e.los(), los, lambda: "los of " + t, ab=1e-7)
    if 0 < mu < 1:
        close(c, e.diff(), rating(mu), lambda: "diff of " + t, ab=1e-6)
        close(c, f.diff(), -rating(mu), lambda: "diff of the mirrored " + t, ab=1e-6)
        # the variance of one game's points, over the number of games
        var = (w * (1 - mu) ** 2 + l * mu ** 2 + d * (0.5 - mu) ** 2) / n
        sd = math.sqrt(max(var, 0.0) / n)
        hi = margin(mu, sd, 1.965)
        if hi is not None:
            # the quantile is approximated: 1.96 to about three digits
            lo = margin(mu, sd, 1.955)
            x = e.error_margin()
            c.check(lo - 1e-6 <= x <= hi + 1e-6, lambda: "error_margin of %s: got %r, expected %r..%r" % (t, x, lo, hi))
            close(c, f.error_margin(), x, lambda: "error_margin of the mirrored " + t, rel=1e-6, ab=1e-6)
    if w and l:
        c.nontrivial((w, l, d))


TESTS = [Test("elo", t_elo, 60000)]
