// Reference model of shogi: a plain mailbox board and the rules, written from the rules and sharing no code with
// cshogi.  Everything is brute force: a move is legal when, after playing it on a copy, the rules are respected.
//
// Numbering (cshogi's public constants): square = (file-1)*9 + rank (a=0); piece type pawn 1 lance 2 knight 3
// silver 4 bishop 5 rook 6 gold 7 king 8 +pawn 9 +lance 10 +knight 11 +silver 12 horse 13 dragon 14; white adds 16.
// Hand order: pawn lance knight silver gold bishop rook.  Reference move: to | from<<7 | promote<<14, a drop of piece
// type t having from = 80+t.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>

#define API extern "C"
typedef unsigned char u8;

struct S {
    u8 b[81];
    u8 h[14];
    u8 turn;
    int32_t ply;
};

static const int HP[9] = {-1, 0, 1, 2, 3, 5, 6, 4, -1};      // piece type -> hand slot
static const int HT[7] = {1, 2, 3, 4, 7, 5, 6};               // hand slot -> piece type

static inline int col(u8 p) { return p >> 4; }
static inline int typ(u8 p) { return p & 15; }
static inline int base(int t) { return t > 8 ? t - 8 : t; }

// step (df, dr): df>0 = higher file number (black's left), dr<0 = forward for black
struct Step { int df, dr; bool slide; };
static const std::vector<Step>& steps(int t) {
    static std::vector<Step> T[15];
    static bool init = false;
    if (!init) {
        const Step F{0, -1, false};
        T[1] = {F};
        T[2] = {{0, -1, true}};
        T[3] = {{1, -2, false}, {-1, -2, false}};
        T[4] = {F, {1, -1, false}, {-1, -1, false}, {1, 1, false}, {-1, 1, false}};
        T[5] = {{1, -1, true}, {-1, -1, true}, {1, 1, true}, {-1, 1, true}};
        T[6] = {{0, -1, true}, {0, 1, true}, {1, 0, true}, {-1, 0, true}};
        T[7] = {F, {1, -1, false}, {-1, -1, false}, {1, 0, false}, {-1, 0, false}, {0, 1, false}};
        T[8] = {F, {1, -1, false}, {-1, -1, false}, {1, 0, false}, {-1, 0, false}, {0, 1, false}, {1, 1, false}, {-1, 1, false}};
        T[9] = T[10] = T[11] = T[12] = T[7];
        T[13] = T[5]; for (auto s : T[6]) { s.slide = false; T[13].push_back(s); }
        T[14] = T[6]; for (auto s : T[5]) { s.slide = false; T[14].push_back(s); }
        init = true;
    }
    return T[t];
}

// squares attacked by the piece on sq (whoever stands there)
template <class F> static void attacks(const S& s, int sq, F f) {
    const u8 p = s.b[sq];
    const int sg = col(p) ? -1 : 1;
    for (const Step& st : steps(typ(p))) {
        int x = sq / 9, y = sq % 9;
        do {
            x += st.df * sg; y += st.dr * sg;
            if (x < 0 || x > 8 || y < 0 || y > 8) break;
            f(x * 9 + y);
            if (s.b[x * 9 + y]) break;
        } while (st.slide);
    }
}

static int king(const S& s, int c) {
    for (int i = 0; i < 81; i++) if (s.b[i] == (c ? 24 : 8)) return i;
    return -1;
}
static bool attacked(const S& s, int sq, int by) {
    for (int i = 0; i < 81; i++) if (s.b[i] && col(s.b[i]) == by) {
        bool hit = false;
        attacks(s, i, [&](int t) { if (t == sq) hit = true; });
        if (hit) return true;
    }
    return false;
}
static bool in_check(const S& s, int c) { const int k = king(s, c); return k >= 0 && attacked(s, k, c ^ 1); }

static inline int row(int c, int sq) { return c ? 8 - sq % 9 : sq % 9; } // 0 = farthest rank
static bool dead(int t, int c, int sq) {
    const int r = row(c, sq);
    return ((t == 1 || t == 2) && r == 0) || (t == 3 && r <= 1);
}

static void apply(S& s, int m) {
    const int to = m & 127, fr = (m >> 7) & 127, pr = (m >> 14) & 1, c = s.turn;
    if (fr > 80) {
        const int t = fr - 80;
        s.h[c * 7 + HP[t]]--;
        s.b[to] = (u8)(t | c << 4);
    } else {
        if (s.b[to] && typ(s.b[to]) != 8) s.h[c * 7 + HP[base(typ(s.b[to]))]]++;
        s.b[to] = (u8)(s.b[fr] + (pr ? 8 : 0));
        s.b[fr] = 0;
    }
    s.turn ^= 1;
    s.ply++;
}

// moves that respect movement, promotion, dead squares and nifu; nothing about checks
static void pseudo(const S& s, std::vector<int>& out) {
    const int c = s.turn;
    for (int i = 0; i < 81; i++) if (s.b[i] && col(s.b[i]) == c) {
        const int t = typ(s.b[i]);
        attacks(s, i, [&](int to) {
            if (s.b[to] && col(s.b[to]) == c) return;
            const bool zone = row(c, i) <= 2 || row(c, to) <= 2;
            if (zone && t <= 6) out.push_back(to | i << 7 | 1 << 14);
            if (!dead(t, c, to)) out.push_back(to | i << 7);
        });
    }
    for (int k = 0; k < 7; k++) if (s.h[c * 7 + k]) {
        const int t = HT[k];
        for (int to = 0; to < 81; to++) {
            if (s.b[to] || dead(t, c, to)) continue;
            if (t == 1) {
                bool nifu = false;
                for (int y = 0; y < 9; y++) if (s.b[to / 9 * 9 + y] == (1 | c << 4)) nifu = true;
                if (nifu) continue;
            }
            out.push_back(to | (80 + t) << 7);
        }
    }
}

static bool any_legal(const S& s);
static bool ok_after(const S& s, int m) { // m is pseudo: is it legal?
    const int c = s.turn;
    S n = s;
    if (!(((m >> 7) & 127) > 80) && typ(s.b[m & 127]) == 8) return false; // a king is never captured
    apply(n, m);
    if (in_check(n, c)) return false;
    if (((m >> 7) & 127) == 81 && in_check(n, c ^ 1) && !any_legal(n)) return false; // pawn-drop mate
    return true;
}
static bool any_legal(const S& s) {
    std::vector<int> v; pseudo(s, v);
    for (int m : v) if (ok_after(s, m)) return true;
    return false;
}
static void legal(const S& s, std::vector<int>& out) {
    std::vector<int> v; pseudo(s, v);
    for (int m : v) if (ok_after(s, m)) out.push_back(m);
}

// ---- text
static const char* LET = ".PLNSBRGKPLNSBR";
static void to_usi(int m, char* o) {
    const int to = m & 127, fr = (m >> 7) & 127;
    if (fr > 80) { *o++ = LET[fr - 80]; *o++ = '*'; }
    else { *o++ = (char)('1' + fr / 9); *o++ = (char)('a' + fr % 9); }
    *o++ = (char)('1' + to / 9); *o++ = (char)('a' + to % 9);
    if (m >> 14 & 1) *o++ = '+';
    *o = 0;
}
static std::string to_sfen(const S& s, bool with_ply) {
    std::string o;
    for (int y = 0; y < 9; y++) {
        int e = 0;
        for (int x = 8; x >= 0; x--) {
            const u8 p = s.b[x * 9 + y];
            if (!p) { e++; continue; }
            if (e) { o += (char)('0' + e); e = 0; }
            if (typ(p) > 8) o += '+';
            o += (char)(col(p) ? LET[typ(p)] + 32 : LET[typ(p)]);
        }
        if (e) o += (char)('0' + e);
        if (y < 8) o += '/';
    }
    o += s.turn ? " w " : " b ";
    static const int ORD[7] = {6, 5, 4, 3, 2, 1, 0};
    bool any = false;
    for (int c = 0; c < 2; c++) for (int k : ORD) if (int n = s.h[c * 7 + k]) {
        if (n > 1) o += std::to_string(n);
        o += (char)(LET[HT[k]] + (c ? 32 : 0));
        any = true;
    }
    if (!any) o += '-';
    if (with_ply) o += " " + std::to_string(s.ply);
    return o;
}
static int from_sfen(S& s, const char* t) {
    memset(&s, 0, sizeof s);
    int x = 8, y = 0;
    for (; *t && *t != ' '; t++) {
        if (*t == '/') { if (x != -1) return -1; x = 8; y++; if (y > 8) return -1; continue; }
        if (*t >= '1' && *t <= '9') { x -= *t - '0'; if (x < -1) return -1; continue; }
        int pr = 0;
        if (*t == '+') { pr = 8; t++; if (!*t) return -1; }
        const int c = *t >= 'a';
        const char* q = strchr(LET + 1, c ? *t - 32 : *t);
        if (!q || x < 0) return -1;
        const int ty = (int)(q - LET);
        if (pr && ty > 6) return -1;
        s.b[x * 9 + y] = (u8)(ty + pr + c * 16);
        x--;
    }
    if (y != 8 || x != -1 || *t != ' ') return -1;
    t++;
    if (*t == 'b') s.turn = 0; else if (*t == 'w') s.turn = 1; else return -1;
    t++; if (*t != ' ') return -1; t++;
    if (*t == '-') t++;
    else {
        int n = 0; bool num = false;
        for (; *t && *t != ' '; t++) {
            if (*t >= '0' && *t <= '9') { n = n * 10 + *t - '0'; num = true; continue; }
            const int c = *t >= 'a';
            const char* q = strchr(LET + 1, c ? *t - 32 : *t);
            if (!q) return -1;
            const int ty = (int)(q - LET);
            if (ty > 7) return -1;
            s.h[c * 7 + HP[ty]] = (u8)(s.h[c * 7 + HP[ty]] + (num ? n : 1));
            n = 0; num = false;
        }
    }
    s.ply = 1;
    if (*t == ' ') s.ply = atoi(t + 1);
    return 0;
}

// ---- forced mates by consecutive checks
// the legal moves that give check, with the positions after them
static void checks(const S& s, std::vector<std::pair<int, S>>& c) {
    std::vector<int> v; pseudo(s, v);
    const int k = king(s, s.turn ^ 1);
    if (k < 0) return;
    for (int m : v) {
        S n = s;
        const bool drop = ((m >> 7) & 127) > 80;
        if (!drop && typ(s.b[m & 127]) == 8) continue;
        apply(n, m);
        if (drop) { // a drop checks with the piece dropped or not at all
            bool hit = false;
            attacks(n, m & 127, [&](int q) { if (q == k) hit = true; });
            if (!hit) continue;
        } else if (!in_check(n, n.turn)) continue;
        if (in_check(n, s.turn)) continue;
        if (((m >> 7) & 127) == 81 && !any_legal(n)) continue;
        c.push_back({m, n});
    }
}
struct Key { std::string k; bool operator==(const Key& o) const { return k == o.k; } };
struct Solver {
    std::unordered_map<std::string, int> proved, refuted; // -> depth
    long nodes = 0, limit = 0;
    bool cut = false; // a line was given up because of the depth
    std::string key(const S& s) { return std::string((const char*)s.b, 81 + 14 + 1); }
    // 1 proved: side to move mates within d plies (d odd) by checks only; 0 refuted; -1 limit
    int attack(const S& s, int d, int* best) {
        if (d <= 0) { cut = true; return 0; }
        if (++nodes > limit) return -1;
        std::string k = key(s);
        if (!best) {
            auto p = proved.find(k); if (p != proved.end() && p->second <= d) return 1;
            auto r = refuted.find(k); if (r != refuted.end() && r->second >= d) return 0;
        }
        bool unk = false;
        std::vector<std::pair<int, S>> c;
        checks(s, c);
        for (auto& e : c) {
            const int r = defend(e.second, d - 1);
            if (r == 1) { if (best) *best = e.first; auto& q = proved[k]; if (!q || q > d) q = d; return 1; }
            if (r < 0) unk = true;
        }
        if (unk) return -1;
        auto& q = refuted[k]; if (q < d) q = d;
        return 0;
    }
    // side to move is in check: 1 if mated within d plies (d even) whatever it plays
    int defend(const S& s, int d) {
        if (++nodes > limit) return -1;
        std::vector<int> v; legal(s, v);
        if (v.empty()) return 1;
        if (d <= 0) { cut = true; return 0; }
        bool unk = false;
        for (int m : v) {
            S n = s; apply(n, m);
            const int r = attack(n, d - 1, nullptr);
            if (r == 0) return 0;
            if (r < 0) { unk = true; if (nodes > limit) return -1; }
        }
        return unk ? -1 : 1;
    }
};

// Decides mates of any length.  A best-first (df-pn) search chooses which positions to look at; its own numbers are
// not believed.  The verdict is the least fixpoint of "some check mates / every reply is mated" over the positions
// seen, with those not looked into counted for the attacker when a mate is to be refuted and against him when it is to
// be proved: exact positions, no dominance, no depth, no dependence on the path.
struct Graph {
    static const uint32_t INF = 1u << 28;
    struct Node { S s; bool att, open; uint32_t pn, dn; bool path; std::vector<int> kids; };
    std::vector<Node> v;
    std::unordered_map<std::string, int> at;
    long limit = 0, n = 0, turns = 0;
    int add(const S& s, bool att) {
        std::string k((const char*)s.b, 81 + 14 + 1);
        auto r = at.emplace(k, (int)v.size());
        if (r.second) v.push_back({s, att, false, 1, 1, false, {}});
        return r.first->second;
    }
    void open(int i) {
        n++;
        const S s = v[i].s;
        std::vector<int> kids;
        if (v[i].att) {
            std::vector<std::pair<int, S>> c;
            checks(s, c);
            for (auto& e : c) kids.push_back(add(e.second, false));
        } else {
            std::vector<int> m; legal(s, m);
            for (int x : m) { S t = s; apply(t, x); kids.push_back(add(t, true)); }
        }
        v[i].open = true;
        v[i].kids = kids;
    }
    void sum(int i) {
        Node& x = v[i];
        uint64_t add = 0; uint32_t mn = INF;
        for (int k : x.kids) {
            const Node& y = v[k];
            const uint32_t p = y.path ? INF : y.pn, d = y.path ? 0 : y.dn;
            mn = std::min(mn, x.att ? p : d);
            add += x.att ? d : p;
        }
        const uint32_t sm = (uint32_t)std::min<uint64_t>(add, INF);
        if (x.att) { x.pn = mn; x.dn = sm; } else { x.pn = sm; x.dn = mn; }
    }
    void mid(int i, uint32_t tp, uint32_t td) {
        if (!v[i].open) open(i);
        v[i].path = true;
        while (n < limit && ++turns < limit * 30) {
            sum(i);
            const Node& x = v[i];
            if (x.pn >= tp || x.dn >= td || x.pn == 0 || x.dn == 0) break;
            int best = -1; uint32_t b1 = INF + 1, b2 = INF + 1;
            for (int k : x.kids) {
                if (v[k].path) continue;
                const uint32_t q = x.att ? v[k].pn : v[k].dn;
                if (q < b1) { b2 = b1; b1 = q; best = k; } else if (q < b2) b2 = q;
            }
            if (best < 0) break;
            const Node& y = v[best];
            uint64_t cp, cd;
            if (x.att) { cp = std::min<uint64_t>(tp, (uint64_t)b2 + 1); cd = (uint64_t)td - x.dn + y.dn; }
            else { cd = std::min<uint64_t>(td, (uint64_t)b2 + 1); cp = (uint64_t)tp - x.pn + y.pn; }
            mid(best, (uint32_t)std::min<uint64_t>(cp, INF), (uint32_t)std::min<uint64_t>(cd, INF));
        }
        v[i].path = false;
    }
    bool fix(int root, bool unseen) { // does the attacker mate, positions not looked into counting as `unseen`?
        std::vector<char> w(v.size());
        std::vector<int> need(v.size()), q;
        std::vector<std::vector<int>> up(v.size());
        for (size_t i = 0; i < v.size(); i++) {
            if (!v[i].open) { if (unseen) { w[i] = 1; q.push_back((int)i); } continue; }
            std::vector<int> k = v[i].kids;
            std::sort(k.begin(), k.end()); k.erase(std::unique(k.begin(), k.end()), k.end());
            for (int c : k) up[c].push_back((int)i);
            need[i] = v[i].att ? 1 : (int)k.size();
            if (!v[i].att && k.empty()) { w[i] = 1; q.push_back((int)i); }
        }
        while (!q.empty()) {
            const int c = q.back(); q.pop_back();
            for (int i : up[c]) if (!w[i] && --need[i] == 0) { w[i] = 1; q.push_back(i); }
        }
        return w[root];
    }
    int solve(const S& s, bool att) { // 1 mate, 0 none however long, -1 undecided
        v.reserve(limit * 8);
        const int r = add(s, att);
        mid(r, INF, INF);
        if (fix(r, false)) return 1;
        return fix(r, true) ? -1 : 0;
    }
};

// Mates that a search with a cheap last ply is expected to see: at the last ply only a check by a piece next to the
// king, or by a knight, given by a side that is not itself in check; evasions two plies from the end that give check
// refute.
struct Weak {
    long nodes = 0, limit = 0;
    static bool contact_mate(const S& s, int* best) {
        if (in_check(s, s.turn)) return false;
        std::vector<int> v; legal(s, v);
        for (int m : v) {
            S n = s; apply(n, m);
            const int k = king(n, n.turn);
            if (k < 0) continue;
            const int to = m & 127;
            const int dx = to / 9 - k / 9, dy = to % 9 - k % 9;
            const bool adj = dx * dx <= 1 && dy * dy <= 1;
            if (!adj && typ(n.b[to]) != 3) continue;
            bool hit = false;
            attacks(n, to, [&](int q) { if (q == k) hit = true; });
            if (!hit || any_legal(n)) continue;
            if (best) *best = m;
            return true;
        }
        return false;
    }
    int attack(const S& s, int d, int* best) {
        if (++nodes > limit) return -1;
        if (d == 1) return contact_mate(s, best);
        std::vector<int> v; legal(s, v);
        bool unk = false;
        for (int m : v) {
            S n = s; apply(n, m);
            if (!in_check(n, n.turn)) continue;
            const int r = defend(n, d - 1);
            if (r == 1) { if (best) *best = m; return 1; }
            if (r < 0) unk = true;
        }
        return unk ? -1 : 0;
    }
    int defend(const S& s, int d) {
        if (++nodes > limit) return -1;
        std::vector<int> v; legal(s, v);
        for (int m : v) {
            S n = s; apply(n, m);
            if (d == 2 && in_check(n, n.turn)) return 0;
            const int r = attack(n, d - 1, nullptr);
            if (r != 1) return r;
        }
        return 1;
    }
};

// ---- API
API int ref_contact_mate(const S* s, int* best) { return Weak::contact_mate(*s, best); }
API int ref_weak_mate(const S* s, int d, long limit) { Weak w; w.limit = limit; return w.attack(*s, d, nullptr); }
API int ref_weak_mated(const S* s, int d, long limit) { Weak w; w.limit = limit; return w.defend(*s, d); }
// 1 mate, 0 certainly no mate by checks however long, -1 undecided (depth or nodes)
API int ref_mate_abs(const S* s, int d, long limit) {
    Solver v; v.limit = limit;
    const int r = v.attack(*s, d, nullptr);
    return r == 0 && v.cut ? -1 : r;
}
// the same by the graph search, from the attacker's or (att = 0) the checked side's move
API int ref_solve(const S* s, int att, long limit) { Graph g; g.limit = limit; return g.solve(*s, att); }
API int ref_sizeof() { return (int)sizeof(S); }
API int ref_from_sfen(S* s, const char* t) { return from_sfen(*s, t); }
API void ref_to_sfen(const S* s, char* o, int ply) { strcpy(o, to_sfen(*s, ply).c_str()); }
API int ref_legal(const S* s, int* o) { std::vector<int> v; legal(*s, v); memcpy(o, v.data(), v.size() * 4); return (int)v.size(); }
API int ref_pseudo(const S* s, int* o) { std::vector<int> v; pseudo(*s, v); memcpy(o, v.data(), v.size() * 4); return (int)v.size(); }
API int ref_any_legal(const S* s) { return any_legal(*s); }
API int ref_in_check(const S* s, int c) { return in_check(*s, c); }
API int ref_king(const S* s, int c) { return king(*s, c); }
API void ref_apply(S* s, int m) { apply(*s, m); }
API void ref_usi(int m, char* o) { to_usi(m, o); }
API int ref_is_legal(const S* s, int m) {
    std::vector<int> v; pseudo(*s, v);
    return std::find(v.begin(), v.end(), m) != v.end() && ok_after(*s, m);
}
API int ref_attackers(const S* s, int sq, int by) {
    int n = 0;
    for (int i = 0; i < 81; i++) if (s->b[i] && col(s->b[i]) == by) attacks(*s, i, [&](int t) { if (t == sq) n++; });
    return n;
}
// out[2][15][81]: squares attacked, by colour and piece type
API void ref_attack_map(const S* s, u8* out) {
    memset(out, 0, 2 * 15 * 81);
    for (int i = 0; i < 81; i++) if (s->b[i]) {
        const int c = col(s->b[i]), t = typ(s->b[i]);
        attacks(*s, i, [&](int q) { out[(c * 15 + t) * 81 + q] = 1; });
    }
}
API void ref_attack_count(const S* s, u8* out) {
    memset(out, 0, 2 * 81);
    for (int i = 0; i < 81; i++) if (s->b[i]) {
        const int c = col(s->b[i]);
        attacks(*s, i, [&](int q) { out[c * 81 + q]++; });
    }
}
// all legal moves as USI text separated by spaces, with the move numbers in o
API int ref_legal_usi(const S* s, int* o, char* txt) {
    std::vector<int> v; legal(*s, v);
    char* p = txt;
    for (size_t i = 0; i < v.size(); i++) { o[i] = v[i]; to_usi(v[i], p); p += strlen(p); *p++ = ' '; }
    *p = 0;
    return (int)v.size();
}
API int ref_checks(const S* s, int* o) { // legal moves that give check
    std::vector<int> v; legal(*s, v);
    int n = 0;
    for (int m : v) { S t = *s; apply(t, m); if (in_check(t, t.turn)) o[n++] = m; }
    return n;
}
// mate for the side to move within d plies: 1 yes (move in *best), 0 no, -1 node limit
API int ref_mate(const S* s, int d, long limit, int* best, long* nodes) {
    Solver v; v.limit = limit;
    int b = -1;
    const int r = v.attack(*s, d, &b);
    if (best) *best = b;
    if (nodes) *nodes = v.nodes;
    return r;
}
API int ref_mated(const S* s, int d, long limit) {
    Solver v; v.limit = limit;
    return v.defend(*s, d);
}
API long ref_perft(const S* s, int d) {
    std::vector<int> v; legal(*s, v);
    if (d <= 1) return (long)v.size();
    long n = 0;
    for (int m : v) { S t = *s; apply(t, m); n += ref_perft(&t, d - 1); }
    return n;
}
