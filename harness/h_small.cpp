// Label look-up table (P16) and digital straight lines (P22).
#include "common.hpp"
#include <algorithm>
#include <memory>
#include <cmath>
#include <iterator>
#include "labellut.hxx"
#include <vigra/tinyvector.hxx>
#include "vigra/dsl.hxx"
using vf::fmt;

// ---------------------------------------------------------------- P16
typedef std::vector<unsigned> Rep;      // label -> representative
static std::string checkLUT(const LabelLUT &l, const Rep &r) {
    if(l.size() != r.size()) return fmt("size() %zu, expected %zu", (size_t)l.size(), r.size());
    for(unsigned i = 0; i < r.size(); ++i) if(l[i] != r[i]) return fmt("label %u looks up to %u, expected %u", i, l[i], r[i]);
    for(unsigned i = 0; i < r.size(); ++i) if(r[i] == i) {
        std::vector<unsigned> seen; size_t steps = 0;
        for(LabelLUT::MergedIterator it = l.mergedBegin(i); it.inRange(); ++it) { if(++steps > r.size()) return fmt("enumerating the labels merged into %u does not end", i); seen.push_back(*it); }
        std::sort(seen.begin(), seen.end()); std::vector<unsigned> want; for(unsigned j = 0; j < r.size(); ++j) if(r[j] == i) want.push_back(j);
        if(seen != want) return fmt("enumerating the labels merged into %u yields %zu labels, expected %zu", i, seen.size(), want.size()); }
    return ""; }
struct LOp { int t; unsigned a, b; };     // 0 relabel, 1 append, 2 reinitialize, 3 copy
static std::string str(const std::vector<LOp> &h) { std::string r; for(auto &o : h) r += o.t == 0 ? fmt("relabel(%u,%u) ", o.a, o.b) : o.t == 1 ? std::string("append ") : o.t == 2 ? fmt("init(%u) ", o.a) : std::string("copy "); return r; }
static std::vector<LOp> H; static uint64_t nT, nTr;
static vf::Distinct distLUT;
static bool walkLUT(const LabelLUT &l, const Rep &r, int depth, unsigned maxSize) {
    if(!depth) { ++nTr; return true; }
    std::vector<LOp> ops;
    for(unsigned a = 0; a < r.size(); ++a) if(r[a] == a) for(unsigned b = 0; b < r.size(); ++b) if(r[b] == b) ops.push_back(LOp{0, a, b});
    if(r.size() < maxSize) ops.push_back(LOp{1, 0, 0});
    if(H.size() && H.back().t == 0) ops.push_back(LOp{2, 3, 0});
    for(auto &o : ops) {
        LabelLUT m(l); Rep q = r; ++nT; H.push_back(o);
        if(o.t == 0) { m.relabel(o.a, o.b); for(auto &x : q) if(x == o.a) x = o.b; }
        else if(o.t == 1) { m.appendOne(); q.push_back(q.size()); }
        else { m.initIdentity(o.a); q.resize(o.a); for(unsigned i = 0; i < o.a; ++i) q[i] = i; }
        std::string e = checkLUT(m, q); distLUT.begin(); for(auto x : q) distLUT.add((uint64_t)x + 1); distLUT.end();
        if(!e.empty()) { vf::viol("lut", str(H) + ": " + e); H.pop_back(); if(vf::tooMany()) return false; continue; }
        if(!walkLUT(m, q, depth - 1, maxSize)) return false;
        H.pop_back(); }
    return true; }
static void P16() {
    bool th = vf::thorough(), san = vf::san();
    for(unsigned n = 0; n <= (th ? 6u : 5u); ++n) for(unsigned a = 0; a <= n; ++a) for(unsigned b = 0; b < std::max(1u, n); ++b) {
        if(!vf::mine(fmt("lut/%u/%u/%u", n, a, b))) continue;
        nT = nTr = 0; H.clear();
        LabelLUT l(n); Rep r; for(unsigned i = 0; i < n; ++i) r.push_back(i);
        if(n == 0) l = LabelLUT();
        std::string e = checkLUT(l, r); if(!e.empty()) { vf::viol("lut", e); continue; }
        LOp o; if(a == n) { if(b) continue; o = LOp{1, 0, 0}; l.appendOne(); r.push_back(n); } else { o = LOp{0, a, b}; l.relabel(a, b); for(auto &x : r) if(x == a) x = b; }
        H.push_back(o); ++nT;
        e = checkLUT(l, r); if(!e.empty()) { vf::viol("lut", str(H) + ": " + e); continue; }
        walkLUT(l, r, (san ? 4 : th ? 7 : 6) - (n > 4), n + 2);
        vf::count("transitions", nT); vf::count("traces", nTr); }
    vf::count("states", distLUT.seen.size());
    // long chains: every order of merging n labels along fixed patterns
    for(unsigned n = 6; n <= (th ? 9u : 8u); ++n) { if(!vf::mine(fmt("lut-chain/%u", n))) continue;
        std::vector<unsigned> o; for(unsigned i = 1; i < n; ++i) o.push_back(i);
        do { for(int pat = 0; pat < 3; ++pat) { LabelLUT l(n); Rep r; for(unsigned i = 0; i < n; ++i) r.push_back(i);
                std::string e; vf::count("traces");
                for(unsigned x : o) { unsigned from = r[x], to = pat == 0 ? r[0] : r[x - 1]; if(pat == 2) std::swap(from, to); if(from == to) continue;
                    l.relabel(from, to); for(auto &y : r) if(y == from) y = to; vf::count("transitions"); }
                e = checkLUT(l, r); if(!e.empty()) { vf::viol("lut-chain", fmt("pattern %d: ", pat) + e); if(vf::tooMany()) return; } }
        } while(std::next_permutation(o.begin(), o.end())); }
}

// ---------------------------------------------------------------- P22
typedef vigra::DigitalStraightLine<int, true> DSL8;
typedef vigra::DigitalStraightLine<int, false> DSL4;
struct Pt { int x, y; };
// does some line y = floor(alpha x + beta) digitize to all points?  exact: pairwise bounds on alpha
static bool isDSS(const std::vector<Pt> &p) {
    // lower bound ln/ld (strict), upper bound un/ud (strict)
    long ln = -1000000, ld = 1, un = 1000000, ud = 1;
    for(size_t i = 0; i < p.size(); ++i) for(size_t j = 0; j < p.size(); ++j) {
        long dx = p[j].x - p[i].x, dy = p[j].y - p[i].y; if(dx <= 0) { if(dx == 0 && dy != 0) return false; continue; }
        // y_i - a x_i < y_j + 1 - a x_j  =>  a dx < dy + 1 ;  and symmetric  a dx > dy - 1
        if((dy + 1) * ud < un * dx) { un = dy + 1; ud = dx; }
        if((dy - 1) * ld > ln * dx) { ln = dy - 1; ld = dx; } }
    return ln * ud < un * ld; }
static std::string chk(const DSL8 &d, const std::vector<Pt> &p, const char *who) {     // points relative to the line's origin
    if(d.b() <= 0 || d.a() < 0 || d.a() > d.b()) return fmt("%s: parameters (%d,%d,%d) leave the first octant", who, d.a(), d.b(), d.pos());
    int lo = INT32_MAX, hi = INT32_MIN;
    for(auto &q : p) { int v = d(q.x, q.y) - d.pos(); lo = std::min(lo, v); hi = std::max(hi, v);
        if(v < 0 || v >= d.width()) return fmt("%s: accepted point (%d,%d) is outside the line (%d,%d,%d)", who, q.x, q.y, d.a(), d.b(), d.pos());
        if(!d.contains(q.x, q.y)) return fmt("%s: contains(%d,%d) is false", who, q.x, q.y); }
    if(p.size() > 1 && (lo != 0 || hi != d.width() - 1)) return fmt("%s: no leaning points on the borders of (%d,%d,%d): %d..%d", who, d.a(), d.b(), d.pos(), lo, hi);
    return ""; }
static std::string chkDerived(const DSL8 &d, const std::vector<Pt> &p) {
    DSL8 mx(d), my(d), mxy(d); mx.mirrorX(); my.mirrorY(); mxy.mirrorXY();
    if(mx.width() != d.width() || d.width() != d.b()) return "width() wrong";
    DSL4 f = d.convertToFourConnected();
    for(int x = -2; x <= 14; ++x) for(int y = -3; y <= 12; ++y) {
        bool c = d.contains(x, y), r = d.a() * x - d.b() * y - d.pos() >= 0 && d.a() * x - d.b() * y - d.pos() < d.b();
        if(c != r) return fmt("contains(%d,%d) of (%d,%d,%d) wrong", x, y, d.a(), d.b(), d.pos());
        // mirrored lines contain exactly the mirrored points (mirrorX: x -> -x)
        if(mx.contains(-x, y) != c) return "mirrorX() does not contain the mirrored points";
        if(my.contains(x, -y) != c) return "mirrorY() does not contain the mirrored points";
        if(mxy.contains(-x, -y) != c) return "mirrorXY() does not contain the mirrored points";
        // 8-connected (x, y) is 4-connected (x - y, y)
        if(f.contains(x - y, y) != c) return "convertToFourConnected() does not contain the corresponding points"; }
    typedef DSL8::RationalType R;
    if(d.slope() != R(d.a(), d.b())) return "slope() wrong";
    if(d.axisIntercept(vigra::DSL::UpperLeaningLine) != R(-d.pos(), d.b()) || d.axisIntercept(vigra::DSL::LowerLeaningLine) != R(-d.pos() - d.b() + 1, d.b()) || d.axisIntercept() != R(-2 * d.pos() - d.b() + 1, 2 * d.b())) return "axisIntercept() wrong";
    return ""; }
static uint64_t dT, dTr; static vf::Distinct distDSL;
static void noteDSL(const DSL8 &d, size_t n) { distDSL.begin(); distDSL.add((uint64_t)d.a()); distDSL.add((uint64_t)d.b()); distDSL.add((uint64_t)d.pos()); distDSL.add((uint64_t)n); distDSL.end(); } static std::string codes;
// all chains from the origin forwards (dir=1) or backwards (dir=-1)
static bool walkDSL(const DSL8 &d, std::vector<Pt> &p, int depth, int dir) {
    if(!depth) { ++dTr; return true; }
    for(int c = 0; c < 2; ++c) {
        Pt q{p.back().x + dir, p.back().y + dir * c}; codes.push_back('0' + c); ++dT;
        DSL8 n(d); p.push_back(q); std::string e; bool want = isDSS(p), got = false;
        if(dir < 0 && q.y == 0) { p.pop_back(); codes.pop_back(); continue; }   // points on the negative x axis are not accepted
        vf::setDetail(codes);
        try { got = n.addPoint(q.x, q.y); } catch(std::exception &x) { e = std::string("exception: ") + x.what(); }
        if(e.empty() && got != want) e = fmt("addPoint(%d,%d) %s the point, but %s line digitizes to all of them", q.x, q.y, got ? "accepts" : "refuses", want ? "a" : "no");
        if(e.empty() && !got && (n.a() != d.a() || n.b() != d.b() || n.pos() != d.pos())) e = fmt("refused point (%d,%d) changed the line", q.x, q.y);
        noteDSL(n, p.size()); if(e.empty() && got) e = chk(n, p, "line");
        if(e.empty() && got && p.size() < 9) e = chkDerived(n, p);
        if(!e.empty()) { vf::viol(dir > 0 ? "dsl-forward" : "dsl-backward", "codes " + codes + ": " + e); if(vf::tooMany()) return false; }
        else if(got) { if(!walkDSL(n, p, depth - 1, dir)) return false; }
        else { ++dTr; }
        p.pop_back(); codes.pop_back(); }
    return true; }
// all ways of extending a line at either end, each time relative to the other end
static bool walkMixed(const DSL8 &d, std::vector<Pt> &p, int depth) {
    if(!depth) { ++dTr; return true; }
    for(int end = 0; end < 2; ++end) for(int c = 0; c < 2; ++c) {
        Pt o = end ? p.front() : p.back(), z = end ? p.back() : p.front(); int s = end ? 1 : -1; Pt q{z.x + s, z.y + s * c}, rel{q.x - o.x, q.y - o.y};
        if(rel.x < 0 && rel.y == 0) continue;
        codes += fmt("%c%d", end ? '+' : '-', c); ++dT; vf::setDetail(codes);
        DSL8 n(d); std::vector<Pt> w = p; if(end) w.push_back(q); else w.insert(w.begin(), q);
        std::string e; bool want = isDSS(w), got = false;
        n.setPos(n.pos() - n(o.x, o.y)); DSL8 before(n);
        try { got = n.addPoint(rel.x, rel.y); } catch(std::exception &x) { e = std::string("exception: ") + x.what(); }
        if(e.empty() && got != want) e = fmt("addPoint(%d,%d) %s the point, but %s line digitizes to all of them", rel.x, rel.y, got ? "accepts" : "refuses", want ? "a" : "no");
        if(e.empty() && !got && (n.a() != before.a() || n.b() != before.b() || n.pos() != before.pos())) e = fmt("refused point (%d,%d) changed the line", rel.x, rel.y);
        n.setPos(n.pos() + n(o.x, o.y));
        noteDSL(n, w.size()); if(e.empty() && got) e = chk(n, w, "line");
        if(!e.empty()) { vf::viol("dsl-mixed", "extensions " + codes + ": " + e); if(vf::tooMany()) return false; }
        else if(got) { if(!walkMixed(n, w, depth - 1)) return false; }
        else ++dTr;
        codes.resize(codes.size() - 2); }
    return true; }
// symmetric tangent: longest symmetric stretch around a point made of two codes that is digitally straight
static int refTangent(const std::vector<int> &c, int idx, bool closed, std::vector<Pt> &best) {
    int n = c.size(); best.clear();
    if(closed) idx %= n;
    int res = 0; std::set<int> used;
    for(int k = 1; k <= (closed ? n : std::min(idx, n - idx)); ++k) {
        int f = c[(idx + k - 1) % n], b = c[((idx - k) % n + n) % n];
        used.insert(f); used.insert(b); if(used.size() > 2) break;
        std::vector<Pt> p; Pt a{0, 0}; p.push_back(a);
        for(int j = 0; j < k; ++j) { a.x++; a.y += c[(idx + j) % n] & 1; p.push_back(a); }
        a = Pt{0, 0}; for(int j = 1; j <= k; ++j) { a.x--; a.y -= c[((idx - j) % n + n) % n] & 1; p.push_back(a); }
        if(!isDSS(p)) break;
        res = k; best = p; }
    return res; }
static std::string checkTangent(const std::vector<int> &c, int idx, bool closed) {
    DSL8 d(77, 78, 79); std::vector<Pt> p; int want = refTangent(c, idx, closed, p), got;
    got = vigra::tangentDSL(c.begin(), c.end(), idx, closed, d);
    // a stretch made of one code only may be given up (no second code found before the end or a third code)
    bool one = true; for(int k = 1; k <= want; ++k) { int n = c.size(); if(c[(idx + k - 1) % n] != c[idx % n] || c[((idx - k) % n + n) % n] != c[idx % n]) one = false; }
    if(got != want && !(one && got == 0)) return fmt("tangent at %d extends over %d steps, expected %d", idx, got, want);
    if(got == 0) { if(d.a() != 77 || d.b() != 78 || d.pos() != 79) return "failed tangent changed the line"; return ""; }
    return chk(d, p, "tangent"); }
template<class L> static void rejects(const char *kind) {      // lines addPoint() does not support
    for(int a = -4; a <= 4; ++a) for(int b = -4; b <= 4; ++b) for(int pos = -3; pos <= 3; ++pos) {
        L l(a, b, pos); if(!a && !b) continue;
        if(std::string(kind) == "eight" && 0 <= a && a <= b) continue;
        for(int x = -3; x <= 3; ++x) for(int y = -3; y <= 3; ++y) {
            vf::count("rejected_calls"); L n(l); bool thrown = false;
            try { n.addPoint(x, y); } catch(std::exception &) { thrown = true; }
            if(!thrown) { vf::viol("reject", fmt("addPoint(%d,%d) on the %s-connected line (%d,%d,%d) is not rejected", x, y, kind, a, b, pos)); return; }
            if(n.a() != a || n.b() != b || n.pos() != pos) { vf::viol("reject", fmt("rejected addPoint(%d,%d) changed the %s-connected line (%d,%d,%d)", x, y, kind, a, b, pos)); return; } } } }
static void P22() {
    bool th = vf::thorough(), san = vf::san();
    if(vf::mine("reject/eight")) rejects<DSL8>("eight");
    if(vf::mine("reject/four")) rejects<DSL4>("four");
    int N = san ? 10 : th ? 48 : 36;
    for(int dir : {1, -1}) for(int c0 = 0; c0 < 8; ++c0) {     // the first three codes select the case
        if(!vf::mine(fmt("dsl/%d/%d", dir, c0))) continue;
        dT = dTr = 0; codes.clear(); std::vector<Pt> p{Pt{0, 0}}; DSL8 d(c0 & 1, 1, 0); codes.push_back('0' + (c0 & 1));
        p.push_back(Pt{dir, dir * (c0 & 1)}); std::string e; bool ok = true;
        if(dir < 0 && !(c0 & 1)) { // start with a horizontal step: contained already
            if(!d.contains(-1, 0)) vf::viol("dsl", "horizontal line does not contain (-1,0)"); }
        for(int k = 1; k < 3 && ok; ++k) { int c = c0 >> k & 1; Pt q{p.back().x + dir, p.back().y + dir * c}; p.push_back(q); codes.push_back('0' + c); bool want = isDSS(p), got = false;
            if(dir < 0 && q.y == 0) { continue; }
            ++dT; try { got = d.addPoint(q.x, q.y); } catch(std::exception &x) { e = std::string("exception: ") + x.what(); }
            if(e.empty() && got != want) e = "addPoint() wrong"; if(e.empty() && got) e = chk(d, p, "line"); if(!got) ok = false; }
        if(!e.empty()) { vf::viol("dsl", "codes " + codes + ": " + e); continue; }
        if(ok) walkDSL(d, p, N - 3, dir);
        vf::count("transitions", dT); vf::count("traces", dTr);  }
    for(int c0 = 0; c0 < 2; ++c0) for(int c1 = 0; c1 < 4; ++c1) {      // the first code and the first extension select the case
        if(!vf::mine(fmt("mixed/%d/%d", c0, c1))) continue;
        dT = dTr = 0; codes = fmt("%d", c0); std::vector<Pt> p{Pt{0, 0}, Pt{1, c0}}; DSL8 d(c0, 1, 0);
        std::string e; int end = c1 >> 1, c = c1 & 1; if(!end && !c && !c0) continue;
        Pt o = end ? p[0] : p[1], z = end ? p[1] : p[0]; int sg = end ? 1 : -1; Pt q{z.x + sg, z.y + sg * c};
        codes += fmt("%c%d", end ? '+' : '-', c); d.setPos(d.pos() - d(o.x, o.y)); ++dT; bool got = false;
        try { got = d.addPoint(q.x - o.x, q.y - o.y); } catch(std::exception &x) { e = std::string("exception: ") + x.what(); }
        d.setPos(d.pos() + d(o.x, o.y)); if(end) p.push_back(q); else p.insert(p.begin(), q);
        if(e.empty() && !got) e = "third point refused"; if(e.empty()) e = chk(d, p, "line");
        if(!e.empty()) vf::viol("dsl-mixed", "extensions " + codes + ": " + e); else walkMixed(d, p, san ? 5 : th ? 15 : 13);
        vf::count("transitions", dT); vf::count("traces", dTr);  }
    vf::count("states", distDSL.seen.size());     // distinct lines
    // tangents: all open code chains over two adjacent codes (and a third code), every index
    static const int pairs[][3] = {{0, 1, 2}, {1, 2, 3}, {3, 0, 1}, {2, 3, 0}};
    int L = san ? 7 : th ? 16 : 14;
    for(int pr = 0; pr < 4; ++pr) for(int len = 2; len <= L; ++len) for(int part = 0; part < 4; ++part) {
        if(!vf::mine(fmt("tangent/%d/%d/%d", pr, len, part))) continue;
        for(int bits = 0; bits < (1 << len); ++bits) { if((bits & 3) != part) continue;
            for(int third = -1; third < len; ++third) { if(third >= 0 && len > 8) break;
                std::vector<int> c; for(int i = 0; i < len; ++i) c.push_back(i == third ? pairs[pr][2] : pairs[pr][bits >> i & 1]);
                for(int idx = 1; idx < len; ++idx) { vf::count("transitions");
                    std::string s; for(int x : c) s += '0' + x; vf::setDetail(s + fmt(" at %d", idx));
                    std::string e; try { bool same = true; for(int x : c) if(x != c[0]) same = false; e = checkTangent(c, idx, false); } catch(std::exception &x) { e = std::string("exception: ") + x.what(); }
                    if(!e.empty()) { vf::viol("tangent", s + fmt(" at %d: ", idx) + e); if(vf::tooMany()) return; } } vf::count("traces"); } vf::count("states"); } }
    // closed chains: all closed crack contours with up to 14 (16) steps
    int M = san ? 8 : th ? 16 : 14;
    for(int len = 4; len <= M; len += 2) for(int c0 = 0; c0 < 16; ++c0) {
        if(!vf::mine(fmt("closed/%d/%d", len, c0))) continue;
        for(long w = 0; w < (1l << (2 * (len - 2))); ++w) { std::vector<int> c{c0 & 3, c0 >> 2}; for(int i = 0; i < len - 2; ++i) c.push_back(w >> (2 * i) & 3);
            int x = 0, y = 0; bool ok = true; for(int i = 0; i < len; ++i) { if(((c[i] ^ c[(i + 1) % len]) & 3) == 2) { ok = false; break; } static const int dx[] = {1, 0, -1, 0}, dy[] = {0, 1, 0, -1}; x += dx[c[i]]; y += dy[c[i]]; }
            if(!ok || x || y) continue;
            std::set<int> u(c.begin(), c.end()); if(u.size() < 3) continue;
            vf::count("states");
            vf::count("traces");
            for(int idx = 0; idx < len; ++idx) { vf::count("transitions"); std::string s; for(int q : c) s += '0' + q; vf::setDetail(s + fmt(" at %d", idx));
                std::string e; try { e = checkTangent(c, idx, true); } catch(std::exception &q) { e = std::string("exception: ") + q.what(); }
                if(!e.empty()) { vf::viol("tangent-closed", s + fmt(" at %d: ", idx) + e); if(vf::tooMany()) return; } } } }
}
int main(int argc, char **argv) {
    vf::init(argc, argv); const std::string &p = vf::ctx().prop;
    if(p == "P16") P16(); else if(p == "P22") P22(); else return 3;
    return vf::finish(); }
