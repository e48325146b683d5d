// Polygons: edit histories (P13), scan conversion (P14), algorithms (P15).
#include "common.hpp"
#include "refmap.hpp"
#include <memory>
#include <vigra/stdimage.hxx>
#include <vigra/tinyvector.hxx>
#include <vigra/multi_array.hxx>
#include "polygon.hxx"
using namespace ref;
using vf::fmt;
typedef vigra::TinyVector<double, 2> V2;
typedef vigra::PointArray<V2> PA;
typedef vigra::Polygon<V2> PG;
typedef vigra::BBoxPolygon<V2> BP;
static V2 V(P2 p) { return V2(p.x, p.y); }
static std::string str(P2 p) { return fmt("(%g,%g)", p.x, p.y); }
static std::string str(const Poly &p) { std::string r = "["; for(auto &q : p) r += str(q); return r + "]"; }
static BP B(const Poly &p) { BP r; for(auto &q : p) r.push_back(V(q)); return r; }
template<class A> static Poly unpack(const A &a) { Poly r; for(size_t i = 0; i < a.size(); ++i) r.push_back(P2{a[i][0], a[i][1]}); return r; }
static bool close(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }

// ---------------------------------------------------------------- P13
static std::string checkBox(const BP &p, const Poly &m) {
    Box b; b.add(m); BP::BoundingBox x = p.boundingBox();
    if(m.empty()) return x.isEmpty() ? "" : "bounding box of an empty polygon is not empty";
    if(x.begin()[0] != b.x0 || x.begin()[1] != b.y0 || x.end()[0] != b.x1 || x.end()[1] != b.y1)
        return fmt("boundingBox() (%g,%g)..(%g,%g), points lie in (%g,%g)..(%g,%g)", x.begin()[0], x.begin()[1], x.end()[0], x.end()[1], b.x0, b.y0, b.x1, b.y1);
    return ""; }
static std::string checkBox(const PG &, const Poly &) { return ""; }
template<class G> static std::string checkPoly(const G &p, const Poly &m, const char *who) {
    if(unpack(p) != m) return fmt("%s has points ", who) + str(unpack(p)) + ", expected " + str(m);
    if(!close(p.length(), length(m))) return fmt("%s: length() %.17g, points give %.17g", who, p.length(), length(m));
    if(!close(p.partialArea(), partialArea(m))) return fmt("%s: partialArea() %.17g, points give %.17g", who, p.partialArea(), partialArea(m));
    std::string e = checkBox(p, m); if(!e.empty()) return std::string(who) + ": " + e;
    if(!m.empty() && p.closed() != (m.front() == m.back())) return fmt("%s: closed() is wrong", who);
    Poly r; for(auto it = p.rbegin(); it != p.rend() && r.size() < 100; ++it) r.push_back(P2{(*it)[0], (*it)[1]});
    std::reverse(r.begin(), r.end()); if(r != m) return fmt("%s: reverse iteration visits other points", who);
    if(!m.empty() && (P2{p.front()[0], p.front()[1]} != m.front() || P2{p.back()[0], p.back()[1]} != m.back())) return fmt("%s: front() or back() is wrong", who);
    return ""; }
enum { PUSH, INSERT, INSERT_RANGE, ERASE, SET, EXTEND, REVERSE, SWAP, SWAP_ARRAY, SPLIT_L, SPLIT_R, CLEAR, COPY, ASSIGN, WRITE, SELF, QUERY };
static const char *opName[] = {"push", "insert", "insertRange", "erase", "set", "extend", "reverse", "swap", "swapArray", "splitKeepFirst", "splitKeepRest", "clear", "copy", "assign", "write+invalidate", "self", "query"};
struct POp { int t, i, v; };
static std::string str(const POp &o) { return fmt("%s(%d,%d)", opName[o.t], o.i, o.v); }
static const Poly PTS = {P2{0, 0}, P2{3, 1}, P2{-2, 4}, P2{1, -5}};
static const std::vector<Poly> OTHERS = {Poly{}, Poly{P2{3, 1}}, Poly{P2{-2, 4}, P2{6, 2}, P2{0, 0}}, Poly{P2{0, 0}, P2{-2, -3}, P2{3, 1}}};
template<class G> static void query(const G &p, int which);
template<> void query(const BP &p, int w) { if(w & 1) p.length(); if(w & 2) p.partialArea(); if(w & 4) p.boundingBox(); }
template<> void query(const PG &p, int w) { if(w & 1) p.length(); if(w & 2) p.partialArea(); }
static const size_t MAXLEN = 7;
static std::vector<POp> polyOps(size_t n, bool bbox, int npts, bool lastWasQuery) {
    std::vector<POp> r;
    if(n < MAXLEN) for(int v = 0; v < npts; ++v) r.push_back(POp{PUSH, 0, v});
    if(n < MAXLEN) for(int i = 0; i <= (int)n; ++i) for(int v = 0; v < npts; ++v) r.push_back(POp{INSERT, i, v});
    if(n < MAXLEN - 2) for(int i = 0; i <= (int)n; i += 2) r.push_back(POp{INSERT_RANGE, i, 2});
    for(int i = 0; i < (int)n; ++i) r.push_back(POp{ERASE, i, 0});
    for(int i = 0; i < (int)n; ++i) for(int v = 0; v < npts; ++v) r.push_back(POp{SET, i, v});
    if(n < MAXLEN - 2) for(int v = 0; v < (int)OTHERS.size(); ++v) for(int q : {0, 7}) r.push_back(POp{EXTEND, q, v});
    r.push_back(POp{REVERSE, 0, 0});
    for(int v = 0; v < (int)OTHERS.size(); v += 2) for(int q : {0, 7}) r.push_back(POp{SWAP, q, v});
    r.push_back(POp{SWAP_ARRAY, 0, 3});
    for(int i = 0; i < (int)n; ++i) { r.push_back(POp{SPLIT_L, i, 0}); r.push_back(POp{SPLIT_R, i, 0}); }
    r.push_back(POp{CLEAR, 0, 0}); r.push_back(POp{COPY, 0, 0}); r.push_back(POp{ASSIGN, 7, 2});
    if(n) r.push_back(POp{WRITE, (int)n / 2, npts - 1});
    if(2 * n <= MAXLEN) r.push_back(POp{SELF, 0, 0});
    r.push_back(POp{SELF, 0, 1}); r.push_back(POp{SELF, 0, 2});
    if(n && n < MAXLEN) { r.push_back(POp{SELF, 0, 3}); for(int i = 0; i <= (int)n; i += n < 2 ? 1 : n) r.push_back(POp{SELF, i, 4}); }
    if(!lastWasQuery) for(int q = 1; q < (bbox ? 8 : 4); ++q) r.push_back(POp{QUERY, q, 0});
    return r; }
template<class G> static std::string applyPoly(G &p, Poly &m, const POp &o) {
    V2 v = o.t == PUSH || o.t == INSERT || o.t == SET || o.t == WRITE ? V(PTS[o.v]) : V2();
    switch(o.t) {
      case PUSH: p.push_back(v); m.push_back(PTS[o.v]); break;
      case INSERT: { typename G::iterator it = p.insert(p.begin() + o.i, v); m.insert(m.begin() + o.i, PTS[o.v]); if(it - p.begin() != o.i) return "insert() returned the wrong position"; break; }
      case INSERT_RANGE: { std::vector<V2> r; for(auto &q : OTHERS[o.v]) r.push_back(V(q)); typename G::iterator it = p.insert(p.begin() + o.i, r.begin(), r.end());
            m.insert(m.begin() + o.i, OTHERS[o.v].begin(), OTHERS[o.v].end()); if(it - p.begin() != o.i) return "insert(range) returned the wrong position"; break; }
      case ERASE: p.erase(p.begin() + o.i); m.erase(m.begin() + o.i); break;
      case SET: p.setPoint(o.i, v); m[o.i] = PTS[o.v]; break;
      case EXTEND: { std::vector<V2> r; for(auto &q : OTHERS[o.v]) r.push_back(V(q)); G other(r.begin(), r.end()); query(other, o.i); p.extend(other);
            const Poly &x = OTHERS[o.v]; if(!x.empty()) m.insert(m.end(), x.begin() + (!m.empty() && m.back() == x[0]), x.end());
            return checkPoly(other, OTHERS[o.v], "the polygon appended"); }
      case REVERSE: p.reverse(); std::reverse(m.begin(), m.end()); break;
      case SWAP: { std::vector<V2> r; for(auto &q : OTHERS[o.v]) r.push_back(V(q)); G other(r.begin(), r.end()); query(other, o.i); p.swap(other); Poly old = m; m = OTHERS[o.v]; return checkPoly(other, old, "the swapped polygon"); }
      case SWAP_ARRAY: { PA other; for(auto &q : OTHERS[o.v]) other.push_back(V(q)); p.swap(other); Poly old = m; m = OTHERS[o.v]; if(unpack(other) != old) return "swap() with an array lost points"; break; }
      case SPLIT_L: { G rest(p.split(o.i)); Poly r(m.begin() + o.i, m.end()); m.erase(m.begin() + o.i + 1, m.end()); return checkPoly(rest, r, "the part split off"); }
      case SPLIT_R: { G rest(p.split(o.i)); Poly r(m.begin() + o.i, m.end()); m.erase(m.begin() + o.i + 1, m.end()); std::string e = checkPoly(p, m, "the part kept"); if(!e.empty()) return e; p.swap(rest); m = r; break; }
      case CLEAR: p.clear(); m.clear(); break;
      case COPY: { G c(p); std::string e = checkPoly(c, m, "a copy"); if(!e.empty()) return e; c.push_back(V(PTS[1])); c.reverse(); break; }
      case ASSIGN: { std::vector<V2> r; for(auto &q : OTHERS[o.v]) r.push_back(V(q)); G other(r.begin(), r.end()); query(other, o.i); p = other; m = OTHERS[o.v]; other.push_back(V(PTS[1])); break; }
      case WRITE: p[o.i] = v; m[o.i] = PTS[o.v]; p.invalidateProperties(); break;
      case SELF:      // the argument is (part of) the polygon itself
        if(o.v == 0) { p.extend(p); Poly x = m; if(!x.empty()) m.insert(m.end(), x.begin() + (m.back() == x[0]), x.end()); }
        else if(o.v == 1) { G &same = p; p = same; }
        else if(o.v == 2) { G &same = p; p.swap(same); }
        else if(o.v == 3) { p.push_back(p[0]); m.push_back(P2(m[0])); }
        else { p.insert(p.begin() + o.i, p[p.size() - 1]); P2 x = m.back(); m.insert(m.begin() + o.i, x); }
        break;
      case QUERY: query(p, o.i); break;
    }
    return ""; }
static uint64_t nTrans, nTraces; static vf::Distinct dist13;
static void note13(const Poly &m) { dist13.begin(); for(auto &q : m) { dist13.add(q.x); dist13.add(q.y); } dist13.end(); }
static std::vector<POp> phist;
static std::set<vf::Key> pseen;
template<class G> static bool walkPoly(const G &p, const Poly &m, int depth, bool bbox, int npts, bool wasQuery) {
    if(depth == 0) { ++nTraces; return true; }
    for(auto &o : polyOps(m.size(), bbox, npts, wasQuery)) {
        phist.push_back(o); ++nTrans;
        G q(p); Poly n = m;
        std::string e = applyPoly(q, n, o); note13(n);
        if(e.empty() && o.t != QUERY) { G c(q); e = checkPoly(c, n, "the polygon"); }
        if(!e.empty()) {
            std::string h; for(auto &x : phist) h += " " + str(x);
            vf::viol(fmt("history-%s", opName[o.t]), "after" + h + ": " + e);
            if(vf::tooMany()) return false;
        } else if(!walkPoly(q, n, depth - 1, bbox, npts, o.t == QUERY)) return false;
        phist.pop_back();
    }
    return true; }
template<class G> static void P13run(const char *name, bool bbox) {
    bool th = vf::thorough(), san = vf::san();
    int depth = san ? 3 : 4; if(th) ++depth; if(!bbox && !th) depth = 3;
    std::vector<Poly> starts = {Poly{}, Poly{P2{3, 1}}, Poly{P2{0, 0}, P2{3, 1}, P2{-2, 4}}, Poly{P2{0, 0}, P2{3, 1}, P2{3, 6}, P2{0, 0}}};
    for(size_t si = 0; si < starts.size(); ++si) for(int q0 = 0; q0 < (bbox ? 8 : 4); ++q0) {
        if(si > 1 && depth > 3 && q0 != 0 && q0 != 7 && q0 != 4 && !th) continue;
        // one case per first operation
        int npts = th ? 4 : 3;
        for(auto &o : polyOps(starts[si].size(), bbox, npts, true)) {
            if(!vf::mine(fmt("%s/s%zu/q%d/%s", name, si, q0, str(o).c_str()))) continue;
            std::vector<V2> r; for(auto &p : starts[si]) r.push_back(V(p));
            G p(r.begin(), r.end()); if(starts[si].empty()) p = G(); query(p, q0);
            Poly m = starts[si]; phist.clear(); phist.push_back(o); ++nTrans; note13(m);
            std::string e = applyPoly(p, m, o);
            if(e.empty()) { G c(p); e = checkPoly(c, m, "the polygon"); }
            if(!e.empty()) { vf::viol(fmt("history-%s", opName[o.t]), "after " + str(o) + ": " + e); if(vf::tooMany()) return; continue; }
            // polygons of up to 3 points are explored deepest; a history of d operations reaches size <= 7
            if(!walkPoly(p, m, std::max(1, depth - 1 - (int)(starts[si].size() > 2 && !th)), bbox, npts, false)) return;
        }
    }
    vf::count("transitions", nTrans); vf::count("traces", nTraces); vf::count("states", dist13.seen.size()); dist13.seen.clear(); nTrans = nTraces = 0; }
static void P13() { P13run<BP>("bbox", true); P13run<PG>("plain", false); }

// ---------------------------------------------------------------- P14
// pixel grid -4..7 x -4..7 as bit sets

static const int X0 = -3, N = 9;      // pixels -3..5
struct Cov { std::vector<char> c; };  // N*N of NO/YES/MAYBE
static std::vector<Cov> segCov; static std::vector<std::vector<signed char> > segWind; static Poly GP;
static void prepare(const std::vector<double> &xs, const std::vector<double> &ys) {
    GP.clear(); for(double x : xs) for(double y : ys) GP.push_back(P2{x, y});
    size_t n = GP.size(); segCov.assign(n * n, Cov()); segWind.assign(n * n, std::vector<signed char>());
    for(size_t a = 0; a < n; ++a) for(size_t b = 0; b < n; ++b) {
        Poly s{GP[a], GP[b]}; auto &c = segCov[a * n + b].c; auto &w = segWind[a * n + b]; c.resize(N * N); w.resize(N * N);
        for(int y = 0; y < N; ++y) for(int x = 0; x < N; ++x) { c[y * N + x] = pixelCrossed(s, x + X0, y + X0);
            P2 p{double(x + X0), double(y + X0)}; int k = 0; P2 A = GP[a], Bq = GP[b];
            if((A.y <= p.y) != (Bq.y <= p.y)) { double q = cross(Bq - A, p - A); if(A.y <= p.y) { if(q > 0) k = -1; } else if(q < 0) k = 1; }
            w[y * N + x] = k; } } }
typedef vigra::BImage Img;
struct Expect { char c[N * N]; int w[N * N]; };
static void expectOf(const int *idx, int k, bool closedPoly, Expect &e) {   // polyline idx[0..k)
    size_t n = GP.size(); memset(&e, 0, sizeof e);
    if(k == 1) for(int i = 0; i < N * N; ++i) e.c[i] = segCov[idx[0] * n + idx[0]].c[i];
    for(int s = 1; s < k; ++s) { auto &c = segCov[idx[s - 1] * n + idx[s]].c; auto &w = segWind[idx[s - 1] * n + idx[s]];
        for(int i = 0; i < N * N; ++i) { if(c[i] == YES) e.c[i] = YES; else if(c[i] == MAYBE && e.c[i] != YES) e.c[i] = MAYBE; e.w[i] += w[i]; } }
}
// coverage shown by scanlines (bit 1: covered); error if iteration is not strictly increasing or leaves the frame
static std::string coverage(const vigra::Scanlines &sl, char *cov) {
    memset(cov, 0, N * N);
    int ly = INT32_MIN, lx = 0;
    for(vigra::ScanlinesIter it(sl); it.inRange(); ++it) { vigra::Point2D p = *it;
        if(p.y == ly ? p.x <= lx : p.y <= ly) return fmt("scanline iteration visits (%d,%d) after (%d,%d)", p.x, p.y, lx, ly);
        ly = p.y; lx = p.x;
        if(p.x < X0 || p.y < X0 || p.x >= X0 + N || p.y >= X0 + N) return fmt("scanlines cover pixel (%d,%d) far off", p.x, p.y);
        cov[(p.y - X0) * N + p.x - X0] = 1; }
    return ""; }
static std::string cmpCov(const char *cov, const Expect &e, int y0 = X0, int y1 = X0 + N) {
    for(int y = 0; y < N; ++y) for(int x = 0; x < N; ++x) { int i = y * N + x; bool in = y + X0 >= y0 && y + X0 < y1;
        char want = in ? e.c[i] : NO;
        if(want != MAYBE && (want == YES) != (bool)cov[i]) return fmt("pixel (%d,%d) is %s, but the scanlines %s it", x + X0, y + X0, want == YES ? "crossed" : "not crossed", cov[i] ? "cover" : "do not cover"); }
    return ""; }
// an image of size w x h inside a bigger one with guards all around
static const int G = 3;
struct Canvas { int w, h; Img im; Canvas(int w, int h) : w(w), h(h), im(w + 2 * G, h + 2 * G) {}
    vigra::MultiArrayView<2, unsigned char, vigra::StridedArrayTag> view() { return vigra::MultiArrayView<2, unsigned char, vigra::StridedArrayTag>(vigra::Shape2(w, h), vigra::Shape2(1, w + 2 * G), &im(G, G)); } };
static std::string cmpPaint(Canvas &c, unsigned reported, const Expect &e, const char *cov, int ox, int oy, bool fill) {
    unsigned n = 0;
    for(int y = -G; y < c.h + G; ++y) for(int x = -G; x < c.w + G; ++x) {
        bool painted = c.im(x + G, y + G) != 0; bool in = x >= 0 && y >= 0 && x < c.w && y < c.h; n += painted;
        if(!in) { if(painted) return fmt("writes to (%d,%d) outside the %dx%d image", x, y, c.w, c.h); continue; }
        int gx = x + ox - X0, gy = y + oy - X0; char cr = NO; int w = 0; bool cv = false;
        if(gx >= 0 && gy >= 0 && gx < N && gy < N) { cr = e.c[gy * N + gx]; w = e.w[gy * N + gx]; cv = cov[gy * N + gx]; }
        bool want = fill ? (!cv && w > 0) : cv;
        if(painted != want) return fmt("%s %s pixel (%d,%d) (%s, winding number %d)", fill ? "filling" : "drawing", painted ? "writes" : "does not write", x, y, cr == YES ? "crossed" : cr == NO ? "not crossed" : "touched", w); }
    if(n != reported) return fmt("%s wrote %u pixels, but reported %u", fill ? "filling" : "drawing", n, reported);
    return ""; }
// the same scanlines, moved by whole pixels
static vigra::Scanlines moved(const vigra::Scanlines &a, int ox, int oy) {
    vigra::Scanlines r(a.startIndex() - oy, a.size());
    for(int y = a.startIndex(); y < a.endIndex(); ++y) { r[y - oy] = a[y]; for(auto &s : r[y - oy]) { s.begin -= ox; s.end -= ox; } }
    return r; }
static BP bp(const int *idx, int k) { BP r; for(int i = 0; i < k; ++i) r.push_back(V(GP[idx[i]])); return r; }
static uint64_t nRuns;    // calls of the code under test that were compared with the model
static std::string scanCase(const int *idx, int k, bool closedPoly, int more) {
    Expect e; expectOf(idx, k, closedPoly, e);
    BP p = bp(idx, k); char cov[N * N]; std::string r;
    std::auto_ptr<vigra::Scanlines> sl = vigra::scanPoly(p); ++nRuns;
    if(!(r = coverage(*sl, cov)).empty() || !(r = cmpCov(cov, e)).empty()) return r;
    // restricted to given rows
    if(more) for(int s : {0, 1}) { char c2[N * N]; std::auto_ptr<vigra::Scanlines> s2 = vigra::scanPoly((PA &)p, 2, s); if(!(r = coverage(*s2, c2)).empty()) return "restricted rows: " + r;
        ++nRuns; if(s2->startIndex() != s || s2->endIndex() != s + 2) return "scanPoly() with given rows has other rows";
        for(int i = 0; i < N * N; ++i) { int y = i / N + X0; if((bool)c2[i] != (cov[i] && y >= s && y < s + 2)) return fmt("scanning rows %d..%d only changes pixel (%d,%d)", s, s + 1, i % N + X0, y); } }
    // reversed line
    { char c2[N * N]; vigra::Scanlines rv(*sl); rv.reverse(); ++nRuns; if(!(r = coverage(rv, c2)).empty()) return "reversed: " + r; if(memcmp(c2, cov, N * N)) return "Scanlines::reverse() changes the coverage"; }
    // merging two parts
    if(k > 2) for(int cut = 1; cut + 1 < k; ++cut) { if(!more && cut != k / 2) continue;
        std::auto_ptr<vigra::Scanlines> a = vigra::scanPoly(bp(idx, cut + 1)), b = vigra::scanPoly(bp(idx + cut, k - cut));
        vigra::Scanlines m(*a); m += *b; ++nRuns; char c2[N * N]; if(!(r = coverage(m, c2)).empty()) return "merged: " + r;
        for(int i = 0; i < N * N; ++i) if((bool)c2[i] != (bool)cov[i] && e.c[i] != MAYBE) return fmt("merging the scanlines of both parts changes pixel (%d,%d)", i % N + X0, i / N + X0);
        vigra::Scanlines m2(*b); m2 += *a; ++nRuns; if(!(r = coverage(m2, c2)).empty()) return "merged: " + r;
        for(int i = 0; i < N * N; ++i) if((bool)c2[i] != (bool)cov[i] && e.c[i] != MAYBE) return fmt("merging the scanlines of both parts (second first) changes pixel (%d,%d)", i % N + X0, i / N + X0);
        if(closedPoly) for(int t = 0; t < 2; ++t) { Canvas c(N + 2, N + 2); unsigned n = 0; for(int i = 0; i < N * N; ++i) c2[i] = 0;
            coverage(t ? m2 : m, c2); vigra::Scanlines q = moved(t ? m2 : m, X0, X0);
            try { ++nRuns; n = vigra::fillScannedPoly(q, (unsigned char)1, c.view().traverser_begin(), c.view().shape(), vigra::StandardValueAccessor<unsigned char>()); } catch(std::exception &x) { return std::string("filling merged scanlines: ") + x.what(); }
            if(!(r = cmpPaint(c, n, e, c2, X0, X0, true)).empty()) return "merged parts: " + r; } }
    if(closedPoly) {
        // filling and drawing into images at all clipping offsets
        std::vector<std::pair<int, int> > sizes = {{3, 3}}; if(more) { sizes.push_back({1, 2}); sizes.push_back({6, 5}); }
        for(auto &wh : sizes) for(int oy = more ? -1 : 0; oy <= (more ? 1 : 0); ++oy) for(int ox = -1; ox <= 1; ++ox) {
            vigra::Scanlines q = moved(*sl, ox, oy);
            Canvas c(wh.first, wh.second), d(wh.first, wh.second); unsigned n;
            auto cv = c.view(), dv = d.view();
            try { ++nRuns; n = vigra::fillScannedPoly(q, (unsigned char)1, cv.traverser_begin(), cv.shape(), vigra::StandardValueAccessor<unsigned char>()); }
            catch(std::exception &x) { return std::string("filling: ") + x.what(); }
            if(!(r = cmpPaint(c, n, e, cov, ox, oy, true)).empty()) return fmt("image %dx%d at (%d,%d): ", wh.first, wh.second, ox, oy) + r;
            ++nRuns; n = vigra::drawScannedPoly(q, (unsigned char)1, dv.traverser_begin(), dv.shape(), vigra::StandardValueAccessor<unsigned char>());
            if(!(r = cmpPaint(d, n, e, cov, ox, oy, false)).empty()) return fmt("image %dx%d at (%d,%d): ", wh.first, wh.second, ox, oy) + r; }
        // reversed scanlines fill what the reversed polygon fills
        { vigra::Scanlines q0(*sl); q0.reverse(); vigra::Scanlines q = moved(q0, X0, X0); Canvas c(N, N); auto cv = c.view(); Expect e2 = e; for(int i = 0; i < N * N; ++i) e2.w[i] = -e.w[i];
            unsigned n;
            try { ++nRuns; n = vigra::fillScannedPoly(q, (unsigned char)1, cv.traverser_begin(), cv.shape(), vigra::StandardValueAccessor<unsigned char>()); } catch(std::exception &x) { return std::string("filling reversed: ") + x.what(); }
            if(!(r = cmpPaint(c, n, e2, cov, X0, X0, true)).empty()) return "reversed: " + r; }
    }
    return ""; }
static void scanAll(const char *name, int k, bool closedPoly, int more) {   // all polylines with k free vertices
    int n = GP.size(); std::vector<int> idx(k + 1);
    for(int a = 0; a < n; ++a) for(int b = 0; b < (k > 1 ? n : 1); ++b) {
        if(!vf::mine(fmt("%s/%d%s/%d/%d", name, k, closedPoly ? "c" : "o", a, b))) continue;
        idx.assign(k + 1, 0); idx[0] = a; if(k > 1) idx[1] = b; uint64_t done = 0;
        while(true) {
            if(closedPoly) idx[k] = a;
            ++done;
            std::string e = scanCase(idx.data(), closedPoly ? k + 1 : k, closedPoly, more);
            if(!e.empty()) { Poly p; for(int i = 0; i < k + closedPoly; ++i) p.push_back(GP[idx[i]]); vf::viol(closedPoly ? "scan-closed" : "scan-open", str(p) + ": " + e); if(vf::tooMany()) return; }
            int i = k - 1; while(i >= 2 && ++idx[i] == n) idx[i--] = 0;
            if(i < 2) break;
        }
        vf::count("states", done); vf::count("traces", nRuns); nRuns = 0; vf::count("transitions", done * k);
    } }
static void P14() {
    bool th = vf::thorough(), san = vf::san();
    std::vector<double> A = {-0.5, 0, 0.25, 0.5, 1.25, 1.5, 2.5}, C = {-0.5, 0.25, 0.5, 1.5, 2}, D = {-1.25, -0.5, 0.5, 1.5}, E = {0.5, 1, 1.5};
    if(!san) {
        prepare(A, A); scanAll("A", 1, false, 1); scanAll("A", 2, false, 1); scanAll("A", 3, false, 1); scanAll("A", 3, true, 1);
        if(th) scanAll("A", 4, true, 0);
        prepare(C, C); scanAll("C", 3, true, 1); scanAll("C", 3, false, 1); scanAll("C", 4, true, 1); if(th) scanAll("C", 4, false, 1);
        prepare(D, D); scanAll("D", 4, true, 1); if(th) scanAll("D", 5, true, 1);
        prepare(E, E); scanAll("E", 5, true, 1); if(th) scanAll("E", 6, true, 1);
        if(th) { std::vector<double> F; for(int i = -8; i <= 20; ++i) F.push_back(i * 0.125); prepare(F, F); scanAll("F", 2, true, 1); }
        std::vector<double> H = {-2, -1.5, -0.75, 0.5, 1.125, 2.5, 3, 4.5}; prepare(H, H); scanAll("H", 2, false, 1); scanAll("H", 3, true, 1);
    } else {
        prepare(C, C); scanAll("C", 2, false, 1); scanAll("C", 3, true, th); prepare(D, D); scanAll("D", 3, true, 1); prepare(E, E); scanAll("E", 4, true, 0); if(th) scanAll("E", 4, true, 1);
    }
}

// ---------------------------------------------------------------- P15
static double distSeg(P2 a, P2 b, P2 p) { P2 d = b - a; double l = dot(d, d); double t = l == 0 ? 0 : std::max(0.0, std::min(1.0, dot(p - a, d) / l)); return dist(p, P2{a.x + t * d.x, a.y + t * d.y}); }
static std::string checkHull(const Poly &p) {  ++nRuns;
    BP in = B(p), h; vigra::convexHull(in, h);
    Poly r = unpack(h), was = unpack(in);
    if(was != p) return "convexHull() changed its input";
    Poly u = p; std::sort(u.begin(), u.end()); u.erase(std::unique(u.begin(), u.end()), u.end());
    std::set<P2> extreme;
    for(auto &q : u) {      // extreme: not in the convex hull of the others, i.e. not on a segment or in a triangle of others
        bool ex = true;
        for(size_t i = 0; ex && i < u.size(); ++i) for(size_t j = i + 1; ex && j < u.size(); ++j) {
            if(u[i] == q || u[j] == q) continue;
            if(onSegment(u[i], u[j], q)) ex = false;
            for(size_t k = j + 1; ex && k < u.size(); ++k) { if(u[k] == q) continue;
                double a = cross(u[j] - u[i], q - u[i]), b = cross(u[k] - u[j], q - u[j]), c = cross(u[i] - u[k], q - u[k]);
                if((a > 0 && b > 0 && c > 0) || (a < 0 && b < 0 && c < 0)) ex = false; } }
        if(ex) extreme.insert(q); }
    if(r.empty() || r.front() != r.back()) return "hull is not closed: " + str(r);
    std::set<P2> have(r.begin(), r.end());
    if(have != extreme) { Poly x(extreme.begin(), extreme.end()); return "hull " + str(r) + " does not consist of the extreme points " + str(x); }
    if(u.size() > 1 && r.size() != extreme.size() + 1) return "hull has repeated points: " + str(r);
    for(size_t i = 1; i + 1 < r.size(); ++i) if(extreme.size() > 2) { double c = cross(r[i] - r[i - 1], r[i + 1] - r[i]); if(c == 0) return "hull has collinear points: " + str(r); }
    if(extreme.size() > 2) { int sg = 0; for(size_t i = 1; i < r.size(); ++i) { P2 a = r[i - 1], b = r[i], c = r[i + 1 < r.size() ? i + 1 : 1]; int s = cross(b - a, c - b) > 0 ? 1 : -1; if(sg && s != sg) return "hull is not convex: " + str(r); sg = s; }
        for(auto &q : p) for(size_t i = 1; i < r.size(); ++i) if(cross(r[i] - r[i - 1], q - r[i - 1]) * sg < 0) return "hull " + str(r) + " leaves out " + str(q);
        double turn = 0; for(size_t i = 1; i < r.size(); ++i) { P2 a = r[i] - r[i - 1], b = r[i + 1 < r.size() ? i + 1 : 1] - r[i]; turn += std::atan2(cross(a, b), dot(a, b)); } if(std::fabs(std::fabs(turn) - 2 * M_PI) > 1e-6) return "hull winds around more than once"; }
    return ""; }
static std::string checkSimplify(const Poly &p, double eps, double maxStep) {  ++nRuns;
    BP in = B(p), out; if(maxStep < 0) vigra::simplifyPolygon(in, out, eps); else vigra::simplifyPolygon(in, out, eps, maxStep);
    Poly r = unpack(out);
    if(r.size() < 2 || r.front() != p.front() || r.back() != p.back()) return "end points not kept: " + str(r);
    if(p.size() == 1) return r.size() == 2 ? "" : "simplified point: " + str(r);
    // r must be a subsequence such that the dropped points are near; coinciding points allow several assignments, try all
    std::function<bool(size_t, size_t)> rec = [&](size_t ri, size_t pi) -> bool {    // r[ri] assigned to p[pi]
        if(ri + 1 == r.size()) return pi + 1 == p.size();
        for(size_t q = pi + 1; q < p.size(); ++q) { if(p[q] != r[ri + 1]) continue;
            bool ok = true; P2 d = p[q] - p[pi]; double l = std::sqrt(dot(d, d));
            for(size_t k = pi + 1; ok && k < q; ++k) { double dev = l > 1e-8 ? std::fabs(cross(d, p[k] - p[pi])) / l : dist(p[k], p[pi]); if(dev > eps + 1e-9) ok = false; }
            if(ok && maxStep >= 0 && l > maxStep + 1e-9 && q > pi + 1) ok = false;
            if(ok && rec(ri + 1, q)) return true; }
        return false; };
    if(!rec(0, 0)) return fmt("tolerance %g, step %g: ", eps, maxStep) + str(r) + " is not a simplification";
    // nothing needs to be kept if everything is near the chord
    P2 d = p.back() - p.front(); double l = std::sqrt(dot(d, d)); bool all = true;
    for(size_t k = 1; k + 1 < p.size(); ++k) { double dev = l > 1e-8 ? std::fabs(cross(d, p[k] - p[0])) / l : dist(p[k], p[0]); if(dev > eps - 1e-9) all = false; }
    if(all && (maxStep < 0 || l <= maxStep - 1e-9) && r.size() != 2) return fmt("tolerance %g: keeps %zu points although all are near the chord", eps, r.size());
    return ""; }
static std::string checkAlgos(const Poly &p, const Poly &queries) { nRuns += queries.size() + 1;
    BP b = B(p);
    bool cl = p.size() > 1 && p.front() == p.back();
    for(auto &q : queries) {
        V2 n = b.nearestPoint(V(q)); P2 r{n[0], n[1]};
        double best = p.size() == 1 ? dist(p[0], q) : 1e300, on = p.size() == 1 ? dist(p[0], r) : 1e300; for(size_t i = 1; i < p.size(); ++i) { best = std::min(best, distSeg(p[i - 1], p[i], q)); on = std::min(on, distSeg(p[i - 1], p[i], r)); }
        if(!close(dist(r, q), best)) return fmt("nearestPoint%s = %s at distance %g, best is %g", str(q).c_str(), str(r).c_str(), dist(r, q), best);
        if(on > 1e-9) return fmt("nearestPoint%s = %s is not on the polygon", str(q).c_str(), str(r).c_str());
        if(cl && !onPoly(p, q)) { if(b.contains(V(q)) != inside(p, q)) return fmt("contains%s wrong", str(q).c_str());
            if(((PG &)b).PG::contains(V(q)) != inside(p, q)) return fmt("Polygon::contains%s wrong", str(q).c_str()); }
    }
    if(p.size() > 1 && !cl) { bool t = false; try { ((PG &)b).PG::contains(V(P2{0.25, 0.25})); } catch(std::exception &) { t = true; } if(!t) return "contains() accepts an open polygon"; }
    if(cl) { double A = -partialArea(p); if(A != 0) { double cx = 0, cy = 0; for(size_t i = 1; i < p.size(); ++i) { double c = p[i - 1].x * p[i].y - p[i - 1].y * p[i].x; cx += (p[i - 1].x + p[i].x) * c; cy += (p[i - 1].y + p[i].y) * c; }
            V2 c = vigra::centroid((PG &)b); if(!close(c[0], cx / 6 / A) || !close(c[1], cy / 6 / A)) return fmt("centroid() (%g,%g), expected (%g,%g)", c[0], c[1], cx / 6 / A, cy / 6 / A); } }
    for(size_t i = 0; i + 1 < p.size(); ++i) for(double t : {0.0, 0.25, 1.0}) { V2 v = b.interpolate(i, t); if(!close(v[0], p[i].x + t * (p[i + 1].x - p[i].x)) || !close(v[1], p[i].y + t * (p[i + 1].y - p[i].y))) return fmt("interpolate(%zu, %g) wrong", i, t); }
    std::vector<double> al; b.arcLengthList(al); if(al.size() != p.size()) return "arcLengthList() has the wrong size";
    for(size_t i = 0; i < p.size(); ++i) if(!close(al[i], length(Poly(p.begin(), p.begin() + i + 1)))) return fmt("arcLengthList()[%zu] = %g", i, al[i]);
    if(p.size() > 2 && length(p) > 0) for(double step : {0.75, 1.0, 2.5, 100.0}) {
        BP out; vigra::resamplePolygonLinearInterpolation(b, out, step); Poly r = unpack(out); double L = length(p);
        double q = L / step; int n = (int)std::ceil(q); bool knife = std::fabs(q - std::floor(q + 0.5)) < 1e-9;
        if((int)r.size() != n + 1 && !(knife && std::abs((int)r.size() - n - 1) <= 1)) return fmt("resampling with step %g gives %zu points for length %g", step, r.size(), L);
        n = r.size() - 1;
        for(int k = 0; k <= n; ++k) { double s = L * k / n; size_t i = 1; while(i + 1 < p.size() && al[i] < s) ++i; double d = al[i] - al[i - 1], t = d > 0 ? (s - al[i - 1]) / d : 1; t = std::min(1.0, std::max(0.0, t));
            P2 w{p[i - 1].x + t * (p[i].x - p[i - 1].x), p[i - 1].y + t * (p[i].y - p[i - 1].y)}; if(dist(w, r[k]) > 1e-7) return fmt("resampling with step %g: point %d is %s, expected %s", step, k, str(r[k]).c_str(), str(w).c_str()); } }
    return ""; }
// weighted means of the vertices around a position of the polygon.  Closed polygons are continued cyclically, open ones by
// point reflection at their ends, `wraps` times in either direction.
struct Ext { std::vector<double> pos; Poly pt; };
static Ext extended(const Poly &p, const std::vector<double> &al) {
    Ext r; size_t n = p.size(); double L = al[n - 1]; bool cl = p.front() == p.back();
    if(cl) { for(int c = -3; c <= 3; ++c) for(size_t i = 0; i + 1 < n; ++i) { r.pos.push_back(al[i] + c * L); r.pt.push_back(p[i]); } }
    else { for(size_t i = 0; i < n; ++i) { r.pos.push_back(al[i]); r.pt.push_back(p[i]);
            if(i) { r.pos.push_back(-al[i]); r.pt.push_back(P2{2 * p[0].x - p[i].x, 2 * p[0].y - p[i].y}); }
            if(i + 1 < n) { r.pos.push_back(2 * L - al[i]); r.pt.push_back(P2{2 * p[n - 1].x - p[i].x, 2 * p[n - 1].y - p[i].y}); } } }
    return r; }
static std::string checkSmooth(const Poly &p) {
    size_t n = p.size(); bool cl = p.front() == p.back(); BP b = B(p); double L = length(p); if(n < 3 || L == 0) return "";
    std::vector<double> al(n); for(size_t i = 1; i < n; ++i) al[i] = al[i - 1] + dist(p[i - 1], p[i]);
    Ext x = extended(p, al);
    for(double scale : {0.3, 0.5, 0.9, 1.6}) {
        vigra::Gaussian<double> g(scale); double rad = g.radius();
        for(double step : {0.45, 1.3, 100.0}) { ++nRuns;
            BP out; bool thrown = false; try { vigra::resamplePolygonGaussianFilter(b, out, scale, step); } catch(std::exception &) { thrown = true; }
            if(thrown != !(L > rad)) return fmt("Gaussian resampling with scale %g: filter of radius %g on length %g is %s", scale, rad, L, thrown ? "rejected" : "not rejected");
            if(thrown) continue;
            Poly r = unpack(out); double q = L / step; int k = (int)std::ceil(q); bool knife = std::fabs(q - std::floor(q + 0.5)) < 1e-9;
            if((int)r.size() != k + 1 && !(knife && std::abs((int)r.size() - k - 1) <= 1)) return fmt("Gaussian resampling with step %g gives %zu points for length %g", step, r.size(), L);
            k = r.size() - 1;
            for(int j = 0; j <= k; ++j) { double at = cl && j == k ? 0 : L * j / k, sw = 0, sx = 0, sy = 0; bool edge = false;
                for(size_t i = 0; i < x.pos.size(); ++i) { double d = std::fabs(x.pos[i] - at); if(std::fabs(d - rad) < 1e-9) edge = true; if(d > rad) continue; double w = std::exp(-d * d / 2 / scale / scale); sw += w; sx += w * x.pt[i].x; sy += w * x.pt[i].y; }
                if(sw == 0 || edge) continue;      // no vertex within the filter / a vertex exactly at its end
                if(std::fabs(r[j].x - sx / sw) + std::fabs(r[j].y - sy / sw) > 1e-7) return fmt("Gaussian resampling with scale %g, step %g: point %d of %d is %s, expected (%g,%g)", scale, step, j, k, str(r[j]).c_str(), sx / sw, sy / sw); } }
        // exponential filter: all vertices of the polygon and its continuations, weighted by exp(-distance/scale)
        auto mean = [&](double at) { double sw = 0, sx = 0, sy = 0; for(size_t i = 0; i < x.pos.size(); ++i) { double w = std::exp(-std::fabs(x.pos[i] - at) / scale); sw += w; sx += w * x.pt[i].x; sy += w * x.pt[i].y; } return P2{sx / sw, sy / sw}; };
        double tol = cl ? 1e-5 + 20 * std::exp(-L / scale) : 1e-5;      // cyclic continuation is cut off after one turn
        if(tol > 0.05) continue;
        std::vector<P2> v; for(size_t i = 0; i < n; ++i) v.push_back(mean(al[i]));
        std::vector<double> vl(n); for(size_t i = 1; i < n; ++i) vl[i] = vl[i - 1] + dist(v[i - 1], v[i]);
        for(double step : {0.45, 1.3, 100.0}) { ++nRuns;
            BP out; vigra::resamplePolygonExponentialFilter(b, out, scale, step); Poly r = unpack(out);
            double q = vl[n - 1] / step; int k = (int)std::floor(q + 0.5); bool knife = std::fabs(q - std::floor(q) - 0.5) < (2 * n * tol + 1e-6) / step; if(!k) k = 1;
            if((int)r.size() != k + 1) { if(knife) continue; return fmt("exponential resampling with scale %g, step %g gives %zu points for length %g", scale, step, r.size(), vl[n - 1]); }
            for(int j = 0; j <= k; ++j) { double at = vl[n - 1] * j / k; size_t i = 1; while(i + 1 < n && vl[i] < at - 1e-9) ++i; 
                double d = vl[i] - vl[i - 1], t = d > 1e-9 ? (at - vl[i - 1]) / d : 1; t = std::min(1.0, std::max(0.0, t));
                P2 w = mean(al[i - 1] + t * (al[i] - al[i - 1])); if(d <= 1e-9 || std::fabs(at - vl[i]) < 1e-9) { if(al[i] - al[i - 1] < 1e-12 || i + 1 < n) { /* several positions have this arc length */ bool any = false; for(size_t z = 0; z < n; ++z) if(std::fabs(vl[z] - at) < 1e-8 && dist(v[z], r[j]) < tol) any = true; if(any) continue; } }
                if(dist(w, r[j]) > tol) return fmt("exponential resampling with scale %g, step %g: point %d of %d is %s, expected %s", scale, step, j, k, str(r[j]).c_str(), str(w).c_str()); } } }
    return ""; }
static void allPolys(const char *name, const Poly &pts, int k, bool closeIt, const std::function<std::string(const Poly &)> &f) {
    int n = pts.size(); std::vector<int> idx(k);
    for(int a = 0; a < n; ++a) for(int b = 0; b < (k > 1 ? n : 1); ++b) {
        if(!vf::mine(fmt("%s/%d%s/%d/%d", name, k, closeIt ? "c" : "o", a, b))) continue;
        idx.assign(k, 0); idx[0] = a; if(k > 1) idx[1] = b; uint64_t done = 0;
        while(true) {
            Poly p; for(int i = 0; i < k; ++i) p.push_back(pts[idx[i]]); if(closeIt) p.push_back(p[0]);
            ++done; vf::setDetail(str(p));
            std::string e; try { e = f(p); } catch(std::exception &x) { e = std::string("exception: ") + x.what(); }
            if(!e.empty()) { vf::viol(name, str(p) + ": " + e); if(vf::tooMany()) return; }
            int i = k - 1; while(i >= 2 && ++idx[i] == n) idx[i--] = 0;
            if(i < 2) break;
        }
        vf::count("states", done); vf::count("traces", nRuns); nRuns = 0; vf::count("transitions", done * k);
    } }
static Poly gridPts(int w, int h, double sx, double sy, double ox, double oy) { Poly r; for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x) r.push_back(P2{ox + sx * x, oy + sy * y}); return r; }
static void P15() {
    bool th = vf::thorough(), san = vf::san();
    Poly g33 = gridPts(3, 3, 1, 1, 0, 0), g44 = gridPts(4, 4, 1, 2, -1, 3), g43 = gridPts(4, 3, 1.5, 1, -2, -1);
    for(int k = 2; k <= (san ? 4 : th ? 8 : 7); ++k) allPolys("hull-g33", g33, k, false, checkHull);
    for(int k = 2; k <= (san ? 4 : th ? 7 : 6); ++k) allPolys("hull-g33", g33, k, true, checkHull);
    for(int k = 3; k <= (san ? 3 : th ? 6 : 5); ++k) { allPolys("hull-g44", g44, k, false, checkHull); allPolys("hull-g44", g44, k, true, checkHull); }
    auto simp = [&](const Poly &p) -> std::string { for(double eps : {0.0, 0.5, 1.1, 10.0}) for(double st : {-1.0, 1.0, 1.6, 4.0}) { std::string e = checkSimplify(p, eps, st); if(!e.empty()) return e; } return ""; };
    for(int k = 1; k <= (san ? 4 : th ? 7 : 6); ++k) allPolys("simplify-g33", g33, k, false, simp);
    for(int k = 3; k <= (san ? 3 : th ? 6 : 5); ++k) allPolys("simplify-g43", g43, k, false, simp);
    for(int k = 3; k <= (san ? 3 : th ? 6 : 5); ++k) allPolys("simplify-g33", g33, k, true, simp);
    Poly Q = gridPts(5, 5, 1, 0.75, -1.25, -1.5), Q2 = gridPts(6, 6, 0.5, 0.5, -0.25, -0.25);
    Q2.push_back(P2{1, 1}); Q2.push_back(P2{0.5, 1}); Q2.push_back(P2{-1, 2}); Q2.push_back(P2{3, 0});
    auto alg = [&](const Poly &p) { return checkAlgos(p, Q2); };
    for(int k = 1; k <= (san ? 3 : th ? 7 : 6); ++k) allPolys("algos-g33", g33, k, false, alg);
    for(int k = 2; k <= (san ? 4 : th ? 7 : 6); ++k) allPolys("algos-g33", g33, k, true, alg);
    for(int k = 3; k <= (san ? 3 : th ? 6 : 5); ++k) { allPolys("smooth-g33", g33, k, false, checkSmooth); allPolys("smooth-g33", g33, k, true, checkSmooth); }
    for(int k = 3; k <= (san ? 3 : th ? 5 : 4); ++k) { allPolys("smooth-g43", g43, k, false, checkSmooth); allPolys("smooth-g43", g43, k, true, checkSmooth); }
    auto alg2 = [&](const Poly &p) { return checkAlgos(p, Q); };
    for(int k = 3; k <= (san ? 3 : th ? 6 : 5); ++k) { allPolys("algos-g43", g43, k, true, alg2); allPolys("algos-g43", g43, k, false, alg2); }
}
int main(int argc, char **argv) {
    vf::init(argc, argv); const std::string &p = vf::ctx().prop;
    if(p == "P13") P13(); else if(p == "P14") P14(); else if(p == "P15") P15(); else return 3;
    return vf::finish(); }
