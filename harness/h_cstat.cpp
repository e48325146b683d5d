// P31: pixel statistics, merged-edge chains and protection of cell-image cells follow every operation
#include "cellref.hpp"
#include "foureightsegmentation.hxx"
#include "cellstatistics.hxx"
using namespace vf;
using cref::Ref;
namespace vc = vigra::cellimage;
struct CM : vc::GeoMap {
    template<class A, class B, class C> CM(A a, B b, C c) : vc::GeoMap(a, b, c) {}
    CM(const CM &o) : vc::GeoMap(o) {}
};
typedef CM::DartTraverser DT;
static std::string pos(const DT &d) { return fmt("(%d,%d)%d", d.centerCoordinate().x, d.centerCoordinate().y, d.direction()); }
#include "cellmodel.hpp"
typedef vigra::NumericTraits<float> NT;
typedef std::vector<int> Bag;           // pixels (indices of the padded image)
struct SM {                             // what the statistics must hold
    std::map<int, Bag> face; std::map<int, Bag> edge; std::set<int> border;      // border: represented by the maximal value
    std::map<int, std::vector<int>> chain; std::map<int, int> prot;              // (prot: per original edge label)
};
static void add(Bag &a, const Bag &b) { a.insert(a.end(), b.begin(), b.end()); }
struct World {
    int w, h; SegmentationData data; bool canny; double thr;
    static float val(int x, int y, int w) { return y * w + x + 1; }
    static float grad(int x, int y, int w) { return 3 * (y * w + x) + 2; }
    World(int w_, int h_, int edgels, double t) : w(w_), h(h_), canny(edgels > 0), thr(t) {
        data.doEdgeRethinning = false; data.doAutoProtection = canny; data.autoProtectionThreshold = t;
        data.preparedOriginal_.resize(w, h); data.gradientMagnitude_.resize(w, h); data.edgelImage.resize(w, h);
        for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x) { data.preparedOriginal_(x, y) = val(x, y, w); data.gradientMagnitude_(x, y) = grad(x, y, w);
            data.edgelImage(x, y) = edgels == 1 ? true : edgels == 2 ? (x + y) % 2 == 0 : edgels == 3 ? x * 2 < w : false; } }
    bool inside(int p) const { int x = p % (w + 4) - 2, y = p / (w + 4) - 2; return x >= 0 && y >= 0 && x < w && y < h; }
    Bag cell(const Model &m, int t, int l, bool crop = true) const { Bag r; for(int p = 0; p < m.W * m.H; ++p) if(m.type[p] == t && m.lab[p] == l && (!crop || inside(p))) r.push_back(p); return r; }
    bool edgel(int p) const { return data.edgelImage(p % (w + 4) - 2, p / (w + 4) - 2); }
    bool autoProt(const Model &m, int e, bool &applies) const {
        Bag all = cell(m, 1, e, false); applies = true; unsigned n = 0;
        for(int p : all) if(!inside(p)) applies = false; else n += edgel(p);
        return n > all.size() * thr; }
    SM initial(const Model &m) const {
        SM s; for(int f : m.faces) s.face[f] = f ? cell(m, 0, f) : Bag();
        for(int e : m.edges) { s.chain[e] = {e}; s.prot[e] = 0; s.edge[e] = cell(m, 1, e); }
        for(auto &d : m.d) if(d.live && !d.left) { s.border.insert(d.edge); s.prot[d.edge] = EPBorder; }
        return s; }
    // the operation (legal in m, with surviving cell ret)
    void apply(SM &s, const Model &m, const Model &after, const Model::Op &o, int ret) const {
        if(o.kind == 0) return;
        const auto &x = m.d[o.dart];
        if(o.kind == 3) {
            int e1 = x.edge, e2 = m.d[x.sigma].edge, r = ret == e1 ? e2 : e1; bool b = !x.left || !m.d[x.alpha].left;
            Bag sum = s.edge[e1]; add(sum, s.edge[e2]); add(sum, cell(m, 2, x.node)); s.edge[ret] = sum;
            if(b) s.border.insert(ret); else s.border.erase(ret);
            s.chain[ret].insert(s.chain[ret].end(), s.chain[r].begin(), s.chain[r].end());
            s.chain.erase(r); s.edge.erase(r); s.border.erase(r);
            bool applies, on = autoProt(after, ret, applies);
            if(canny && applies) for(int k : s.chain[ret]) s.prot[k] = on ? s.prot[k] | EPCanny : s.prot[k] & ~EPCanny;
            return; }
        int f = x.left, g = m.d[x.alpha].left; Bag sum = s.face[f]; add(sum, cell(m, 1, x.edge)); if(g != f) add(sum, s.face[g]);
        s.face.erase(f); s.face.erase(g); s.face[ret] = sum;
        s.edge.erase(x.edge); s.chain.erase(x.edge); s.border.erase(x.edge); }
    std::string compare(const CellStatistics &c, const SM &s) const {
        for(auto &f : s.face) { double n = 0, a = 0, q = 0; for(int p : f.second) { double v = val(p % (w + 4) - 2, p / (w + 4) - 2, w); ++n; a += v; q += v * v; }
            const auto &g = c.faceStatistics_[f.first];
            if(g.count_ != n || g.sum_ != a || g.squareSum_ != q) return fmt("face %d: %ld pixels with sum %g and square sum %g, expected %g, %g, %g", f.first, g.count_, (double)g.sum_, (double)g.squareSum_, n, a, q);
            if(n && (std::abs(g.average() - a / n) > 1e-4 || std::abs(g.variance() - (q / n - a / n * a / n)) > 1e-2)) return fmt("face %d: average %g, variance %g, expected %g, %g", f.first, (double)g.average(), (double)g.variance(), a / n, q / n - a / n * a / n); }
        for(auto &e : s.edge) { double n = 0, a = 0; for(int p : e.second) { ++n; a += grad(p % (w + 4) - 2, p / (w + 4) - 2, w); }
            const auto &g = c.edgeStatistics_[e.first];
            if(s.border.count(e.first)) { if(g() != NT::max()) return fmt("border edge %d: average %g, expected the maximal value", e.first, (double)g()); }
            else if(g.count_ != n || (n && std::abs(g() - a / n) > 1e-4)) return fmt("edge %d: %g pixels with average %g, expected %g, %g", e.first, (double)g.count_, (double)g(), n, n ? a / n : 0); 
            std::multiset<int> want(s.chain.at(e.first).begin(), s.chain.at(e.first).end()), got; unsigned k = e.first;
            for(size_t i = 0; i <= c.mergedEdges_.size(); ++i) { got.insert(k); if(c.mergedEdges_[k] == k) break; k = c.mergedEdges_[k]; }
            if(want != got) return fmt("edge %d: %zu merged edges listed, expected %zu (or others)", e.first, got.size(), want.size());
            bool on = false; for(int k : want) on = on || s.prot.at(k);
            if(c.edgeProtected(e.first) != on) return fmt("edge %d: edgeProtected() is %d", e.first, (int)!on); 
            for(int k : want) for(int fl : {EPBorder, EPCanny, EPManual}) if(c.edgeProtection->edgeProtected(k, fl) != ((s.prot.at(k) & fl) != 0)) return fmt("edge %d (part of %d): protection flag %d is %d", k, e.first, fl, (int)!(s.prot.at(k) & fl)); }
        return ""; }
};
struct Walk {
    const World &W; const CellStatistics &fresh; int maxDepth; std::string path; bool bad = false; size_t edges = 0;
    // setting and clearing flags reaches all merged parts
    std::string protect(const CellStatistics &c, const SM &s) {
        for(auto &e : s.chain) for(int fl : {EPManual, EPCanny}) for(int on = 0; on < 2; ++on) {
            EdgeProtection p(*c.edgeProtection); CellStatistics k(c); k.edgeProtection = &p; SM t(s); bool ch = false; count("transitions");
            for(int m : e.second) { int v = on ? t.prot[m] | fl : t.prot[m] & ~fl; ch = ch || v != t.prot[m]; t.prot[m] = v; }
            bool r = k.protectEdge(e.first, fl, on);
            if(r != ch) return fmt("protectEdge(%d, %d, %d) returned %d", e.first, fl, on, (int)r);
            std::string x = W.compare(k, t); if(!x.empty()) return fmt("after protectEdge(%d, %d, %d): ", e.first, fl, on) + x; }
        return ""; }
    std::string autoInit(const CM &m, const Model &md, const CellStatistics &c, const SM &s) {
        EdgeProtection p(*c.edgeProtection); CellStatistics k(c); k.edgeProtection = &p; SM t(s); vigra::Rect2D want; count("transitions");
        for(int e : md.edges) { bool a, on = W.autoProt(md, e, a); bool ch = false; for(int q : t.chain[e]) { int v = on ? t.prot[q] | EPCanny : t.prot[q] & ~EPCanny; ch = ch || v != t.prot[q]; t.prot[q] = v; }
            if(ch) want |= m.edge(e).bounds; }
        vigra::Rect2D got = k.initAutoProtection(m); if(!(got == want) && !(got.isEmpty() && want.isEmpty())) return "initAutoProtection() returns a wrong region";
        std::string x = W.compare(k, t); return x.empty() ? x : "after initAutoProtection(): " + x; }
    void go(const CM &m, const Model &md, const CellStatistics &c, const SM &s, const Model &clean, int depth) {   // clean: state of the last clearLastChanges()
        count("states");
        std::string e = protect(c, s); if(e.empty() && W.canny) e = autoInit(m, md, c, s);
        if(!e.empty()) { viol("protection", path + " : " + e); bad = true; return; }
        if(depth >= maxDepth) { count("traces"); return; }
        for(const Model::Op &o : md.allOps()) if(md.legal(o)) {
            std::string p = path, n = md.name(o); path += (path.empty() ? "" : " ") + n; setDetail(path); count("transitions");
            CM k(m); EdgeProtection pr(*c.edgeProtection); CellStatistics st(depth && depth % 2 == 0 ? fresh : c);
            if(depth && depth % 2 == 0) { st = c; for(int q = 0; q < md.W * md.H; ++q) if(!st.lastChanges().contains(vigra::Point2D(q % md.W - 2, q / md.W - 2))) e = "after assignment lastChanges() is not the whole image"; }
            st.edgeProtection = &pr; const Model &since = depth % 2 ? clean : md; if(!(depth % 2)) st.clearLastChanges(); if(!(depth % 2) && !st.lastChanges().isEmpty()) e = "clearLastChanges() leaves a region";
            DT t = o.dart >= 0 ? md.dart(k, o.dart) : k.node(o.node).anchor; int ret = -1; Model m2(md); SM s2(s);
            try { switch(o.kind) {
                case 0: st.preRemoveIsolatedNode(t); { auto &f = k.removeIsolatedNode(t); st.postRemoveIsolatedNode(f); ret = f.label; } break;
                case 1: st.preMergeFaces(t); { auto &f = k.mergeFaces(t); st.postMergeFaces(f); ret = f.label; } break;
                case 2: st.preRemoveBridge(t); { auto &f = k.removeBridge(t); st.postRemoveBridge(f); ret = f.label; } break;
                default: st.preMergeEdges(t); { auto &f = k.mergeEdges(t); st.postMergeEdges(f); ret = f.label; } } }
            catch(std::exception &x) { path = p; continue; }                 // (P20)
            if(!m2.apply(o, ret).empty()) { path = p; continue; }            // (P20)
            W.apply(s2, md, m2, o, ret);
            if(e.empty()) e = W.compare(st, s2);
            for(int q = 0; e.empty() && q < md.W * md.H; ++q) if((since.type[q] != m2.type[q] || since.lab[q] != m2.lab[q]) && !st.lastChanges().contains(vigra::Point2D(q % md.W - 2, q / md.W - 2))) e = fmt("pixel (%d,%d) changed, but lies outside lastChanges()", q % md.W - 2, q / md.W - 2);
            if(e.empty() && depth == 0) e = W.compare(c, s).empty() ? "" : "an operation changed the original of a copy";
            if(!e.empty()) { viol(n.substr(0, n.find('(')), path + " : " + e); bad = true; }
            else go(k, m2, st, s2, since, depth + 1);
            path = p; if(bad) return; } }
};
static void p31case(int w, int h, uint64_t b, bool corner, int depth, int edgels, double thr) {
    Ref r(w, h, b, corner); setDetail("construct");
    vigra::BImage img(w, h); for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x) img(x, y) = b >> (y * w + x) & 1;
    std::unique_ptr<CM> m;
    try { m.reset(new CM(srcImageRange(img), 1, corner ? vc::CellTypeVertex : vc::CellTypeLine)); } catch(std::exception &) { return; }
    Model md(r, *m); if(!md.error.empty() || !md.compare(*m, false).empty()) return;     // (P19)
    World W(w, h, edgels, thr); SM s = W.initial(md); EdgeProtection prot(m->maxEdgeLabel() + 1);
    CellStatistics c(*m, &W.data, &prot); count("images");
    std::string e = W.compare(c, s);
    for(int n : md.nodes) { double x = 0, y = 0; Bag q = W.cell(md, 2, n, false); for(int p : q) { x += p % md.W - 2; y += p / md.W - 2; }
        if(e.empty() && (std::abs(c.nodeCenters_[n][0] - x / q.size()) > 1e-4 || std::abs(c.nodeCenters_[n][1] - y / q.size()) > 1e-4)) e = fmt("node %d: center (%g,%g)", n, (double)c.nodeCenters_[n][0], (double)c.nodeCenters_[n][1]); }
    for(int q = 0; q < md.W * md.H; ++q) if(e.empty() && !c.lastChanges().contains(vigra::Point2D(q % md.W - 2, q / md.W - 2))) e = "initial lastChanges() is not the whole image";
    if(!e.empty()) { viol("initial", e); return; }
    Walk k{W, c, depth, "", false}; k.go(*m, md, c, s, md, 0); }
static uint64_t framed(int w, int h, uint64_t in) { uint64_t b = 0; int k = 0;
    for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x) if(x == 0 || y == 0 || x == w - 1 || y == h - 1 || (in >> k++ & 1)) b |= 1ull << (y * w + x);
    return b; }
int main(int argc, char **argv) {
    init(argc, argv); std::cerr.rdbuf(0);
    bool T = thorough();
    struct S { int w, h, depth; bool frame; }; std::vector<S> sizes;
    if(san()) sizes = {{3,3,2,false},{5,5,1,true}};
    else if(!T) sizes = {{3,3,3,false},{4,3,2,false},{3,4,2,false},{5,3,1,false},{5,5,3,true},{6,5,1,true},{7,4,2,true}};
    else sizes = {{3,3,4,false},{4,3,3,false},{3,4,3,false},{5,3,2,false},{4,4,2,false},{5,5,4,true},{6,5,2,true},{7,4,3,true}};
    for(auto s : sizes) for(int corner = 0; corner < 2; ++corner) for(int ed = 0; ed < 4; ++ed) for(double t : {0.3, 0.5}) {
        if(!ed && t > 0.4) continue;
        int depth = s.depth - (ed > 0 && s.depth > 2 ? 1 : 0);
        uint64_t n = 1ull << (s.frame ? (s.w - 2) * (s.h - 2) : s.w * s.h);
        for(uint64_t i = 0; i < n; ++i) {
            uint64_t b = s.frame ? framed(s.w, s.h, i) : i;
            Ref r(s.w, s.h, b, corner); if(r.rejected || !r.odd.empty()) continue;
            if(!mine(fmt("%dx%d/%llx/%s/e%d/t%g/D%d", s.w, s.h, (unsigned long long)b, corner ? "node" : "line", ed, t, depth))) continue;
            p31case(s.w, s.h, b, corner, depth, ed, t); if(tooMany()) goto end; } }
end:
    return finish(); }
