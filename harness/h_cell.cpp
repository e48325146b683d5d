// Cell image properties: P19 (construction), P20 (Euler operations)
#include "cellref.hpp"
#include "foureightsegmentation.hxx"
using namespace vf;
using cref::Ref;
namespace vc = vigra::cellimage;
struct CM : vc::GeoMap {
    template<class A, class B, class C> CM(A a, B b, C c) : vc::GeoMap(a, b, c) {}
    CM(const vc::CellImage &i) : vc::GeoMap(i) {}
    CM(const CM &o) : vc::GeoMap(o) {}
    using vc::GeoMap::checkConsistency;
};
typedef CM::DartTraverser DT;
static vigra::BImage mkImage(int w, int h, uint64_t bits, int on, int off) {
    vigra::BImage img(w, h);
    for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x) img(x, y) = bits >> (y * w + x) & 1 ? on : off;
    return img; }
static std::string pos(const DT &d) { return fmt("(%d,%d)%d", d.centerCoordinate().x, d.centerCoordinate().y, d.direction()); }

#include "cellmodel.hpp"

static std::string imgName(int w, int h, uint64_t b, bool corner) { return fmt("%dx%d/%llx/%s", w, h, (unsigned long long)b, corner ? "node" : "line"); }

static void p19case(int w, int h, uint64_t b, bool corner) {
    Ref r(w, h, b, corner);
    setDetail("construct");
    vigra::BImage img = mkImage(w, h, b, corner ? 7 : 1, 0);
    std::unique_ptr<CM> m;
    std::string err;
    try { m.reset(new CM(srcImageRange(img), corner ? 7 : 1, corner ? vc::CellTypeVertex : vc::CellTypeLine)); }
    catch(std::exception &e) { err = e.what(); }
    count("transitions"); count("states");
    if(r.odd == "node with several rotations") r.rejected = true;   // a node encloses an edge
    if(r.rejected) { count("rejected"); if(m) viol("accepted", "image that must be thinned was accepted"); return; }
    if(!m) { viol("refused", "image was refused: " + err); return; }
    if(!r.odd.empty()) { viol("odd", r.odd); return; }
    Model md(r, *m);
    std::string e = md.error; if(e.empty()) e = md.compare(*m);
    count("traces");
    if(!e.empty()) { viol("cells", e); return; }
    try { m->checkConsistency(); } catch(std::exception &x) { viol("checkConsistency", x.what()); }
    setDetail("import"); count("transitions");
    try { CM m2(m->cellImage); e = md.compare(m2); if(!e.empty()) viol("import", "map imported from the cell image: " + e); } catch(std::exception &x) { viol("import", std::string("cell image is refused: ") + x.what()); }
}
static void runP19() {
    struct S { int w, h; }; std::vector<S> sizes;
    if(san()) sizes = {{1,1},{2,2},{3,3},{4,3},{3,4}};
    else sizes = {{1,1},{2,1},{1,2},{5,1},{1,5},{2,2},{3,2},{2,3},{3,3},{4,3},{3,4},{5,3},{3,5},{4,4},{5,4}};
    if(thorough()) { if(!san()) { sizes.push_back({4,5}); sizes.push_back({5,5}); } else sizes.push_back({4,4}); }
    for(auto s : sizes) for(int corner = 0; corner < 2; ++corner) {
        uint64_t n = 1ull << (s.w * s.h), blk = n > 4096 ? n / 256 : n;
        for(uint64_t b0 = 0; b0 < n; b0 += blk) {
            std::string id = fmt("%dx%d/%s/%llx", s.w, s.h, corner ? "node" : "line", (unsigned long long)b0);
            if(!ctx().only.empty() && ctx().only.compare(0, id.size(), id) != 0) { ++ctx().caseIndex; continue; }
            if(ctx().only.empty() ? !mine(id) : false) continue;
            for(uint64_t b = b0; b < b0 + blk; ++b) {
                ctx().curCase = id + fmt("+%llx", (unsigned long long)(b - b0));
                if(!ctx().only.empty() && ctx().only.find('+') != std::string::npos && ctx().only != ctx().curCase) continue;
                setCase(ctx().curCase);
                p19case(s.w, s.h, b, corner);
                if(tooMany()) return; } } }
}
// all operation sequences from one image, up to depth
struct Walk {
    int maxDepth; bool coarse = false; std::map<Key, int> seen; std::string path;
    bool bad = false;
    void go(CM &m, const Model &md, int depth) {
        std::string before = repr(m);
        auto it = seen.insert(std::make_pair(keyOf(coarse ? before.substr(0, md.W * md.H * 4) : before), coarse ? 0 : depth));
        if(!it.second) { if(it.first->second <= depth) { count("traces"); return; } it.first->second = depth; } else count("states");
        if(depth >= maxDepth) { count("traces"); return; }     // traces: maximal explored histories
        for(const Model::Op &o : md.allOps()) {
            std::string p = path, n = md.name(o); path += (path.empty() ? "" : " ") + n; setDetail(path);
            bool ok = md.legal(o); int ret = -1; std::string err, e;
            CM c(m); count("transitions");
            if(depth == 0 && repr(c) != before) e = "copy differs";
            try { ret = perform(c, md, o); } catch(std::exception &x) { err = x.what(); }
            Model m2(md);
            if(!ok) { count("rejected"); if(err.empty()) e = "invalid operation was not rejected"; else e = md.compare(c, false); if(!e.empty()) e = "rejected operation: " + e; }
            else if(!err.empty()) e = "operation failed: " + err;
            else { e = m2.apply(o, ret); if(e.empty()) e = m2.compare(c, depth < 2); if(e.empty()) try { c.checkConsistency(); } catch(std::exception &x) { e = x.what(); } }
            if(e.empty() && repr(m) != before) e = "operation on a copy changed the original";
            if(!e.empty()) { viol(n.substr(0, n.find('(')), path + " : " + e); bad = true; }
            else if(ok) go(c, m2, depth + 1);
            path = p; if(bad) return; } }
};
static void p20case(int w, int h, uint64_t b, bool corner, int depth) {
    Ref r(w, h, b, corner); if(r.rejected || !r.odd.empty()) return;
    vigra::BImage img = mkImage(w, h, b, 1, 0); 
    setDetail("construct");
    std::unique_ptr<CM> m;
    try { m.reset(new CM(srcImageRange(img), 1, corner ? vc::CellTypeVertex : vc::CellTypeLine)); } catch(std::exception &) { return; }   // P19's business
    Model md(r, *m); if(!md.error.empty() || !md.compare(*m).empty()) return;
    count("images");
    Walk k; k.maxDepth = depth; k.coarse = depth >= 99; k.go(*m, md, 0); count(k.coarse ? "images_all_histories" : "images_all_paths");
    { std::unique_ptr<CM> c(new CM(*m)); std::string s = repr(*c); m.reset(); vigra::BImage trash(w + 4, h + 4); if(repr(*c) != s || !md.compare(*c).empty()) viol("copy", "copy changed when the original was destroyed");
      CM a(srcImageRange(mkImage(2, 2, 0, 1, 0)), 1, vc::CellTypeLine); static_cast<vc::GeoMap &>(a) = *c; c.reset(); if(repr(a) != s || !md.compare(a).empty()) viol("copy", "assigned copy differs"); }
}
static void runP20() {
    struct S { int w, h, depth; }; std::vector<S> sizes;
    if(san()) sizes = {{1,1,9},{2,2,9},{3,3,2},{4,3,1},{3,3,99}};
    else if(!thorough()) sizes = {{3,3,3},{4,3,2},{3,4,2},{5,3,2},{3,5,2},{4,4,1},{3,3,99},{4,3,99},{3,4,99},{5,3,99},{3,5,99},{4,4,99}};
    else sizes = {{3,3,5},{4,3,3},{3,4,3},{5,3,3},{3,5,3},{4,4,2},{3,3,99},{4,3,99},{3,4,99},{5,3,99},{3,5,99},{4,4,99}};
    for(auto s : sizes) for(int corner = 0; corner < 2; ++corner) {
        uint64_t n = 1ull << (s.w * s.h);
        for(uint64_t b = 0; b < n; ++b) {
            Ref r(s.w, s.h, b, corner); if(r.rejected || !r.odd.empty()) continue;
            if(s.depth >= 99 && r.nEdges > (san() ? 3 : thorough() ? 7 : 4)) continue;
            if(!mine(imgName(s.w, s.h, b, corner) + fmt("/D%d", s.depth))) continue;
            p20case(s.w, s.h, b, corner, s.depth);
            if(tooMany()) return; } }
}
int main(int argc, char **argv) {
    init(argc, argv);
    if(ctx().prop == "P19") runP19();
    else if(ctx().prop == "P20") runP20();
    return finish(); }
