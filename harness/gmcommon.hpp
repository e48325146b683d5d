// Binding of the reference model to the real GeoMap: building, operations,
// comparison of every observable.
#pragma once
#include "common.hpp"
#include "refmap.hpp"
#include "scenes.hpp"
#include "cppmap.hxx"
#include "cppmap_utils.hxx"
#include <memory>

namespace gm {
using ref::P2; using ref::Poly; using ref::RMap; using ref::REdge; using vf::fmt;

// coordinates handed to the implementation: p |-> s R p + t.  Topology does not depend on
// such a similarity transformation; with others than the identity only topology is compared.
struct Xf { const char *name; double s, c, n, tx, ty; };
inline const Xf *&xform() { static const Xf *x = nullptr; return x; }
inline const std::vector<Xf> &xforms() { static const std::vector<Xf> v = {
    {"tiny", 1 / 300., 1, 0, 0, 0}, {"rot", 1 / 3., .8, .6, 1 / 7., 2}, {"far", 100 / 3., 1, 0, 1000 / 7., -500 / 7.}, {"mini", .001, -.28, .96, 1 / 9., 1 / 9.}}; return v; }
inline Vector2 V(P2 p) { const Xf *x = xform(); if(!x) return Vector2(p.x, p.y); return Vector2(x->s * (x->c * p.x - x->n * p.y) + x->tx, x->s * (x->n * p.x + x->c * p.y) + x->ty); }
struct UseXf { UseXf(const Xf *x) { xform() = x; } ~UseXf() { xform() = nullptr; } };
inline P2 P(const Vector2 &v) { return P2{v[0], v[1]}; }
inline Vector2Array VA(const Poly &p) { Vector2Array r; for(auto &q : p) r.push_back(V(q)); return r; }
inline std::string str(const Poly &p) { std::string s; for(auto &q : p) s += fmt("(%g,%g)", q.x, q.y); return s; }
template<class E> inline Poly polyOf(const E &e) { Poly r; for(size_t i = 0; i < e.size(); ++i) r.push_back(P(e[i])); return r; }

struct Case {            // which map is built, and how
    const scn::Scene *scene; uint64_t mask = ~0ull, dirs = 0; bool reverseOrder = false; bool allNodes = false; bool labelImage = true;
    std::vector<int> order;   // explicit insertion order of edges (indices), optional
    std::string str() const { return fmt("%s/m%llx/d%llx/%s%s%s", scene->name.c_str(), (unsigned long long)mask, (unsigned long long)dirs,
        reverseOrder ? "r" : "-", allNodes ? "n" : "-", labelImage ? "L" : "-") + (xform() ? std::string("/") + xform()->name : std::string()); }
};
inline std::vector<int> chosenEdges(const Case &c) {
    std::vector<int> r;
    if(!c.order.empty()) return c.order;
    for(size_t i = 0; i < c.scene->edges.size(); ++i) if(c.mask >> i & 1) r.push_back(i);
    if(c.reverseOrder) std::reverse(r.begin(), r.end());
    return r; }
inline void modelOf(const Case &c, RMap &m) {
    std::vector<int> es = chosenEdges(c);
    std::set<int> used;
    for(int i : es) { used.insert(c.scene->edges[i].a); used.insert(c.scene->edges[i].b); }
    std::map<int, unsigned> nl;
    for(size_t i = 0; i < c.scene->nodes.size(); ++i) if(c.allNodes || used.count(i)) { nl[i] = m.nextNode; m.nodes[m.nextNode++] = c.scene->nodes[i]; }
    for(int i : es) {
        const scn::SEdge &e = c.scene->edges[i]; REdge x;
        x.s = nl[e.a]; x.e = nl[e.b]; x.pts = e.pts;
        if(c.dirs >> i & 1) { std::swap(x.s, x.e); std::reverse(x.pts.begin(), x.pts.end()); }
        m.edges[m.nextEdge++] = x;
    }
    m.labelImage = c.labelImage;
    std::string err = m.derive();
    if(!err.empty()) throw std::logic_error("scene " + c.scene->name + ": " + err); }
typedef std::unique_ptr<GeoMap> MapPtr;
inline MapPtr graphOf(const Case &c, const RMap &m) {    // m: initial model of c
    MapPtr g(new GeoMap(vigra::Size2D(c.scene->W, c.scene->H)));
    for(auto &n : m.nodes) g->addNode(V(n.second));
    for(auto &e : m.edges) g->addEdge(*g->node(e.second.s), *g->node(e.second.e), VA(e.second.pts));
    return g; }
inline MapPtr buildMap(const Case &c, const RMap &m) { MapPtr g = graphOf(c, m); g->initializeMap(c.labelImage); return g; }

// after initialization: take over the (arbitrary) face labels chosen by the implementation
inline std::string adoptLabels(GeoMap &g, RMap &m) {
    m.dartLabel.clear(); m.hasLabels = false;
    std::set<unsigned> seen; std::map<int, unsigned> dl;
    for(size_t i = 0; i < m.regions.size(); ++i) {
        auto &r = m.regions[i]; bool have = false; unsigned lab = 0; std::string err;
        auto go = [&](int o) { for(int d : m.orbits[o]) { unsigned l = g.dart(d).leftFaceLabel(); if(have && l != lab) err = fmt("dart %d: left face %u, but another dart of the same region has %u", d, l, lab); lab = l; have = true; dl[d] = l; } };
        if(r.outer >= 0) go(r.outer);
        for(int h : r.holes) go(h);
        if(!err.empty()) return err;
        if(!have) continue;
        if(r.infinite != (lab == 0)) return fmt("region %zu (infinite=%d) has face label %u", i, (int)r.infinite, lab);
        if(!r.infinite && !seen.insert(lab).second) return fmt("face label %u used for two different regions", lab);
    }
    m.dartLabel = dl; m.hasLabels = true; m.derive(); return ""; }

// ------------------------------------------------------------------ comparison
inline bool liveDart(const RMap &m, int d) { return d && m.edges.count(std::abs(d)); }

// permutations, orbits, contours, counts (labels only up to consistency)
inline std::string cmpTopology(GeoMap &g, const RMap &m, bool useCheck = true) {
    std::set<unsigned> nl, el;
    unsigned cnt = 0;
    for(GeoMap::NodeIterator it = g.nodesBegin(); it.inRange(); ++it) { nl.insert((*it)->label()); ++cnt; }
    if(nl.size() != m.nodes.size() || cnt != m.nodes.size()) return fmt("%u nodes iterated, expected %zu", cnt, m.nodes.size());
    if(g.nodeCount() != m.nodes.size()) return fmt("nodeCount() %u, expected %zu", g.nodeCount(), m.nodes.size());
    cnt = 0;
    for(GeoMap::EdgeIterator it = g.edgesBegin(); it.inRange(); ++it) { el.insert((*it)->label()); ++cnt; }
    if(el.size() != m.edges.size() || cnt != m.edges.size()) return fmt("%u edges iterated, expected %zu", cnt, m.edges.size());
    if(g.edgeCount() != m.edges.size()) return fmt("edgeCount() %u, expected %zu", g.edgeCount(), m.edges.size());
    for(auto &n : m.nodes) if(!nl.count(n.first)) return fmt("node %u missing", n.first);
    for(auto &e : m.edges) if(!el.count(e.first)) return fmt("edge %u missing", e.first);
    for(auto &s : m.sigma) {
        int d = s.first;
        int x = g.dart(d).nextSigma().label();
        if(x != s.second) return fmt("sigma(%d) = %d, expected %d", d, x, s.second);
        x = g.dart(s.second).prevSigma().label();
        if(x != d) return fmt("sigma^-1(%d) = %d, expected %d", s.second, x, d);
        x = g.dart(d).nextAlpha().label(); if(x != -d) return fmt("alpha(%d) = %d", d, x);
        x = g.dart(d).nextPhi().label(); if(x != m.phi.at(d)) return fmt("phi(%d) = %d, expected %d", d, x, m.phi.at(d));
        x = g.dart(m.phi.at(d)).prevPhi().label(); if(x != d) return fmt("phi^-1(%d) = %d, expected %d", m.phi.at(d), x, d);
        if(g.dart(d).startNodeLabel() != m.startNode(d)) return fmt("dart %d starts at node %u, expected %u", d, g.dart(d).startNodeLabel(), m.startNode(d));
        if(g.dart(d).endNodeLabel() != m.endNode(d)) return fmt("dart %d ends at node %u, expected %u", d, g.dart(d).endNodeLabel(), m.endNode(d));
    }
    for(auto &n : m.nodes) {
        GeoMap::Node &x = *g.node(n.first);
        unsigned dg = m.degree(n.first);
        if(x.isIsolated() != (dg == 0)) return fmt("node %u isIsolated() %d, degree should be %u", n.first, (int)x.isIsolated(), dg);
        if(dg) { int a = x.anchor().label(); if(!liveDart(m, a) || m.startNode(a) != n.first) return fmt("node %u has anchor %d which does not start there", n.first, a); }
        if(x.degree() != dg) return fmt("node %u degree() %u, expected %u", n.first, x.degree(), dg);
        for(unsigned k = 0; k <= dg + 1; ++k) {
            if(x.hasDegree(k) != (k == dg)) return fmt("node %u hasDegree(%u) wrong (degree %u)", n.first, k, dg);
            if(x.hasMinDegree(k) != (dg >= k)) return fmt("node %u hasMinDegree(%u) wrong (degree %u)", n.first, k, dg); }
    }
    if(g.mapInitialized()) {
        unsigned fc = 0;
        std::set<int> seenRegions;
        for(GeoMap::FaceIterator it = g.facesBegin(); it.inRange(); ++it) {
            GeoMap::Face &f = **it; ++fc;
            std::vector<int> anchors;
            for(GeoMap::Face::ContourIterator ci = f.contoursBegin(); ci != f.contoursEnd(); ++ci) anchors.push_back(ci->label());
            std::set<int> orbs;
            int reg = f.label() ? -1 : 0;
            for(size_t i = 0; i < anchors.size(); ++i) {
                if(!liveDart(m, anchors[i])) return fmt("face %u: contour %zu anchored at non-existing dart %d", f.label(), i, anchors[i]);
                int o = m.orbitOf.at(anchors[i]);
                if(!orbs.insert(o).second) return fmt("face %u lists a contour twice (dart %d)", f.label(), anchors[i]);
                int r = m.regionOfOrbit[o];
                if(reg < 0) reg = r;
                if(r != reg) return fmt("face %u lists contour of another region (dart %d)", f.label(), anchors[i]);
            }
            if(f.label() && anchors.empty()) return fmt("finite face %u has no contour", f.label());
            const ref::Region &R = m.regions[reg];
            if(R.infinite != (f.label() == 0)) return fmt("face %u stands for %s region", f.label(), R.infinite ? "the infinite" : "a finite");
            if(!seenRegions.insert(reg).second) return fmt("face %u: region already represented by another face", f.label());
            size_t expect = R.holes.size() + (R.infinite ? 0 : 1);
            if(anchors.size() != expect) return fmt("face %u has %zu contours, expected %zu", f.label(), anchors.size(), expect);
            if(!R.infinite && m.orbitOf.at(anchors[0]) != R.outer) return fmt("face %u: first contour (dart %d) is not the outer one", f.label(), anchors[0]);
            if(f.holeCount() != R.holes.size()) return fmt("face %u holeCount() %u, expected %zu", f.label(), f.holeCount(), R.holes.size());
            for(int o : orbs) for(int d : m.orbits[o])
                if(g.dart(d).leftFaceLabel() != f.label()) return fmt("dart %d has left face %u, expected %u", d, g.dart(d).leftFaceLabel(), f.label());
        }
        if(fc != m.regions.size()) return fmt("%u faces, expected %zu", fc, m.regions.size());
        if(g.faceCount() != m.regions.size()) return fmt("faceCount() %u, expected %zu", g.faceCount(), m.regions.size());
    }
    if(useCheck && !g.checkConsistency()) return "checkConsistency() failed";
    return ""; }

// exact cells: labels, geometry, flags, incidences
inline std::string cmpCells(GeoMap &g, const RMap &m) {
    for(unsigned l = 0; l < g.maxNodeLabel(); ++l) {
        bool have = (bool)g.node(l), want = m.nodes.count(l);
        if(have != want) return fmt("node %u %s", l, have ? "still exists" : "missing");
        if(have && P(g.node(l)->position()) != m.nodes.at(l)) return fmt("node %u moved", l);
        if(have && g.node(l)->label() != l) return fmt("node %u has label %u", l, g.node(l)->label());
    }
    for(auto &n : m.nodes) if(n.first >= g.maxNodeLabel()) return fmt("node %u missing", n.first);
    if(g.nodeCount() != m.nodes.size()) return fmt("nodeCount() %u, expected %zu", g.nodeCount(), m.nodes.size());
    for(unsigned l = 0; l < g.maxEdgeLabel(); ++l) {
        bool have = (bool)g.edge(l), want = m.edges.count(l);
        if(have != want) return fmt("edge %u %s", l, have ? "still exists" : "missing");
        if(!have) continue;
        GeoMap::Edge &e = *g.edge(l); const REdge &r = m.edges.at(l);
        if(e.label() != l) return fmt("edge %u has label %u", l, e.label());
        if(e.startNodeLabel() != r.s || e.endNodeLabel() != r.e) return fmt("edge %u connects %u->%u, expected %u->%u", l, e.startNodeLabel(), e.endNodeLabel(), r.s, r.e);
        if(!(polyOf(e) == r.pts)) return fmt("edge %u has points %s, expected %s", l, str(polyOf(e)).c_str(), str(r.pts).c_str());
        if(e.flags() != r.flags) return fmt("edge %u has flags %x, expected %x", l, e.flags(), r.flags);
        if(m.hasLabels && g.mapInitialized()) {
            if(e.leftFaceLabel() != m.dartLabel.at(l)) return fmt("edge %u left face %u, expected %u", l, e.leftFaceLabel(), m.dartLabel.at(l));
            if(e.rightFaceLabel() != m.dartLabel.at(-(int)l)) return fmt("edge %u right face %u, expected %u", l, e.rightFaceLabel(), m.dartLabel.at(-(int)l));
            if(e.isBridge() != m.isBridge(l)) return fmt("edge %u isBridge() %d", l, (int)e.isBridge());
        }
        if(e.isLoop() != (r.s == r.e)) return fmt("edge %u isLoop() %d", l, (int)e.isLoop());
    }
    for(auto &e : m.edges) if(e.first >= g.maxEdgeLabel()) return fmt("edge %u missing", e.first);
    if(g.edgeCount() != m.edges.size()) return fmt("edgeCount() %u, expected %zu", g.edgeCount(), m.edges.size());
    if(g.mapInitialized() && m.hasLabels) {
        std::set<unsigned> want; for(auto &r : m.regions) want.insert(r.label);
        for(unsigned l = 0; l < g.maxFaceLabel(); ++l) {
            if((bool)g.face(l) != (bool)want.count(l)) return fmt("face %u %s", l, g.face(l) ? "still exists" : "missing");
            if(g.face(l) && g.face(l)->label() != l) return fmt("face %u has label %u", l, g.face(l)->label());
        }
        for(unsigned l : want) if(l >= g.maxFaceLabel()) return fmt("face %u missing", l);
        if(g.faceCount() != want.size()) return fmt("faceCount() %u, expected %zu", g.faceCount(), want.size());
    }
    return ""; }

inline bool near(double a, double b) { return std::fabs(a - b) <= 1e-7 * (1 + std::fabs(a) + std::fabs(b)); }

inline std::vector<P2> samplePoints(int W, int H) {
    std::vector<P2> r;
    for(int y = -2; y < H + 2; ++y) for(int x = -2; x < W + 2; ++x) {
        r.push_back(P2{(double)x, (double)y});
        r.push_back(P2{x + 0.375, y - 0.4375}); }
    return r; }

inline std::string cmpBox(const vigra::Box<double, 2> &b, const ref::Box &r) {
    if(b.begin()[0] != r.x0 || b.begin()[1] != r.y0 || b.end()[0] != r.x1 || b.end()[1] != r.y1)
        return fmt("(%g,%g)-(%g,%g), expected (%g,%g)-(%g,%g)", b.begin()[0], b.begin()[1], b.end()[0], b.end()[1], r.x0, r.y0, r.x1, r.y1);
    return ""; }
inline bool covers(const vigra::Scanlines &s, int x, int y) {
    if(y < s.startIndex() || y >= s.endIndex()) return false;
    const vigra::Scanlines::Scanline &l = s[y];
    for(size_t i = 0; i < l.size(); ++i) if(x >= l[i].begin && x < l[i].end) return true;
    return false; }

// memoized pixelCrossed() of a polyline for the window [-4,W+4) x [-4,H+4)
struct Crossing { int W, H; std::vector<char> v; char operator()(int x, int y) const { return v[(y + 4) * (W + 8) + x + 4]; } };
inline std::map<std::string, Crossing> &crossingMemo() { static std::map<std::string, Crossing> memo; return memo; }
inline void trimMemo() { if(crossingMemo().size() > 20000) crossingMemo().clear(); }   // only while no reference is held
inline const Crossing &crossing(const Poly &p, int W, int H) {
    std::map<std::string, Crossing> &memo = crossingMemo();
    std::string k((const char *)p.data(), p.size() * sizeof(P2)); k += (char)W; k += (char)H;
    auto it = memo.find(k);
    if(it != memo.end()) return it->second;
    Crossing &c = memo[k]; c.W = W; c.H = H; c.v.resize((W + 8) * (H + 8));
    for(int y = -4; y < H + 4; ++y) for(int x = -4; x < W + 4; ++x) c.v[(y + 4) * (W + 8) + x + 4] = ref::pixelCrossed(p, x, y);
    return c; }
// memoized inside test of a closed polygon for the pixel centres of the same window
inline const Crossing &insideMap(const Poly &p, int W, int H) {
    static std::map<std::string, Crossing> memo;
    std::string k((const char *)p.data(), p.size() * sizeof(P2)); k += (char)W; k += (char)H;
    auto it = memo.find(k);
    if(it != memo.end()) return it->second;
    if(memo.size() > 20000) memo.clear();
    Crossing &c = memo[k]; c.W = W; c.H = H; c.v.resize((W + 8) * (H + 8));
    for(int y = -4; y < H + 4; ++y) for(int x = -4; x < W + 4; ++x) c.v[(y + 4) * (W + 8) + x + 4] = ref::inside(p, P2{(double)x, (double)y});
    return c; }
// region index of every sample point (-1: on an edge)
inline std::vector<int> regionsOf(const RMap &m, const std::vector<P2> &pts) {
    std::vector<int> r(pts.size(), 0); std::vector<double> a(pts.size(), 0);
    std::vector<char> on(pts.size(), 0);
    static std::map<std::string, std::vector<char>> memoIn, memoOn;
    auto key = [&](const Poly &p) { std::string k((const char *)p.data(), p.size() * sizeof(P2)); k.append((const char *)&pts[0], sizeof(P2)); k.append((const char *)&pts.back(), sizeof(P2)); return k; };
    if(memoIn.size() + memoOn.size() > 20000) { memoIn.clear(); memoOn.clear(); }
    for(size_t i = 1; i < m.regions.size(); ++i) {
        Poly p = m.orbitPoly(m.regions[i].outer); double ar = m.orbitArea[m.regions[i].outer];
        std::vector<char> &v = memoIn[key(p)];
        if(v.empty()) for(auto &q : pts) v.push_back(ref::inside(p, q));
        for(size_t k = 0; k < pts.size(); ++k) if(v[k] && (r[k] == 0 || ar < a[k])) { r[k] = i; a[k] = ar; } }
    for(auto &e : m.edges) {
        std::vector<char> &v = memoOn[key(e.second.pts)];
        if(v.empty()) for(auto &q : pts) v.push_back(ref::onPoly(e.second.pts, q));
        for(size_t k = 0; k < pts.size(); ++k) if(v[k]) r[k] = -1; }
    return r; }

// attributes against recomputation (requires correct topology)
inline std::string cmpGeometry(GeoMap &g, const RMap &m, int W, int H) {
    trimMemo();
    for(auto &k : m.edges) {
        GeoMap::Edge &e = *g.edge(k.first); const Poly &p = k.second.pts;
        if(!near(e.length(), ref::length(p))) return fmt("edge %u length() %g, expected %g", k.first, e.length(), ref::length(p));
        if(!near(e.partialArea(), ref::partialArea(p))) return fmt("edge %u partialArea() %g, expected %g", k.first, e.partialArea(), ref::partialArea(p));
        ref::Box b; b.add(p);
        std::string s = cmpBox(e.boundingBox(), b); if(!s.empty()) return fmt("edge %u boundingBox() ", k.first) + s;
        const vigra::Scanlines &sl = e.scanLines();
        const Crossing &cr = crossing(p, W, H);
        for(int y = -4; y < H + 4; ++y) for(int x = -4; x < W + 4; ++x) {
            int want = cr(x, y); bool have = covers(sl, x, y);
            if(want != ref::MAYBE && have != (want == ref::YES)) return fmt("edge %u scanLines() %s pixel (%d,%d)", k.first, have ? "cover" : "miss", x, y);
        }
    }
    std::vector<P2> pts = samplePoints(W, H);
    for(size_t i = 0; i < m.regions.size(); ++i) {
        const ref::Region &R = m.regions[i]; unsigned l = R.label;
        GeoMap::FacePtr f = g.face(l);
        if(!near(f->area(), R.area)) return fmt("face %u area() %g, expected %g", l, f->area(), R.area);
        if(!R.infinite) {
            std::string s = cmpBox(f->boundingBox(), m.orbitBox(R.outer)); if(!s.empty()) return fmt("face %u boundingBox() ", l) + s;
        }
        std::vector<int> os = R.holes; if(!R.infinite) os.push_back(R.outer);
        for(int o : os) {
            int d = m.orbits[o][0]; GeoMap::Dart dd = g.dart(d);
            double len = 0; for(int x : m.orbits[o]) len += ref::length(m.edges.at(std::abs(x)).pts);
            if(!near(contourLength(dd), len)) return fmt("contourLength(%d) %g, expected %g", d, contourLength(dd), len);
            if(!near(contourArea(dd), m.orbitArea[o])) return fmt("contourArea(%d) %g, expected %g", d, contourArea(dd), m.orbitArea[o]);
            if(m.orbitArea[o] != 0) { double q = isoperimetricQuotient(dd), w = len * len / (4 * M_PI * m.orbitArea[o]); if(!near(q, w)) return fmt("isoperimetricQuotient(%d) %g, expected %g", d, q, w); }
            Vector2Polygon cp = contourPoly(dd);
            // orbitPoly starts at the smallest dart of the orbit = orbits[o][0]
            if(!(polyOf(cp) == m.orbitPoly(o))) return fmt("contourPoly(%d) %s, expected %s", d, str(polyOf(cp)).c_str(), str(m.orbitPoly(o)).c_str());
            if(!near(cp.partialArea(), m.orbitArea[o])) return fmt("contourPoly(%d).partialArea() %g, expected %g", d, cp.partialArea(), m.orbitArea[o]);
            if(!near(cp.length(), len)) return fmt("contourPoly(%d).length() %g, expected %g", d, cp.length(), len);
        }
    }
    std::vector<int> where = regionsOf(m, pts);
    for(size_t k = 0; k < pts.size(); ++k) {
        P2 p = pts[k]; int r = where[k];
        if(r < 0) continue;
        for(size_t i = 0; i < m.regions.size(); ++i) {
            bool c = g.face(m.regions[i].label)->contains(V(p));
            if(c != ((int)i == r)) return fmt("face %u contains((%g,%g)) = %d", m.regions[i].label, p.x, p.y, (int)c);
        }
    }
    // face scanlines: coverage of the outer contour, and filling it gives its uncrossed interior
    for(size_t i = 1; i < m.regions.size(); ++i) {
        GeoMap::FacePtr f = g.face(m.regions[i].label);
        std::auto_ptr<vigra::Scanlines> sl = f->scanLines();
        Poly op = m.orbitPoly(m.regions[i].outer);
        vigra::MultiArray<2, int> img(vigra::MultiArrayShape<2>::type(W, H));
        fillScannedPoly(*sl, 1, destMultiArrayRange(img));
        const Crossing &cr = crossing(op, W, H), &ins = insideMap(op, W, H);
        for(int y = 0; y < H; ++y) for(int x = 0; x < W; ++x) {
            int want = cr(x, y);
            if(want == ref::MAYBE) continue;
            if(covers(*sl, x, y) != (want == ref::YES)) return fmt("face %u scanLines() wrong at pixel (%d,%d)", f->label(), x, y);
            bool in = want == ref::NO && ins(x, y);
            if((img(x, y) == 1) != in) return fmt("face %u: filling its scanLines() %s pixel (%d,%d)", f->label(), in ? "misses" : "covers", x, y);
        }
    }
    return ""; }

// label image, pixel areas, faceAt
inline std::string cmpPixels(GeoMap &g, const RMap &m, int W, int H, bool lookups = true) {
    if(g.hasLabelImage() != m.labelImage) return fmt("hasLabelImage() %d", (int)g.hasLabelImage());
    trimMemo();
    if(m.labelImage) {
        std::map<unsigned, unsigned> cnt;
        GeoMap::LabelImageAccessor acc = g.labelAccessor();
        GeoMap::LabelImageIterator ul = g.labelsUpperLeft();
        if(g.labelsLowerRight().x - ul.x != W || g.labelsLowerRight().y - ul.y != H) return "label image has wrong size";
        std::vector<const Crossing *> cr;
        for(auto &k : m.edges) cr.push_back(&crossing(k.second.pts, W, H));
        std::vector<P2> centres;
        for(int y = 0; y < H; ++y) for(int x = 0; x < W; ++x) centres.push_back(P2{(double)x, (double)y});
        std::vector<int> where = regionsOf(m, centres);
        for(int y = 0; y < H; ++y) for(int x = 0; x < W; ++x) {
            int have = acc(ul, vigra::Diff2D(x, y));
            int lo = 0, hi = 0;
            for(auto k : cr) { int c = (*k)(x, y); if(c == ref::YES) ++lo, ++hi; else if(c == ref::MAYBE) ++hi; }
            if(have >= 0) ++cnt[have];
            if(lo == 0 && hi == 0) {
                int want = m.regions[where[y * W + x]].label;
                if(have != want) return fmt("pixel (%d,%d) has label %d, expected face %d", x, y, have, want);
            } else if(lo == hi) {
                if(have != -lo) return fmt("pixel (%d,%d) has label %d, but %d edges cross it", x, y, have, lo);
            } else if(have < 0 && (-have < lo || -have > hi)) return fmt("pixel (%d,%d) has label %d, but %d..%d edges cross it", x, y, have, lo, hi);
            else if(have >= 0 && (lo > 0 || !g.face(have))) return fmt("pixel (%d,%d) has label %d, but %d..%d edges cross it", x, y, have, lo, hi);
        }
        for(auto &r : m.regions) if(g.face(r.label)->pixelArea() != cnt[r.label])
            return fmt("face %u pixelArea() %u, but %u pixels carry its label", r.label, g.face(r.label)->pixelArea(), cnt[r.label]);
    }
    std::vector<P2> pts; std::vector<int> wh;
    if(lookups) { pts = samplePoints(W, H); wh = regionsOf(m, pts); }
    for(size_t k = 0; k < pts.size(); ++k) {
        P2 p = pts[k];
        if(wh[k] < 0) continue;
        unsigned want = m.regions[wh[k]].label;
        GeoMap::FacePtr f = g.faceAt(V(p));
        if(!f || f->label() != want) return fmt("faceAt((%g,%g)) = %d, expected %u", p.x, p.y, f ? (int)f->label() : -1, want);
        GeoMap::ConstFacePtr cf = static_cast<const GeoMap &>(g).faceAt(V(p));
        if(!cf || cf->label() != want) return fmt("const faceAt((%g,%g)) wrong", p.x, p.y);
    }
    return ""; }

// drawLabelImage()
inline std::string cmpDraw(GeoMap &g, const RMap &m, int W, int H) {
    trimMemo();
    // a freshly drawn label image, with and without marking the pixels crossed by edges
    std::vector<const Crossing *> cr;
    for(auto &k : m.edges) cr.push_back(&crossing(k.second.pts, W, H));
    std::vector<P2> centres;
    for(int y = 0; y < H; ++y) for(int x = 0; x < W; ++x) centres.push_back(P2{(double)x, (double)y});
    std::vector<int> where = regionsOf(m, centres);
    for(int neg = 0; neg < 2; ++neg) {
        vigra::MultiArray<2, int> img(vigra::MultiArrayShape<2>::type(W, H));
        drawLabelImage(g, destMultiArrayRange(img), neg != 0);
        for(int y = 0; y < H; ++y) for(int x = 0; x < W; ++x) {
            int lo = 0, hi = 0, have = img(x, y), w = where[y * W + x];
            for(auto k : cr) { int c = (*k)(x, y); if(c == ref::YES) ++lo, ++hi; else if(c == ref::MAYBE) ++hi; }
            if(neg && hi) { if(lo ? have != -1 : have != -1 && w >= 0 && have != (int)m.regions[w].label) return fmt("drawLabelImage(): pixel (%d,%d) is crossed by an edge and has the value %d", x, y, have); continue; }
            if(w < 0) continue;
            if(have != (int)m.regions[w].label) return fmt("drawLabelImage(negativeEdgeLabels = %d): pixel (%d,%d) has the value %d, expected face %u", neg, x, y, have, m.regions[w].label);
        }
    }
    return ""; }

// query (and thereby cache) attributes; which: 1 all cells, 2 odd labels, 3 even labels
inline void touchAll(GeoMap &g, int which = 1) {
    if(!which) return;
    auto sel = [&](unsigned l) { return which == 1 || (which == 2) == (bool)(l & 1); };
    for(GeoMap::EdgeIterator it = g.edgesBegin(); it.inRange(); ++it) if(sel((*it)->label())) { (*it)->length(); (*it)->partialArea(); (*it)->boundingBox(); (*it)->scanLines(); }
    if(g.mapInitialized()) for(GeoMap::FaceIterator it = g.facesBegin(); it.inRange(); ++it) if(sel((*it)->label())) { (*it)->area(); if((*it)->label()) (*it)->boundingBox(); } }

// ------------------------------------------------------------------ operations
enum OpType { REMOVE_BRIDGE, MERGE_FACES, MERGE_EDGES, SPLIT, SPLIT_INS, REMOVE_NODE, TOGGLE_LI, MOVE_NODE, NUM_OPS };
struct Op { OpType t; int a; int b; P2 p; };   // a: dart / edge / node label, b: segment, p: inserted point
inline std::string str(const Op &o) {
    static const char *n[] = {"removeBridge", "mergeFaces", "mergeEdges", "split", "splitInsert", "removeNode", "toggleLabelImage", "moveNode"};
    if(o.t == SPLIT || o.t == SPLIT_INS) return fmt("%s(%d,%d)", n[o.t], o.a, o.b);
    if(o.t == MOVE_NODE) return fmt("%s(%d,to %g,%g)", n[o.t], o.a, o.p.x, o.p.y);
    return fmt("%s(%d)", n[o.t], o.a); }
inline std::string str(const std::vector<Op> &h) { std::string s; for(auto &o : h) { s += str(o); s += " "; } return s; }

struct Alphabet { bool remove = true, mergeEdges = true, split = true, splitInsert = true, removeNode = true, toggle = false, move = false, bothDarts = true; int maxEdges = 100; unsigned maxEdgeLabel = 1000; };
// all applicable operations with all operands in the state m
inline P2 midpoint(const Poly &p, int i) { return P2{(p[i].x + p[i+1].x) / 2, (p[i].y + p[i+1].y) / 2}; }
inline std::vector<Op> enabled(const RMap &m, const Alphabet &al) {
    std::vector<Op> r;
    for(auto &k : m.edges) {
        int e = k.first;
        if(al.remove) for(int d : {e, -e}) { if(d < 0 && !al.bothDarts) continue; r.push_back(Op{m.isBridge(e) ? REMOVE_BRIDGE : MERGE_FACES, d, 0, P2{0, 0}}); }
        if(al.mergeEdges) for(int d : {e, -e})
            if(m.degree(m.startNode(d)) == 2 && k.second.s != k.second.e) r.push_back(Op{MERGE_EDGES, d, 0, P2{0, 0}});
        if((int)m.edges.size() < al.maxEdges && m.nextEdge < al.maxEdgeLabel) {
            if(al.split) for(size_t i = 1; i + 1 < k.second.pts.size(); ++i) r.push_back(Op{SPLIT, e, (int)i, P2{0, 0}});
            if(al.splitInsert) for(size_t i = 0; i + 1 < k.second.pts.size(); ++i) r.push_back(Op{SPLIT_INS, e, (int)i, midpoint(k.second.pts, i)});
        }
    }
    if(al.removeNode) for(auto &n : m.nodes) if(m.degree(n.first) == 0) r.push_back(Op{REMOVE_NODE, (int)n.first, 0, P2{0, 0}});
    if(al.toggle) r.push_back(Op{TOGGLE_LI, 0, 0, P2{0, 0}});
    if(al.move) for(auto &n : m.nodes)
        for(P2 d : {P2{0.25, -0.5}, P2{-0.5, 0.25}, P2{0.25, 0.25}}) {
            P2 p{n.second.x + d.x, n.second.y + d.y};
            if(m.canMove(n.first, p)) { r.push_back(Op{MOVE_NODE, (int)n.first, 0, p}); break; } }
    return r; }
struct Result { enum { OK, NOTHING, THROWN } status = OK; long label = -1; std::string what; };
inline Result applyImpl(GeoMap &g, const Op &o) {
    Result r;
    try {
        switch(o.t) {
          case REMOVE_BRIDGE: { GeoMap::FacePtr f = g.removeBridge(g.dart(o.a)); if(f) r.label = f->label(); else r.status = Result::NOTHING; break; }
          case MERGE_FACES: { GeoMap::FacePtr f = g.mergeFaces(g.dart(o.a)); if(f) r.label = f->label(); else r.status = Result::NOTHING; break; }
          case MERGE_EDGES: { GeoMap::EdgePtr e = g.mergeEdges(g.dart(o.a)); if(e) r.label = e->label(); else r.status = Result::NOTHING; break; }
          case SPLIT: { GeoMap::EdgePtr e = g.splitEdge(*g.edge(o.a), o.b); if(e) r.label = e->label(); else r.status = Result::NOTHING; break; }
          case SPLIT_INS: { GeoMap::EdgePtr e = g.splitEdge(*g.edge(o.a), o.b, V(o.p)); if(e) r.label = e->label(); else r.status = Result::NOTHING; break; }
          case REMOVE_NODE: { if(!g.removeIsolatedNode(*g.node(o.a))) r.status = Result::NOTHING; break; }
          case TOGGLE_LI: g.setHasLabelImage(!g.hasLabelImage()); break;
          case MOVE_NODE: g.node(o.a)->setPosition(V(o.p)); break;
          default: break;
        }
    } catch(std::exception &e) { r.status = Result::THROWN; r.what = e.what(); }
    return r; }
// expected effect; res is the implementation's answer (used where the specification leaves a choice)
inline std::string applyModel(RMap &m, const Op &o, const Result &res) {
    if(res.status == Result::THROWN) return "valid operation rejected: " + res.what;
    if(res.status == Result::NOTHING) return "valid operation returned nothing";
    switch(o.t) {
      case REMOVE_BRIDGE: {
        unsigned l = m.dartLabel.at(o.a);
        if(res.label != (long)l) return fmt("removeBridge returned face %ld, expected %u", res.label, l);
        m.doRemoveBridge(std::abs(o.a)); break; }
      case MERGE_FACES: {
        unsigned l = m.dartLabel.at(o.a), r = m.dartLabel.at(-o.a);
        double la = m.regions[m.regionOf(o.a)].area, ra = m.regions[m.regionOf(-o.a)].area;
        long want = -1;
        if(!l || !r) want = 0; else if(la > ra) want = l; else if(ra > la) want = r;
        if(res.label != (long)l && res.label != (long)r) return fmt("mergeFaces of %u and %u returned face %ld", l, r, res.label);
        if(want >= 0 && res.label != want) return fmt("mergeFaces of %u (area %g) and %u (area %g) kept face %ld", l, la, r, ra, res.label);
        m.doMergeFaces(std::abs(o.a), res.label, res.label == (long)l ? r : l); break; }
      case MERGE_EDGES: {
        unsigned n = m.startNode(o.a); unsigned a = std::abs(o.a), b = std::abs(m.sigma.at(o.a));
        if(res.label != (long)a && res.label != (long)b) return fmt("mergeEdges of %u and %u returned edge %ld", a, b, res.label);
        m.doMergeEdges(n, res.label, res.label == (long)a ? b : a); break; }
      case SPLIT: {
        if(res.label != (long)m.nextEdge) return fmt("splitEdge returned edge %ld, expected new edge %u", res.label, m.nextEdge);
        m.doSplit(o.a, o.b); break; }
      case SPLIT_INS: {
        if(res.label != (long)m.nextEdge) return fmt("splitEdge returned edge %ld, expected new edge %u", res.label, m.nextEdge);
        Poly &p = m.edges[o.a].pts; p.insert(p.begin() + o.b + 1, o.p);
        m.doSplit(o.a, o.b + 1); break; }
      case REMOVE_NODE: m.nodes.erase(o.a); m.derive(); break;
      case TOGGLE_LI: m.labelImage = !m.labelImage; break;
      case MOVE_NODE: m.doMove(o.a, o.p); break;
      default: break;
    }
    return ""; }
} // namespace gm
