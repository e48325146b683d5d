// Reference model of a polygonal planar map: everything is derived from the
// polylines alone (angular order around nodes, face orbits, signed areas,
// containment), never incrementally.  All coordinates used are small dyadic
// rationals, so double arithmetic below is exact.
#pragma once
#include <vector>
#include <map>
#include <set>
#include <string>
#include <algorithm>
#include <cmath>
#include <cassert>
#include <stdexcept>

namespace ref {

struct P2 { double x, y;
    bool operator==(const P2 &o) const { return x == o.x && y == o.y; }
    bool operator!=(const P2 &o) const { return !(*this == o); }
    bool operator<(const P2 &o) const { return x != o.x ? x < o.x : y < o.y; } };
inline P2 operator-(P2 a, P2 b) { return P2{a.x - b.x, a.y - b.y}; }
inline double cross(P2 a, P2 b) { return a.x * b.y - a.y * b.x; }
inline double dot(P2 a, P2 b) { return a.x * b.x + a.y * b.y; }
inline double dist(P2 a, P2 b) { return std::sqrt((a.x-b.x)*(a.x-b.x) + (a.y-b.y)*(a.y-b.y)); }

typedef std::vector<P2> Poly;

inline double partialArea(const Poly &p) {      // sign convention of the library: positive for outer contours
    double r = 0; for(size_t i = 1; i < p.size(); ++i) r += p[i].x * p[i-1].y - p[i].y * p[i-1].x; return r / 2; }
inline double length(const Poly &p) { double r = 0; for(size_t i = 1; i < p.size(); ++i) r += dist(p[i], p[i-1]); return r; }
inline Poly reversed(Poly p) { std::reverse(p.begin(), p.end()); return p; }
struct Box { double x0, y0, x1, y1; bool empty = true;
    void add(P2 p) { if(empty) { x0 = x1 = p.x; y0 = y1 = p.y; empty = false; } else { x0 = std::min(x0, p.x); x1 = std::max(x1, p.x); y0 = std::min(y0, p.y); y1 = std::max(y1, p.y); } }
    void add(const Poly &p) { for(auto &q : p) add(q); } };
inline bool onSegment(P2 a, P2 b, P2 p) {
    return cross(b - a, p - a) == 0 && dot(p - a, p - b) <= 0; }
// winding number of a closed polygon around p (p not on the boundary); counted so
// that a polygon with positive partialArea() has winding number +1 inside
inline int winding(const Poly &c, P2 p) {
    int w = 0;
    for(size_t i = 1; i < c.size(); ++i) {
        P2 a = c[i-1], b = c[i];
        if((a.y <= p.y) != (b.y <= p.y)) {
            double s = cross(b - a, p - a);      // >0: p on the "left" in x-right/y-up sense
            if(a.y <= p.y) { if(s > 0) --w; } else { if(s < 0) ++w; }
        }
    }
    return w; }
inline bool inside(const Poly &c, P2 p) {       // parity
    int n = 0;
    for(size_t i = 1; i < c.size(); ++i) {
        P2 a = c[i-1], b = c[i];
        if((a.y <= p.y) != (b.y <= p.y)) {
            double s = cross(b - a, p - a);
            if(b.y > a.y ? s > 0 : s < 0) ++n;
        }
    }
    return n & 1; }
inline bool onPoly(const Poly &c, P2 p) {
    for(size_t i = 1; i < c.size(); ++i) if(onSegment(c[i-1], c[i], p)) return true;
    return false; }

// does segment a-b intersect the open square around pixel (px,py), half side h?
inline bool segHitsSquare(P2 a, P2 b, double px, double py, double h) {
    double t0 = 0, t1 = 1;
    double d[2] = {b.x - a.x, b.y - a.y}, o[2] = {a.x - px, a.y - py};
    for(int k = 0; k < 2; ++k) {
        if(d[k] == 0) { if(!(o[k] > -h && o[k] < h)) return false; }
        else {
            double u = (-h - o[k]) / d[k], v = (h - o[k]) / d[k];
            if(u > v) std::swap(u, v);
            t0 = std::max(t0, u); t1 = std::min(t1, v);
        }
    }
    if(d[0] == 0 && d[1] == 0) return true;
    // open square: need a parameter with strict inequalities
    if(t0 > t1) return false;
    if(t0 == t1) {   // single point: strictly inside?
        double x = o[0] + t0 * d[0], y = o[1] + t0 * d[1];
        return x > -h && x < h && y > -h && y < h;
    }
    return true; }
enum { NO = 0, YES = 1, MAYBE = 2 };
// axis-parallel segments are decided exactly, others with a rounding guard
inline int pixelCrossed(const Poly &p, int px, int py) {
    int r = NO;
    if(p.size() == 1) return segHitsSquare(p[0], p[0], px, py, 0.5) ? YES : NO;
    for(size_t i = 1; i < p.size(); ++i) {
        bool axis = p[i].x == p[i-1].x || p[i].y == p[i-1].y;
        if(axis) { if(segHitsSquare(p[i-1], p[i], px, py, 0.5)) return YES; }
        else {
            if(segHitsSquare(p[i-1], p[i], px, py, 0.5 - 1e-7)) return YES;
            if(segHitsSquare(p[i-1], p[i], px, py, 0.5 + 1e-7)) r = MAYBE;
        }
    }
    return r; }

struct REdge { unsigned s, e; Poly pts; unsigned flags = 0; };

struct Region { int outer = -1; std::vector<int> holes; unsigned label = 0; double area = 0; bool infinite = false; };

struct RMap {
    std::map<unsigned, P2> nodes;
    std::map<unsigned, REdge> edges;
    std::map<int, unsigned> dartLabel;     // expected left face label of each dart (history dependent)
    bool hasLabels = false;                // false: labels not known yet
    unsigned nextNode = 0, nextEdge = 1;
    bool labelImage = true;
    // ---- derived
    std::map<int, int> sigma, sigmaInv, phi;
    std::map<int, int> orbitOf;            // dart -> orbit
    std::vector<std::vector<int>> orbits;
    std::vector<double> orbitArea;
    std::vector<Region> regions;           // regions[0] is the infinite one
    std::vector<int> regionOfOrbit;
    std::map<unsigned, std::vector<int>> orbitAt; // node -> darts in ccw order

    Poly dartPts(int d) const { const REdge &e = edges.at(std::abs(d)); return d > 0 ? e.pts : reversed(e.pts); }
    unsigned startNode(int d) const { const REdge &e = edges.at(std::abs(d)); return d > 0 ? e.s : e.e; }
    unsigned endNode(int d) const { return startNode(-d); }
    bool isBridge(unsigned e) const { return regionOf(e) == regionOf(-(int)e); }
    int regionOf(int d) const { return regionOfOrbit[orbitOf.at(d)]; }
    unsigned degree(unsigned n) const { auto it = orbitAt.find(n); return it == orbitAt.end() ? 0 : it->second.size(); }
    Poly orbitPoly(int o) const {
        Poly r;
        for(int d : orbits[o]) { Poly p = dartPts(d); for(size_t i = r.empty() ? 0 : 1; i < p.size(); ++i) r.push_back(p[i]); }
        return r; }
    Box orbitBox(int o) const { Box b; for(int d : orbits[o]) b.add(edges.at(std::abs(d)).pts); return b; }

    static int half(P2 v) { return (v.y > 0 || (v.y == 0 && v.x > 0)) ? 0 : 1; }
    static bool angLess(P2 a, P2 b) { int ha = half(a), hb = half(b); if(ha != hb) return ha < hb; return cross(a, b) > 0; }

    // returns "" or a description of why the drawing is not a planar map with distinct start angles
    std::string derive() {
        sigma.clear(); sigmaInv.clear(); phi.clear(); orbitOf.clear(); orbits.clear(); orbitArea.clear(); regions.clear(); regionOfOrbit.clear(); orbitAt.clear();
        std::map<unsigned, std::vector<std::pair<P2, int>>> at;
        for(auto &ke : edges) {
            int l = ke.first; const Poly &p = ke.second.pts;
            P2 d1 = p[1] - p[0], d2 = p[p.size()-2] - p[p.size()-1];
            d1.y = -d1.y; d2.y = -d2.y;          // image coordinates: y points down
            at[ke.second.s].push_back({d1, l});
            at[ke.second.e].push_back({d2, -l});
        }
        for(auto &kn : at) {
            auto &v = kn.second;
            std::sort(v.begin(), v.end(), [](const std::pair<P2,int> &a, const std::pair<P2,int> &b) { return angLess(a.first, b.first); });
            for(size_t i = 0; i < v.size(); ++i) {
                size_t j = (i + 1) % v.size();
                if(v.size() > 1 && !angLess(v[i].first, v[j].first) && !angLess(v[j].first, v[i].first)) return "identical angles";
                sigma[v[i].second] = v[j].second; sigmaInv[v[j].second] = v[i].second;
                orbitAt[kn.first].push_back(v[i].second);
            }
        }
        finishOrbits();
        return ""; }
    void finishOrbits() {
        for(auto &ks : sigma) phi[ks.first] = sigmaInv[-ks.first];
        for(auto &kp : phi) {
            if(orbitOf.count(kp.first)) continue;
            int o = orbits.size(); orbits.push_back({});
            int d = kp.first; do { orbitOf[d] = o; orbits[o].push_back(d); d = phi[d]; } while(d != kp.first);
            double a = 0; for(int x : orbits[o]) { double pa = partialArea(edges[std::abs(x)].pts); a += x > 0 ? pa : -pa; }
            orbitArea.push_back(a);
        }
        // connected components (by nodes)
        std::map<unsigned, unsigned> uf;
        std::function<unsigned(unsigned)> find = [&](unsigned n) { if(!uf.count(n)) uf[n] = n; while(uf[n] != n) n = uf[n]; return n; };
        for(auto &ke : edges) { unsigned a = find(ke.second.s), b = find(ke.second.e); if(a != b) uf[a] = b; }
        regions.push_back(Region()); regions[0].infinite = true;
        regionOfOrbit.assign(orbits.size(), 0);
        std::vector<int> pos;
        for(size_t o = 0; o < orbits.size(); ++o) if(orbitArea[o] > 0) {
            Region r; r.outer = o; regionOfOrbit[o] = regions.size(); regions.push_back(r); pos.push_back(o); }
        for(size_t o = 0; o < orbits.size(); ++o) if(!(orbitArea[o] > 0)) {
            P2 p = dartPts(orbits[o][0])[0]; unsigned comp = find(startNode(orbits[o][0]));
            int best = -1;
            for(int q : pos) {
                if(find(startNode(orbits[q][0])) == comp) continue;
                if(inside(orbitPoly(q), p) && (best < 0 || orbitArea[q] < orbitArea[best])) best = q;
            }
            int reg = best < 0 ? 0 : regionOfOrbit[best];
            regionOfOrbit[o] = reg; regions[reg].holes.push_back(o);
        }
        for(auto &r : regions) {
            r.area = r.outer >= 0 ? orbitArea[r.outer] : 0;
            for(int h : r.holes) r.area += orbitArea[h];
        }
        if(hasLabels) for(size_t i = 0; i < regions.size(); ++i) {
            Region &r = regions[i];
            bool have = false;
            auto chk = [&](int o) { for(int d : orbits[o]) { unsigned l = dartLabel.at(d); if(have && l != r.label) throw std::logic_error("reference model: inconsistent region label"); r.label = l; have = true; } };
            if(r.outer >= 0) chk(r.outer);
            for(int h : r.holes) chk(h);
            if(r.infinite && have && r.label != 0) throw std::logic_error("reference model: infinite region has label != 0");
        }
    }
    int regionByLabel(unsigned l) const { for(size_t i = 0; i < regions.size(); ++i) if(regions[i].label == l) return i; return -1; }
    bool onAnyEdge(P2 p) const { for(auto &e : edges) if(onPoly(e.second.pts, p)) return true; return false; }
    // region whose interior contains p (p off all edges)
    int regionAt(P2 p) const {
        int best = 0; double a = 0;
        for(size_t i = 1; i < regions.size(); ++i)
            if(inside(orbitPoly(regions[i].outer), p) && (best == 0 || orbitArea[regions[i].outer] < a)) { best = i; a = orbitArea[regions[i].outer]; }
        return best; }

    // ---- expected effects of the operations on cells and drawing
    void eraseEdge(unsigned e) {
        unsigned s = edges[e].s, t = edges[e].e;
        edges.erase(e); dartLabel.erase((int)e); dartLabel.erase(-(int)e);
        for(unsigned n : {s, t}) {
            bool used = false; for(auto &k : edges) if(k.second.s == n || k.second.e == n) used = true;
            if(!used) nodes.erase(n);
        } }
    void doRemoveBridge(unsigned e) { eraseEdge(e); derive(); }
    void doMergeFaces(unsigned e, unsigned survivor, unsigned merged) {
        eraseEdge(e); for(auto &k : dartLabel) if(k.second == merged) k.second = survivor; derive(); }
    // split edge e in front of point index idx (which exists), new node/edge get the next labels
    void doSplit(unsigned e, size_t idx) {
        REdge &o = edges[e]; unsigned n = nextNode++, f = nextEdge++;
        nodes[n] = o.pts[idx];
        REdge x; x.s = n; x.e = o.e; x.pts.assign(o.pts.begin() + idx, o.pts.end()); x.flags = o.flags;
        o.pts.resize(idx + 1); o.e = n; edges[f] = x;
        if(hasLabels) { dartLabel[f] = dartLabel[e]; dartLabel[-(int)f] = dartLabel[-(int)e]; }
        derive(); }
    void doMove(unsigned n, P2 p) {
        nodes[n] = p;
        for(auto &k : edges) { if(k.second.s == n) k.second.pts.front() = p; if(k.second.e == n) k.second.pts.back() = p; }
        derive(); }
    // does the node stay in its place topologically: same order around all nodes, no segment
    // comes closer than 1/16 to another one (except at common points)
    bool canMove(unsigned n, P2 p) const {
        RMap t = *this; t.hasLabels = false;
        t.nodes[n] = p;
        for(auto &k : t.edges) { if(k.second.s == n) k.second.pts.front() = p; if(k.second.e == n) k.second.pts.back() = p; }
        for(auto &k : t.nodes) if(k.first != n && dist(k.second, p) < 0.125) return false;
        if(t.derive() != "" || t.sigma != sigma) return false;
        struct S { P2 a, b; }; std::vector<S> moved, all;
        for(auto &k : t.edges) { const Poly &q = k.second.pts;
            for(size_t i = 1; i < q.size(); ++i) {
                all.push_back(S{q[i-1], q[i]});
                if((k.second.s == n && i == 1) || (k.second.e == n && i + 1 == q.size())) { moved.push_back(all.back()); if(dist(q[i-1], q[i]) < 0.125) return false; } } }
        auto pd = [](P2 q, const S &s) { P2 d = s.b - s.a; double l = dot(d, d), u = l ? dot(q - s.a, d) / l : 0; u = std::max(0.0, std::min(1.0, u)); return dist(q, P2{s.a.x + u * d.x, s.a.y + u * d.y}); };
        for(auto &s : moved) for(auto &o : all) {
            if(s.a == o.a && s.b == o.b) continue;
            for(P2 q : {s.a, s.b}) if(q != o.a && q != o.b && pd(q, o) < 0.0625) return false;
            for(P2 q : {o.a, o.b}) if(q != s.a && q != s.b && pd(q, s) < 0.0625) return false;
            double c1 = cross(s.b - s.a, o.a - s.a), c2 = cross(s.b - s.a, o.b - s.a), c3 = cross(o.b - o.a, s.a - o.a), c4 = cross(o.b - o.a, s.b - o.a);
            if(((c1 > 0) != (c2 > 0)) && c1 != 0 && c2 != 0 && ((c3 > 0) != (c4 > 0)) && c3 != 0 && c4 != 0) return false; }
        // same nesting
        for(size_t i = 0; i < t.regionOfOrbit.size(); ++i) if(t.regionOfOrbit[i] != regionOfOrbit[i]) return false;
        return true; }
    // merge edges at degree-2 node n; surv keeps its direction
    void doMergeEdges(unsigned n, unsigned surv, unsigned merged) {
        REdge &a = edges[surv]; REdge m = edges[merged];
        // orient m so that it continues a; a may have n at either end (or, when both ends
        // are shared, at a definite end only: n has degree 2 and a is no loop)
        if(a.e == n) { Poly q = m.s == n ? m.pts : reversed(m.pts); a.pts.insert(a.pts.end(), q.begin() + 1, q.end()); a.e = m.s == n ? m.e : m.s; }
        else { Poly q = m.e == n ? m.pts : reversed(m.pts); q.pop_back(); a.pts.insert(a.pts.begin(), q.begin(), q.end()); a.s = m.e == n ? m.s : m.e; }
        edges.erase(merged); dartLabel.erase((int)merged); dartLabel.erase(-(int)merged); nodes.erase(n);
        derive(); }

    std::string key() const {
        std::string r;
        auto put = [&](const void *p, size_t n) { r.append((const char *)p, n); };
        for(auto &n : nodes) { put(&n.first, 4); put(&n.second, sizeof(P2)); }
        r += "|";
        for(auto &e : edges) { put(&e.first, 4); put(&e.second.s, 4); put(&e.second.e, 4); put(&e.second.flags, 4); for(auto &p : e.second.pts) put(&p, sizeof(P2)); r += ";"; }
        r += "|";
        for(auto &d : dartLabel) { put(&d.first, 4); put(&d.second, 4); }
        put(&nextNode, 4); put(&nextEdge, 4);
        r += labelImage ? "L" : "-";
        return r; }
};
} // namespace ref
