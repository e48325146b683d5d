// P12: edges with common initial stretches (sortEdgesEventually, splitParallelEdges)
#include "common.hpp"
#include "cppmap.hxx"
#include <memory>
#include <set>
using namespace vf;
struct L2 { int x, y; bool operator==(const L2 &o) const { return x == o.x && y == o.y; } bool operator!=(const L2 &o) const { return !(*this == o); } bool operator<(const L2 &o) const { return x < o.x || (x == o.x && y < o.y); } };
typedef std::vector<L2> Path;
typedef vigra::TinyVector<double, 2> V2;
struct Scene { std::string name; std::vector<L2> nodes; std::vector<Path> edges; std::vector<int> s, e; bool star; bool eight = false; };
static int dirIndex(L2 a, L2 b) { int dx = b.x - a.x, dy = -(b.y - a.y);         // eighths of a turn, counter-clockwise as seen (y points down)
    static const int t[3][3] = {{5, 6, 7}, {4, -1, 0}, {3, 2, 1}}; return t[(dy > 0) - (dy < 0) + 1][(dx > 0) - (dx < 0) + 1]; }
// darts: +-(index+1) of an edge
static Path dartPath(const Scene &s, int d) { Path p = s.edges[abs(d) - 1]; if(d < 0) std::reverse(p.begin(), p.end()); return p; }
// common stretches form a tree: nodes of the tree are groups of darts
struct Tree { std::vector<int> darts; std::vector<Tree> kids; int len = 0; L2 at; bool twins = false; };   // len: lattice steps from the node to the branching point
static Tree buildTree(const Scene &s, const std::vector<int> &ds, int len) {
    Tree t; t.darts = ds;
    std::vector<Path> ps; for(int d : ds) ps.push_back(dartPath(s, d));
    for(;; ++len) {
        bool end = false; for(auto &p : ps) if(len + 1 >= (int)p.size()) end = true;
        if(end) { t.twins = ds.size() > 1; break; }
        bool same = true; for(auto &p : ps) if(p[len + 1] != ps[0][len + 1]) same = false;
        if(!same) break; }
    t.len = len; t.at = ps[0][std::min<int>(len, ps[0].size() - 1)];
    if(t.twins || ds.size() < 2) return t;
    int in = len ? dirIndex(ps[0][len - 1], ps[0][len]) : 4;         // root: angles from -180 degrees on
    std::map<int, std::vector<int>> by;
    for(size_t i = 0; i < ds.size(); ++i) by[len ? (dirIndex(ps[i][len], ps[i][len + 1]) - in + 12) % 8 : dirIndex(ps[i][0], ps[i][1])].push_back(ds[i]);
    for(auto &k : by) t.kids.push_back(buildTree(s, k.second, len + 1));
    return t; }
static Tree rootTree(const Scene &s, const std::vector<int> &ds) {     // children of the node itself by starting direction
    Tree t; t.darts = ds; std::map<int, std::vector<int>> by; for(int d : ds) { Path p = dartPath(s, d); by[dirIndex(p[0], p[1])].push_back(d); }
    for(auto &k : by) t.kids.push_back(buildTree(s, k.second, 1)); return t; }
static void leaves(const Tree &t, std::vector<std::vector<int>> &out) { if(t.kids.empty()) out.push_back(t.darts); for(auto &k : t.kids) leaves(k, out); }
static int splitsOf(const Tree &t) { int n = t.kids.empty() ? 0 : 1; for(auto &k : t.kids) n += splitsOf(k); return n; }
static int commonPrefix(const Path &a, const Path &b) { size_t n = 0; while(n < a.size() && n < b.size() && a[n] == b[n]) ++n; return n; }   // points
static bool crossing(L2 a, L2 b, L2 c, L2 d) { return a.x != b.x && a.y != b.y && c.x != d.x && c.y != d.y && a.x + b.x == c.x + d.x && a.y + b.y == c.y + d.y && !((a == c && b == d) || (a == d && b == c)); }
// edges may only touch in common stretches starting at a common node; no stretch may be all of an edge or overlap one from the other end
static bool proper(const Scene &s, bool twins) {
    int n = s.edges.size(); std::vector<int> pre(n + 1, 0), post(n + 1, 0);
    auto mx = [&](int d) -> int & { return d > 0 ? pre[d] : post[-d]; };
    std::map<std::pair<int, int>, std::set<L2>> ok;
    for(int a = 1; a <= n; ++a) for(int b = a; b <= n; ++b) for(int da : {a, -a}) for(int db : {b, -b}) {
        if(da == db || (a == b && !(da > 0 && db < 0))) continue;
        int na = da > 0 ? s.s[a - 1] : s.e[a - 1], nb = db > 0 ? s.s[b - 1] : s.e[b - 1]; if(na != nb) continue;
        Path p = dartPath(s, da), q = dartPath(s, db); int c = commonPrefix(p, q);
        if(c == (int)p.size() && c == (int)q.size() && twins && a != b) continue;
        mx(da) = std::max(mx(da), c - 1); mx(db) = std::max(mx(db), c - 1);
        for(int i = 0; i < c; ++i) ok[{a, b}].insert(p[i]); }
    for(int a = 1; a <= n; ++a) {
        const Path &p = s.edges[a - 1]; if(pre[a] + post[a] > (int)p.size() - 2) return false;
        for(size_t i = 1; i + 1 < p.size(); ++i) for(auto &v : s.nodes) if(p[i] == v) return false;
        for(int b = a; b <= n; ++b) { const Path &q = s.edges[b - 1]; auto &k = ok[{a, b}];
            if(a != b && p == q && twins) continue;
            std::set<L2> ends;          // both edges may end in the same node
            for(auto &v : s.nodes) ends.insert(v);
            for(size_t i = 0; i < p.size(); ++i) for(size_t j = 0; j < q.size(); ++j) { if(a == b && i == j) continue; if(p[i] == q[j] && !k.count(p[i]) && !ends.count(p[i])) return false; if(i + 1 < p.size() && j + 1 < q.size() && crossing(p[i], p[i + 1], q[j], q[j + 1])) return false; } } }
    return true; }
struct Variant { std::vector<int> order; unsigned dirs; bool support; double step, minDist; std::vector<int> off; int prefs; };
static V2 vec(L2 p) { return V2(p.x + 8.0, p.y + 8.0); }
static double segDist(const V2 &p, const V2 &a, const V2 &b) { V2 d = b - a, e = p - a; double l = dot(d, d), t = l > 0 ? dot(d, e) / l : 0; t = t < 0 ? 0 : t > 1 ? 1 : t; V2 r = e - d * t; return std::sqrt(dot(r, r)); }
static double polyDist(const V2 &p, const std::vector<V2> &q) { double m = 1e9; for(size_t i = 0; i + 1 < q.size(); ++i) m = std::min(m, segDist(p, q[i], q[i + 1])); return m; }
static double lengthOf(const std::vector<V2> &p) { double l = 0; for(size_t i = 0; i + 1 < p.size(); ++i) l += std::sqrt(dot(p[i + 1] - p[i], p[i + 1] - p[i])); return l; }
struct Run {
    const Scene &s; const Variant &v; std::unique_ptr<GeoMap> m; std::vector<unsigned> node, edge; std::map<int, int> dartOf; std::vector<std::vector<V2>> drawn;   // scene dart -> map dart
    double tol; bool exact; std::set<unsigned> orig;
    std::vector<Tree> trees;
    Run(const Scene &s_, const Variant &v_) : s(s_), v(v_) {
        m.reset(new GeoMap(vigra::Size2D(20, 20)));
        for(auto &p : s.nodes) { node.push_back(m->addNode(vec(p))->label()); orig.insert(node.back()); }
        edge.resize(s.edges.size()); drawn.resize(s.edges.size()); bool any = false;
        for(int i : v.order) {
            bool rev = v.dirs >> i & 1; Path p = s.edges[i]; std::vector<V2> q;
            double o = v.off.empty() ? 0 : v.off[i] / 512.0; if(o) any = true;
            for(size_t k = 0; k < p.size(); ++k) { V2 x = vec(p[k]); if(k && k + 1 < p.size()) x += V2(o, -o); if(k && v.support && i % 2) q.push_back((q.back() + x) / 2.0); q.push_back(x); }
            drawn[i] = q; if(rev) std::reverse(q.begin(), q.end());
            Vector2Array a(q.size()); for(size_t k = 0; k < q.size(); ++k) a[k] = q[k];
            GeoMap::EdgePtr e = m->addEdge(*m->node(node[rev ? s.e[i] : s.s[i]]), *m->node(node[rev ? s.s[i] : s.e[i]]), a);
            e->setFlag(0x100u << i);
            edge[i] = e->label(); int l = rev ? -(int)e->label() : (int)e->label(); dartOf[i + 1] = l; dartOf[-i - 1] = -l; }
        tol = v.step != 0.3 || s.eight ? 1.5 * v.minDist : any ? 0.02 : 1e-6; exact = tol < 1e-5;
        for(size_t n = 0; n < s.nodes.size(); ++n) { std::vector<int> ds; for(size_t i = 0; i < s.edges.size(); ++i) { if(s.s[i] == (int)n) ds.push_back(i + 1); if(s.e[i] == (int)n) ds.push_back(-(int)i - 1); } trees.push_back(ds.empty() ? Tree() : rootTree(s, ds)); } }
    std::vector<int> orbit(int d) { std::vector<int> r; GeoMap::Dart x = m->dart(d), a = x; do { r.push_back(x.label()); if(r.size() > 100) break; x.nextSigma(); } while(x.label() != a.label()); return r; }
    std::string checkOrder(const GeoMap::UnsortableGroups &uns) {
        std::multiset<std::set<int>> want, got;
        for(auto &g : uns) got.insert(std::set<int>(g.begin(), g.end()));
        for(auto &t : trees) { if(t.darts.empty()) continue;
            std::vector<std::vector<int>> ls; leaves(t, ls);
            std::vector<int> o = orbit(dartOf[ls[0][0]]); size_t total = 0; for(auto &g : ls) { total += g.size(); if(g.size() > 1) { std::set<int> k; for(int d : g) k.insert(dartOf[d]); want.insert(k); } }
            if(o.size() != total) return fmt("sigma orbit has %d darts, expected %d", (int)o.size(), (int)total);
            bool fit = false;
            for(size_t r = 0; r < o.size() && !fit; ++r) { fit = true; size_t i = r; for(auto &g : ls) { std::set<int> a, b; for(int d : g) { a.insert(dartOf[d]); b.insert(o[i++ % o.size()]); } if(a != b) fit = false; } }
            if(!fit) { std::string e = "sigma order is"; for(int d : o) e += fmt(" %d", d); e += ", expected"; for(auto &g : ls) { e += " "; for(int d : g) e += fmt("%d,", dartOf[d]); } return e; }
            for(int d : o) { GeoMap::Dart x = m->dart(d); if(x.clone().nextSigma().prevSigma().label() != d) return "sigma mapping and its inverse differ"; } }
        if(want != got) return fmt("%d groups reported unsortable, expected %d (or other members)", (int)got.size(), (int)want.size());
        return ""; }
    std::vector<V2> points(int d) { std::vector<V2> r; GeoMap::Edge &e = *m->edge(abs(d)); for(size_t i = 0; i < e.size(); ++i) r.push_back(e[i]); if(d < 0) std::reverse(r.begin(), r.end()); return r; }
    // dart d leaves its node as the common stretch of t's darts
    std::string follow(const Tree &t, int d, std::map<int, std::vector<int>> &chain) {
        for(int k : t.darts) chain[k].push_back(d);
        if(t.kids.empty()) { return ""; }
        unsigned w = m->dart(d).endNode()->label();
        if(orig.count(w)) return fmt("common stretch of %d edges ends in original node %u", (int)t.darts.size(), w);
        V2 pos = m->node(w)->position(), at = vec(t.at); double dist = std::sqrt(dot(pos - at, pos - at));
        if(dist > v.step + tol) return fmt("common stretch ends at distance %g from the point where the edges diverge (step %g)", dist, v.step);
        unsigned flags = 0; for(int k : t.darts) flags |= 0x100u << (abs(k) - 1);
        if((m->edge(abs(d))->flags() & 0xff00u) != flags) return fmt("flags %x of the common edge, expected %x", m->edge(abs(d))->flags(), flags);
        std::vector<int> o = orbit(-d); if(o.size() != t.kids.size() + 1) return fmt("%d edges leave the point where %d groups diverge", (int)o.size() - 1, (int)t.kids.size());
        for(size_t i = 0; i < t.kids.size(); ++i) { std::string e = follow(t.kids[i], o[i + 1], chain); if(!e.empty()) return e; }
        return ""; }
    std::string checkSplit() {
        int splits = 0; for(auto &t : trees) for(auto &k : t.kids) splits += splitsOf(k);
        if(m->edgeCount() != s.edges.size() + splits) return fmt("%d edges left, expected %d", (int)m->edgeCount(), (int)s.edges.size() + splits);
        if(m->nodeCount() != s.nodes.size() + splits) return fmt("%d nodes left, expected %d", (int)m->nodeCount(), (int)s.nodes.size() + splits);
        std::map<int, std::vector<int>> chain;
        for(size_t n = 0; n < s.nodes.size(); ++n) { const Tree &t = trees[n]; if(t.darts.empty()) continue;
            GeoMap::NodePtr x = m->node(node[n]); if(!x) return "original node vanished";
            std::vector<int> o = orbit(x->anchor().label()); if(o.size() != t.kids.size()) return fmt("%d edges at original node, expected %d", (int)o.size(), (int)t.kids.size());
            // the orbit may start anywhere: find a rotation that fits
            std::string best; bool fit = false; std::map<int, std::vector<int>> keep;
            for(size_t r = 0; r < o.size() && !fit; ++r) {
                std::map<int, std::vector<int>> c; std::string e;
                for(size_t i = 0; i < o.size() && e.empty(); ++i) {
                    int d = o[(i + r) % o.size()]; std::vector<V2> p = points(d);
                    // starts in the right direction?
                    Path q = dartPath(s, t.kids[i].darts[0]); V2 u = p[1] - p[0], w = vec(q[1]) - vec(q[0]); if(dot(u, w) <= 0.8 * std::sqrt(dot(u, u) * dot(w, w))) e = "edges start in wrong order";
                    else e = follow(t.kids[i], d, c); }
                if(e.empty()) { fit = true; keep = c; } else if(best.empty() || best == "edges start in wrong order") best = e; }
            if(!fit) return best;
            for(auto &k : keep) chain[k.first] = k.second; }
        std::set<unsigned> used;
        for(size_t i = 0; i < s.edges.size(); ++i) {
            std::vector<int> a = chain[i + 1], b = chain[-(int)i - 1];
            if(a.empty() || b.empty() || a.back() != -b.back()) return fmt("edge %d is not connected with its other end", (int)i);
            std::vector<int> full = a; for(int k = (int)b.size() - 2; k >= 0; --k) full.push_back(-b[k]);
            std::vector<V2> q; for(size_t k = 0; k < full.size(); ++k) { std::vector<V2> p = points(full[k]); used.insert(abs(full[k]));
                if(k) { V2 j = p[0] - q.back(); if(dot(j, j) > 1e-20) return "polylines of consecutive edges do not meet"; if(m->dart(full[k]).startNode()->label() != m->dart(full[k - 1]).endNode()->label()) return "consecutive edges do not meet"; }
                q.insert(q.end(), p.begin() + (k ? 1 : 0), p.end()); }
            for(auto &p : q) if(polyDist(p, drawn[i]) > tol) return fmt("edge %d is now drawn somewhere else", (int)i);
            for(auto &p : drawn[i]) if(polyDist(p, q) > tol) return fmt("part of edge %d is not drawn any more", (int)i);
            if(exact && std::fabs(lengthOf(q) - lengthOf(drawn[i])) > 1e-5) return fmt("path of edge %d has length %.12g, expected %.12g", (int)i, lengthOf(q), lengthOf(drawn[i]));
            unsigned f = m->edge(abs(a.back()))->flags() & 0xff00u; if(f != 0x100u << i) return fmt("flags of edge %d are %x", (int)i, f); }
        if(used.size() != m->edgeCount()) return "there are edges that do not belong to any original edge";
        for(GeoMap::EdgeIterator it = m->edgesBegin(); it.inRange(); ++it) { std::vector<V2> p = points((*it)->label()); if(std::fabs((*it)->length() - lengthOf(p)) > 1e-9) return fmt("length() of edge %d is %.9g, but its points have length %.9g", (int)(*it)->label(), (*it)->length(), lengthOf(p));
            V2 a = p[0] - (*it)->startNode()->position(), b = p.back() - (*it)->endNode()->position(); if(dot(a, a) + dot(b, b) > 1e-20) return "edge does not start / end at its node"; }
        return ""; }
    std::string checkPrefs() {      // the survivor of each outermost common stretch is the most preferred edge
        if(v.off.empty()) return "";
        for(size_t n = 0; n < s.nodes.size(); ++n) for(auto &k : trees[n].kids) { if(k.kids.empty()) continue;
            int best = 0; for(int d : k.darts) if(!best || pref(abs(d) - 1) > pref(abs(best) - 1)) best = d;
            bool found = false; std::vector<int> o = orbit(m->node(node[n])->anchor().label());
            for(int d : o) { std::vector<V2> p = points(d); V2 w = vec(dartPath(s, best)[1]) - vec(dartPath(s, best)[0]), u = p[1] - p[0]; if(dot(u, w) <= 0.8 * std::sqrt(dot(u, u) * dot(w, w))) continue; found = true; for(auto &x : p) if(polyDist(x, drawn[abs(best) - 1]) > 1e-9) return "the common stretch is not the one of the preferred edge"; }
            if(!found) return "no common stretch found"; }
        return ""; }
    double pref(int i) { return v.prefs == 1 ? 1.0 + i : 10.0 - i; }
    std::string checkFaces(bool split) {
        // regions between unit lattice edges
        const int N = 20; std::set<std::pair<L2, L2>> wall; for(auto &p : s.edges) for(size_t i = 0; i + 1 < p.size(); ++i) { wall.insert({p[i], p[i + 1]}); wall.insert({p[i + 1], p[i]}); }
        std::vector<std::vector<int>> c(N, std::vector<int>(N, 0)); std::vector<int> area; int id = 0;
        for(int y = 0; y < N; ++y) for(int x = 0; x < N; ++x) if(!c[y][x]) { ++id; int n = 0; std::vector<L2> st(1, L2{x, y}); c[y][x] = id;
            while(!st.empty()) { L2 p = st.back(); st.pop_back(); ++n; int X = p.x - 8, Y = p.y - 8;      // cell (X,Y)-(X+1,Y+1)
                auto go = [&](int nx, int ny, L2 a, L2 b) { if(nx < 0 || ny < 0 || nx >= N || ny >= N || c[ny][nx] || wall.count({a, b})) return; c[ny][nx] = id; st.push_back(L2{nx, ny}); };
                go(p.x + 1, p.y, L2{X + 1, Y}, L2{X + 1, Y + 1}); go(p.x - 1, p.y, L2{X, Y}, L2{X, Y + 1}); go(p.x, p.y + 1, L2{X, Y + 1}, L2{X + 1, Y + 1}); go(p.x, p.y - 1, L2{X, Y}, L2{X + 1, Y}); }
            if(id > 1) area.push_back(n); }
        std::vector<int> got; int faces = 0;
        for(GeoMap::FaceIterator it = m->facesBegin(); it.inRange(); ++it) { ++faces; if(!(*it)->label()) continue; double a = (*it)->area(); if(std::fabs(a - std::floor(a + 0.5)) > (exact || !split ? 1e-6 : 0.25)) return fmt("face with area %g", a); got.push_back((int)std::floor(a + 0.5)); }
        std::sort(got.begin(), got.end()); std::sort(area.begin(), area.end());
        if(got != area) { std::string e = "bounded faces have areas"; for(int a : got) e += fmt(" %d", a); e += ", expected"; for(int a : area) e += fmt(" %d", a); return e; }
        return ""; }
};
static std::string describe(const Scene &s, const Variant &v) { std::string r; for(auto &p : s.edges) { for(auto &x : p) r += fmt("(%d,%d)", x.x, x.y); r += " "; } r += "order"; for(int o : v.order) r += fmt(" %d", o); r += fmt(" reversed %x support %d step %g/%g", v.dirs, (int)v.support, v.step, v.minDist); if(!v.off.empty()) { r += " offsets"; for(int o : v.off) r += fmt(" %d", o); } if(v.prefs) r += fmt(" preferences %d", v.prefs); return r; }
static bool one(const Scene &s, const Variant &v, bool twins) {
    setDetail(describe(s, v)); count("transitions", s.edges.size() + 1);     // insertions and sorting
    std::string e, what = "sortEdgesEventually";
    try {
        Run r(s, v); bool direct = true, loose = s.eight && s.edges.size() > 2;     // edges 45 degrees apart may be told apart one step later
        for(auto &t : r.trees) for(auto &k : t.kids) if(k.darts.size() > 1) direct = false;
        { Run q(s, v); bool thrown = false; try { q.m->sortEdgesDirectly(); } catch(std::exception &) { thrown = true; }
          bool ident = false; if(v.off.empty()) { ident = !direct; if(thrown != ident) { viol("sortEdgesDirectly", describe(s, v) + (thrown ? " : different angles rejected" : " : identical angles not rejected")); return false; }
            if(!thrown) { e = q.checkOrder(GeoMap::UnsortableGroups()); if(!e.empty()) { viol("sortEdgesDirectly", describe(s, v) + " : " + e); return false; } } } }
        GeoMap::UnsortableGroups uns;
        r.m->sortEdgesEventually(v.step, v.minDist, uns, true);
        if(!r.m->edgesSorted()) e = "edgesSorted() is false";
        if(e.empty()) e = r.checkOrder(uns);
        if(e.empty() && !twins) {
            if(v.off.empty() && !v.prefs) { Run q(s, v); GeoMap::UnsortableGroups u2; q.m->sortEdgesEventually(v.step, v.minDist, u2, false); e = q.checkOrder(u2);
                bool thrown = false; try { q.m->splitParallelEdges(); } catch(std::exception &) { thrown = true; } if(e.empty() && !thrown) e = "splitParallelEdges() without planned splits is not rejected";
                if(e.empty()) { q.m->initializeMap(false); if(!q.m->checkConsistency()) e = "checkConsistency() failed"; if(e.empty() && s.edges.size() + 1 - s.nodes.size() + 1 != q.m->faceCount()) e = fmt("%d faces, expected %d (not planar)", (int)q.m->faceCount(), (int)(s.edges.size() + 2 - s.nodes.size())); if(e.empty() && !s.star) e = q.checkFaces(false); } }
            what = "splitParallelEdges";
            if(e.empty()) {
                if(v.prefs) { std::auto_ptr<GeoMap::EdgePreferences> p(new GeoMap::EdgePreferences(r.m->maxEdgeLabel())); for(size_t i = 0; i < s.edges.size(); ++i) (*p)[r.edge[i]] = r.pref(i); r.m->setEdgePreferences(p); }
                r.m->splitParallelEdges(); if(!loose) e = r.checkSplit(); if(e.empty() && v.prefs) e = r.checkPrefs(); count("transitions"); count("traces"); }
            if(e.empty()) { count("transitions"); r.m->initializeMap(false); if(!r.m->checkConsistency()) e = "checkConsistency() failed";
                size_t F = r.m->edgeCount() + 2 - r.m->nodeCount(); if(e.empty() && r.m->faceCount() != F) e = fmt("%d faces, expected %d (not planar)", (int)r.m->faceCount(), (int)F);
                if(e.empty() && !s.star) e = r.checkFaces(true); if(e.empty() && !loose) e = r.checkSplit(); } }
        if(twins && e.empty()) {   // one of each group of identical edges is removed before splitting
            what = "splitParallelEdges"; std::vector<bool> gone(s.edges.size()); Scene t; t.nodes = s.nodes; t.star = s.star;
            for(size_t i = 0; i < s.edges.size(); ++i) { for(size_t j = 0; j < i; ++j) if(s.edges[i] == s.edges[j]) gone[i] = true; }
            for(size_t i = 0; i < s.edges.size(); ++i) if(gone[i]) r.m->removeEdge(r.m->dart(r.edge[i]));
            r.m->splitParallelEdges(); r.m->initializeMap(false); if(!r.m->checkConsistency()) e = "checkConsistency() failed";
            size_t F = r.m->edgeCount() + 2 - r.m->nodeCount(); if(e.empty() && r.m->faceCount() != F) e = fmt("%d faces, expected %d (not planar)", (int)r.m->faceCount(), (int)F); count("traces"); }
    } catch(std::exception &x) { e = std::string("exception: ") + x.what(); }
    if(!e.empty()) viol(what, describe(s, v) + " : " + e);
    return e.empty(); }
static std::vector<Path> walks(L2 from, int len, bool eight, int lo, int hi, int lo2, int hi2) {
    std::vector<Path> r, cur(1, Path(1, from));
    for(int i = 0; i < len; ++i) { std::vector<Path> n; for(auto &p : cur) for(int dy = -1; dy <= 1; ++dy) for(int dx = -1; dx <= 1; ++dx) { if((!dx && !dy) || (!eight && dx && dy)) continue; L2 q{p.back().x + dx, p.back().y + dy}; if(q.x < lo || q.x > hi || q.y < lo2 || q.y > hi2 || std::find(p.begin(), p.end(), q) != p.end()) continue;
            Path z = p; z.push_back(q); bool x = false; for(size_t k = 0; k + 2 < z.size(); ++k) if(crossing(z[k], z[k + 1], z[z.size() - 2], z.back())) x = true; if(!x) n.push_back(z); } cur = n; }
    return cur; }
static void variants(const Scene &s, int level, bool twins) {    // level 0: few, 1: all orders and directions
    static const double st[][2] = {{0.3, 0.1}, {0.25, 0.1}, {0.2, 0.05}, {0.7, 0.25}};
    size_t k = s.edges.size(); std::vector<int> o(k); for(size_t i = 0; i < k; ++i) o[i] = i;
    Variant v; v.prefs = 0; v.support = false;
    do { for(unsigned d = 0; d < (1u << k); ++d) for(int c = 0; c < (level ? 4 : 1); ++c) { v.order = o; v.dirs = d; v.step = st[c][0]; v.minDist = st[c][1]; for(int sup = 0; sup < (twins ? 1 : 2); ++sup) { v.support = sup; if(!one(s, v, twins)) return; } } } while(level && std::next_permutation(o.begin(), o.end()));
    if(twins) return;
    v.order.clear(); for(size_t i = 0; i < k; ++i) v.order.push_back(i);
    v.step = 0.3; v.minDist = 0.1; v.support = false;
    std::vector<std::vector<int>> offs(1); if(s.star) { for(size_t i = 0; i < k; ++i) { std::vector<std::vector<int>> n; for(auto &x : offs) for(int q = -1; q <= 1; ++q) { auto y = x; y.push_back(q); n.push_back(y); } offs = n; } }
    for(unsigned d = 0; d < (1u << k); d += level ? 1 : (1u << k) - 1) for(int pr = 0; pr < 3; ++pr) for(auto &f : offs) { v.dirs = d; v.prefs = pr; v.off = f; if(!pr && f.empty()) continue; if(!one(s, v, twins)) return; } }
static Scene starOf(const std::vector<Path> &ps, bool twins) { Scene s; s.star = true; s.nodes.push_back(ps[0][0]); for(auto &p : ps) { size_t n = std::find(s.nodes.begin(), s.nodes.end(), p.back()) - s.nodes.begin(); if(n == s.nodes.size()) s.nodes.push_back(p.back()); s.edges.push_back(p); s.s.push_back(0); s.e.push_back(n); } return s; }
int main(int argc, char **argv) {
    init(argc, argv); bool th = thorough();
    // stars: edges leaving one node, all ending in different nodes
    struct S { bool eight; int len; int k; bool sameStart; int level; };
    std::vector<S> stars = {{false, 3, 2, false, 1}, {false, 3, 3, false, 0}, {false, 3, 3, true, 1}, {true, 2, 2, false, 1}, {true, 3, 2, true, 0}, {true, 2, 3, false, 0}};
    if(san()) stars = {{false, 3, 2, false, 0}, {true, 2, 2, false, 0}};
    else if(th) { stars.push_back({false, 3, 3, false, 1}); stars.push_back({false, 3, 4, true, 0}); stars.push_back({true, 3, 3, true, 0}); stars.push_back({true, 2, 4, false, 0}); }
    for(auto &c : stars) {
        std::vector<Path> w = walks(L2{0, 0}, c.len, c.eight, -9, 9, -9, 9); int idx = 0;
        std::vector<int> sel;
        std::function<bool(int)> rec = [&](int from) -> bool {
            if((int)sel.size() == c.k) {
                std::vector<Path> ps; for(int i : sel) ps.push_back(w[i]);
                if(c.sameStart) for(auto &p : ps) if(p[1] != ps[0][1]) return true;
                std::set<L2> ends; for(auto &p : ps) ends.insert(p.back()); if((int)ends.size() != c.k) return true;
                Scene s = starOf(ps, false); s.eight = c.eight; if(!proper(s, false)) return true;
                ++idx; if(!mine(fmt("star%d/%d/%d%s%d/%d", c.eight ? 8 : 4, c.len, c.k, c.sameStart ? "s" : "a", c.level, idx))) return true;
                count("states"); variants(s, c.level, false); return !tooMany(); }
            for(int i = from; i < (int)w.size(); ++i) { sel.push_back(i); bool ok = rec(i + 1); sel.pop_back(); if(!ok) return false; }
            return true; };
        if(!rec(0)) return finish(); }
    // identical edges
    { std::vector<Path> w = walks(L2{0, 0}, 2, false, -9, 9, -9, 9); int idx = 0;
      for(size_t a = 0; a < w.size(); ++a) for(size_t b = 0; b < w.size(); ++b) for(int n = 2; n <= 3; ++n) { if(a == b) continue;
          std::vector<Path> ps(n, w[a]); ps.push_back(w[b]); Scene s = starOf(ps, true); if(!proper(s, true)) continue;
          ++idx; if(!mine(fmt("twins/%d", idx))) continue; count("states"); variants(s, san() ? 0 : 1, true); if(tooMany()) return finish(); } }
    // nets: edges between two nodes (and loops) within a small lattice box
    struct B { int w, h; L2 a, b; int maxLen, k; int level; };
    std::vector<B> boxes = {{4, 3, {0, 1}, {3, 1}, 9, 2, 1}, {4, 3, {0, 1}, {3, 1}, 9, 3, 0}, {4, 4, {0, 0}, {3, 3}, 8, 2, 0}};
    if(san()) boxes = {{4, 3, {0, 1}, {3, 1}, 7, 2, 0}};
    else if(th) { boxes.push_back({4, 4, {0, 0}, {3, 3}, 8, 3, 0}); boxes.push_back({5, 3, {0, 1}, {4, 1}, 10, 3, 0}); boxes.push_back({5, 4, {0, 1}, {4, 2}, 10, 2, 1}); }
    for(auto &b : boxes) {
        std::vector<Path> w; std::vector<int> s0, e0;
        for(int len = 1; len <= b.maxLen; ++len) for(auto &p : walks(b.a, len, false, 0, b.w - 1, 0, b.h - 1)) if(p.back() == b.b) { w.push_back(p); s0.push_back(0); e0.push_back(1); }
        // loops with a common stretch of 0..2 at the node
        for(int at = 0; at < 2; ++at) for(int tr = 0; tr <= 2; ++tr) for(auto &t : walks(at ? b.b : b.a, tr, false, 0, b.w - 1, 0, b.h - 1)) for(int len = 3; len <= 5; len += 2) for(auto &p : walks(t.back(), len, false, 0, b.w - 1, 0, b.h - 1)) {
            if(abs(p.back().x - p[0].x) + abs(p.back().y - p[0].y) != 1) continue;
            if(dirIndex(p[0], p[1]) > dirIndex(p[0], p.back())) continue;     // both orientations come with the direction patterns
            bool hit = false; for(size_t i = 0; i + 1 < t.size(); ++i) if(std::find(p.begin(), p.end(), t[i]) != p.end()) hit = true; if(hit) continue;
            Path z(t.begin(), t.end()); z.insert(z.end(), p.begin() + 1, p.end()); z.insert(z.end(), t.rbegin(), t.rend()); w.push_back(z); s0.push_back(at); e0.push_back(at); }
        count("net_paths", w.size()); int idx = 0; std::vector<int> sel;
        std::function<bool(int)> rec = [&](int from) -> bool {
            if((int)sel.size() == b.k) {
                Scene s; s.star = false; s.nodes = {b.a, b.b}; bool conn = false; for(int i : sel) { s.edges.push_back(w[i]); s.s.push_back(s0[i]); s.e.push_back(e0[i]); if(s0[i] != e0[i]) conn = true; }
                if(!conn) return true;
                if(!proper(s, false)) return true;
                ++idx; if(!mine(fmt("net%dx%d/%d/%d/%d", b.w, b.h, b.k, b.level, idx))) return true;
                count("states"); variants(s, b.level, false); return !tooMany(); }
            for(int i = from; i < (int)w.size(); ++i) { sel.push_back(i); bool ok = rec(i + 1); sel.pop_back(); if(!ok) return false; }
            return true; };
        if(!rec(0)) return finish(); }
    return finish(); }
