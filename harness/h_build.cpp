// Construction (P07), nearest-node lookup (P10), traversal (P23).
#include "explore.hpp"
#include <vigra/map2d.hxx>
#include <vigra/stdimage.hxx>
#include "filteriterator.hxx"
using namespace gm;
using scn::Scene;
static std::vector<Scene> SC; static Scene GRID;

// ---------------------------------------------------------------- P07
static RMap modelOrder(const Scene &s, const std::vector<int> &order, uint64_t dirs, bool allNodes) { Case c; c.scene = &s; c.order = order; c.dirs = dirs; c.allNodes = allNodes; RMap m; modelOf(c, m); return m; }
// how: 0 initializeMap only, 1 sort explicitly, 2 sigma mapping given, 3 explicit labels with gaps, 4 copied while still a graph, 5 sorted insertion: every edge is added at its place in the cyclic order
static std::string buildAndCheck(const Scene &s, const std::vector<int> &order, uint64_t dirs, bool li, int how, bool pixels) {
    Case c; c.scene = &s; c.order = order; c.dirs = dirs; c.labelImage = li;
    RMap m; modelOf(c, m);
    vf::count("transitions", order.size() + 1);     // insertions and initialization
    MapPtr g;
    if(how == 3) {       // labels with gaps: renumber the model
        RMap n; n.nextNode = 0; n.labelImage = li;
        g.reset(new GeoMap(vigra::Size2D(s.W, s.H))); std::map<unsigned, unsigned> nl;
        unsigned nn = 1, ne = 3;
        for(auto &k : m.nodes) { GeoMap::NodePtr p = g->addNode(V(k.second), nn); if(p->label() != nn) return fmt("addNode with label %u created node %u", nn, p->label()); nl[k.first] = nn; n.nodes[nn] = k.second; nn += 2; }
        for(auto &k : m.edges) {
            GeoMap::EdgePtr e = g->addEdge(*g->node(nl[k.second.s]), *g->node(nl[k.second.e]), VA(k.second.pts), ne);
            if(e->label() != ne) return fmt("addEdge with label %u created edge %u", ne, e->label());
            REdge x = k.second; x.s = nl[x.s]; x.e = nl[x.e]; n.edges[ne] = x; ne += 3; }
        n.nextNode = nn; n.nextEdge = ne; n.derive(); m = n;
    } else if(how == 5) {
        g.reset(new GeoMap(vigra::Size2D(s.W, s.H)));
        for(auto &n : m.nodes) g->addNode(V(n.second));
        g->sortEdgesDirectly();
        std::set<int> in;
        for(auto &k : m.edges) {
            int L = k.first, succ[2] = {0, 0};          // the next dart in the cyclic order among those already present
            for(int i = 0; i < 2; ++i) for(int d = m.sigma.at(i ? -L : L); std::abs(d) != L || d != (i ? -L : L); d = m.sigma.at(d)) if(in.count(std::abs(d))) { succ[i] = d; break; }
            if(k.second.s == k.second.e) for(auto &o : m.edges) if(in.count(o.first) && (o.second.s == k.second.s || o.second.e == k.second.s)) {
                P2 q = o.second.s == k.second.s ? o.second.pts[1] : o.second.pts[o.second.pts.size() - 2];
                if(ref::inside(k.second.pts, q)) return ""; }         // a loop around other edges of its node: its place cannot be expressed
            GeoMap::SigmaAnchor a = succ[0] ? GeoMap::SigmaAnchor(g->dart(succ[0])) : GeoMap::SigmaAnchor(*g->node(k.second.s));
            GeoMap::SigmaAnchor b = succ[1] ? GeoMap::SigmaAnchor(g->dart(succ[1])) : GeoMap::SigmaAnchor(*g->node(k.second.e));
            if(g->addEdge(a, b, VA(k.second.pts))->label() != (unsigned)L) return "unexpected label of a new edge";
            in.insert(L); }
        std::string e = cmpTopology(*g, m, false); if(!e.empty()) return "sorted insertion: " + e;
    } else g = graphOf(c, m);
    if(how == 4) { MapPtr h(new GeoMap(*g)); g = std::move(h); }
    if(how == 1 || how == 4) {
        g->sortEdgesDirectly();
        if(!g->edgesSorted()) return "edgesSorted() false after sorting";
        std::string e = cmpTopology(*g, m, false); if(!e.empty()) return "sorted graph: " + e;
    }
    if(how == 2) {
        size_t n = g->maxEdgeLabel(); std::vector<int> sig(2 * n - 1 + 4, 0);
        for(auto &x : m.sigma) sig[sig.size() / 2 + x.first] = x.second;
        g->setSigmaMapping(sig, true);
        std::string e = cmpTopology(*g, m, false); if(!e.empty()) return "given sigma mapping: " + e;
    }
    if(g->mapInitialized()) return "mapInitialized() too early";
    g->initializeMap(li);
    if(!g->mapInitialized() || g->hasLabelImage() != li) return "initializeMap() did not initialize";
    std::string e = adoptLabels(*g, m);
    if(e.empty()) e = cmpTopology(*g, m);
    if(e.empty()) e = cmpCells(*g, m);
    if(e.empty() && pixels) e = cmpPixels(*g, m, s.W, s.H);
    if(!e.empty()) return e;
    // wrong phase
    int rejected = 0; std::string was;
    try { g->initializeMap(li); was = "second initializeMap()"; } catch(std::exception &) { ++rejected; }
    try { g->sortEdgesDirectly(); was = "sortEdgesDirectly()"; } catch(std::exception &) { ++rejected; }
    try { GeoMap::UnsortableGroups u; g->sortEdgesEventually(0.5, 0.1, u, false); was = "sortEdgesEventually()"; } catch(std::exception &) { ++rejected; }
    try { g->setSigmaMapping(g->sigmaMapping()); was = "setSigmaMapping()"; } catch(std::exception &) { ++rejected; }
    try { g->addEdge(*g->node(m.nodes.begin()->first), *g->node(m.nodes.begin()->first), VA(Poly{P2{0, 0}, P2{1, 1}, P2{2, 0}})); was = "addEdge()"; } catch(std::exception &) { ++rejected; }
    if(rejected != 5) return "initialized map accepts " + was;
    e = cmpTopology(*g, m); if(!e.empty()) return "after rejected calls: " + e;
    return ""; }
// topology only, with transformed coordinates (rounding errors everywhere)
static std::string buildTransformed(const Scene &s, const std::vector<int> &order, uint64_t dirs, bool li, bool sort) {
    Case c; c.scene = &s; c.order = order; c.dirs = dirs; c.labelImage = li;
    RMap m; { const Xf *x = xform(); UseXf off(nullptr); modelOf(c, m); xform() = x; }
    vf::count("transitions", order.size() + 1);
    MapPtr g = graphOf(c, m);
    if(sort) g->sortEdgesDirectly();
    g->initializeMap(li);
    std::string e = adoptLabels(*g, m); if(e.empty()) e = cmpTopology(*g, m); if(!e.empty()) return e;
    std::vector<P2> pts = samplePoints(s.W, s.H); std::vector<int> where = regionsOf(m, pts);
    for(size_t k = 0; k < pts.size(); ++k) {
        P2 p = pts[k]; int r = where[k]; if(r < 0) continue;
        GeoMap::FacePtr f = g->faceAt(V(p)); if(!f || f->label() != m.regions[r].label) return fmt("faceAt() the point corresponding to (%g,%g) is face %d, expected %u", p.x, p.y, f ? (int)f->label() : -1, m.regions[r].label); }
    return ""; }
static void P07() {
    bool th = vf::thorough(), san = vf::san();
    // every insertion order and direction pattern of every subset with at most 3 (4) edges, every kind of construction
    size_t maxPerm = san ? (th ? 3 : 2) : th ? 5 : 4;
    for(auto &s : SC) {
        uint64_t all = (1ull << s.edges.size()) - 1;
        for(uint64_t m = 1; m <= all; ++m) {
            std::vector<int> es; for(size_t i = 0; i < s.edges.size(); ++i) if(m >> i & 1) es.push_back(i);
            if(es.size() > maxPerm && es.size() != s.edges.size() && san) continue;
            if(!vf::mine(fmt("%s/m%llx", s.name.c_str(), (unsigned long long)m))) continue;
            vf::count("states");
            if(es.size() <= maxPerm) {
                std::vector<int> o = es; std::sort(o.begin(), o.end());
                do for(uint64_t d = 0; d < (1ull << es.size()); ++d) {
                    uint64_t dirs = 0; for(size_t k = 0; k < es.size(); ++k) if(d >> k & 1) dirs |= 1ull << es[k];
                    for(int how = 0; how < 6; ++how) for(bool li : {true, false}) {
                        std::string os; for(int x : o) os += fmt("%d,", x);
                        vf::setDetail(fmt("order %s dirs %llx how %d li %d", os.c_str(), (unsigned long long)dirs, how, (int)li));
                        vf::count("traces");
                        try { std::string e = buildAndCheck(s, o, dirs, li, how, how == 0 && o == es);
                            if(!e.empty()) vf::viol("construct", fmt("order %s directions %llx, construction %d, label image %d: ", os.c_str(), (unsigned long long)dirs, how, (int)li) + e); }
                        catch(std::exception &x) { vf::viol("construct", std::string("exception: ") + x.what()); }
                        if(vf::tooMany()) return; }
                } while(std::next_permutation(o.begin(), o.end()));
            } else {
                // larger subsets: all rotations and the reverse of the order, direction patterns none/all/alternating (all for the full scene)
                std::vector<uint64_t> D = {0, m, 0x5555 & m}; if(m == all && san) for(size_t k = 0; k < s.edges.size(); ++k) D.push_back(1ull << k); else if(m == all) { D.clear(); for(uint64_t d = 0; d <= all; ++d) D.push_back(d); }
                for(size_t r = 0; r <= es.size(); ++r) {
                    std::vector<int> o = es; if(r == es.size()) std::reverse(o.begin(), o.end()); else std::rotate(o.begin(), o.begin() + r, o.end());
                    if(r && m == all && r < es.size() && !th) continue;
                    for(uint64_t d : D) for(bool li : {true, false}) {
                        vf::count("traces");
                        vf::setDetail(fmt("rotation %zu dirs %llx li %d", r, (unsigned long long)d, (int)li));
                        try { std::string e = buildAndCheck(s, o, d, li, (int)(r % 6), r == 0 && d == 0);
                            if(!e.empty()) vf::viol("construct", fmt("rotation %zu directions %llx, label image %d: ", r, (unsigned long long)d, (int)li) + e); }
                        catch(std::exception &x) { vf::viol("construct", std::string("exception: ") + x.what()); }
                        if(vf::tooMany()) return; } }
            }
        }
    }
    // transformed coordinates: all subsets of all scenes
    for(auto &x : xforms()) for(auto &s : SC) for(uint64_t m = 1, all = (1ull << s.edges.size()) - 1; m <= all; ++m) {
        if(san && m != all) continue;
        if(!vf::mine(fmt("%s/m%llx/%s", s.name.c_str(), (unsigned long long)m, x.name))) continue;
        UseXf use(&x); vf::count("states");
        std::vector<int> es; for(size_t i = 0; i < s.edges.size(); ++i) if(m >> i & 1) es.push_back(i);
        for(uint64_t d : {(uint64_t)0, (uint64_t)0x5555 & m}) for(bool li : {true, false}) for(int rev = 0; rev < 2; ++rev) {
            std::vector<int> o = es; if(rev) std::reverse(o.begin(), o.end()); std::string e; vf::count("traces");
            try { e = buildTransformed(s, o, d, li, rev); } catch(std::exception &ex) { e = std::string("exception: ") + ex.what(); }
            if(!e.empty()) vf::viol("construct", fmt("%s coordinates, directions %llx, label image %d, %s: ", x.name, (unsigned long long)d, (int)li, rev ? "reverse order" : "order") + e);
            if(vf::tooMany()) return; } }
    // enclosing contours of nearly the same area
    for(int n = 2; n <= 4; ++n) for(int k = 0; k < 6; ++k) for(int li = 0; li < 2; ++li) for(int start = 0; start < (1 << n); ++start) {
        double gap = 1.0 / (1 << (2 + 3 * k)); if(!vf::mine(fmt("onion/%d/%d/%d/%d", n, k, li, start))) continue;
        Scene s; s.name = "onion"; s.W = 14; s.H = 14;
        for(int i = 0; i < n; ++i) { double a = 1.25 + i * gap, b = 11.25 - i * gap; bool B = start >> i & 1; int q = s.node(B ? b : a, B ? b : a); if(B) s.edge(q, q, {P2{a, b}, P2{a, a}, P2{b, a}}); else s.edge(q, q, {P2{b, a}, P2{b, b}, P2{a, b}}); }
        std::vector<int> o; for(int i = 0; i < n; ++i) o.push_back(i);
        vf::count("states");
        do { vf::count("traces"); std::string e; try { e = buildAndCheck(s, o, start, li, 0, false); } catch(std::exception &ex) { e = std::string("exception: ") + ex.what(); }
            if(!e.empty()) { vf::viol("construct", fmt("%d squares nested with a gap of %g, label image %d: ", n, gap, li) + e); break; } } while(std::next_permutation(o.begin(), o.end())); }
    // many edges (more than 50)
    for(int nx = 5; nx <= 6; ++nx) for(int d = 0; d < 3; ++d) for(int rev = 0; rev < 2; ++rev) for(int how = 0; how < 6; ++how) {
        if(!vf::mine(fmt("big/%dx6/%d/%d/%d", nx, d, rev, how))) continue;
        Scene s = scn::grid(nx, 6, 1.25, 2, false, "big"); std::vector<int> o; for(size_t i = 0; i < s.edges.size(); ++i) o.push_back(i); if(rev) std::reverse(o.begin(), o.end());
        vf::count("states"); vf::count("traces"); std::string e;
        try { e = buildAndCheck(s, o, d == 0 ? 0 : d == 1 ? ~0ull : 0x5555555555555555ull, true, how, how == 0); } catch(std::exception &ex) { e = std::string("exception: ") + ex.what(); }
        if(!e.empty()) vf::viol("construct", fmt("%zu edges, directions %d, reverse %d, construction %d: ", s.edges.size(), d, rev, how) + e); }
    // all subsets of the grid
    if(!san || th) for(uint64_t m = 1; m < (1ull << GRID.edges.size()); ++m) {
        if(!vf::mine(fmt("g3/m%llx", (unsigned long long)m))) continue;
        vf::count("states");
        std::vector<int> es; for(size_t i = 0; i < GRID.edges.size(); ++i) if(m >> i & 1) es.push_back(i);
        for(bool li : {true, false}) for(uint64_t d : {(uint64_t)0, (uint64_t)0x555 & m}) for(int how = 0; how < 6; ++how) { vf::count("traces");
            try { std::string e = buildAndCheck(GRID, es, d, li, how, li && !d && !how); if(!e.empty()) vf::viol("construct", fmt("dirs %llx label image %d: ", (unsigned long long)d, (int)li) + e); }
            catch(std::exception &x) { vf::viol("construct", std::string("exception: ") + x.what()); } }
        if(vf::tooMany()) return;
    }
    // stars: all sets of up to 4 (5) of 24 directions around one node, in two insertion orders
    {
        static const int dx[24] = {8,8,8,4,1,0,-1,-4,-8,-8,-8,-8,-8,-8,-8,-4,-1,0,1,4,8,8,8,8}, dy[24] = {0,1,4,8,8,8,8,8,8,4,1,0,-1,-4,-8,-8,-8,-8,-8,-8,-8,-4,-3,-1};
        Scene s; s.name = "star"; s.W = 20; s.H = 20; int O = s.node(9.25, 9.25);
        for(int i = 0; i < 24; ++i) { int n = s.node(9.25 + dx[i] * 0.75, 9.25 + dy[i] * 0.75); if(i % 3 == 1) s.edge(n, O, {P2{9.25 + dx[i] * 0.25, 9.25 + dy[i] * 0.25}}); else s.edge(O, n); }
        int K = san ? 2 : th ? 5 : 4; std::vector<int> cur;
        std::function<void(int)> rec = [&](int from) {
            if(!cur.empty()) {
                std::string id = "star/"; for(int x : cur) id += fmt("%d,", x);
                if(vf::mine(id)) {
                    vf::count("states");
                    for(int r = 0; r < 2; ++r) { std::vector<int> o = cur; if(r) std::reverse(o.begin(), o.end()); vf::count("traces"); vf::count("transitions", o.size() + 1);
                        Case c; c.scene = &s; c.order = o; RMap m; modelOf(c, m); MapPtr g = graphOf(c, m);
                        std::string e;
                        try { g->sortEdgesDirectly(); e = cmpTopology(*g, m, false); } catch(std::exception &x) { e = std::string("exception: ") + x.what(); }
                        if(!e.empty()) vf::viol("star", e); }
                }
            }
            if((int)cur.size() < K) for(int i = from; i < 24; ++i) { cur.push_back(i); rec(i + 1); cur.pop_back(); } };
        rec(0);
        // identical start angles are rejected: every pair of directions, one edge shortened or bent
        for(int i = 0; i < 24; ++i) for(int j = 0; j < 24; ++j) for(int k = 0; k < 2; ++k) {
            if(!vf::mine(fmt("star-identical/%d/%d/%d", i, j, k))) continue;
            vf::count("states"); vf::count("traces"); vf::count("transitions");
            GeoMap g(vigra::Size2D(20, 20)); P2 o{9.25, 9.25}, e{9.25 + dx[i] * 0.75, 9.25 + dy[i] * 0.75}, h{9.25 + dx[i] * 0.5, 9.25 + dy[i] * 0.5}, f{9.25 + dx[j] * 0.75, 9.25 + dy[j] * 0.75 + 0.125};
            GeoMap::NodePtr O2 = g.addNode(V(o)), A = g.addNode(V(e)), B = g.addNode(V(f)), C = g.addNode(V(P2{o.x - dx[i] * .5, o.y - dy[i] * .5}));
            g.addEdge(*O2, *A, VA(Poly{o, e})); g.addEdge(*O2, *C, VA(Poly{o, P2{o.x - dx[i] * .5, o.y - dy[i] * .5}}));
            if(k) g.addEdge(*O2, *B, VA(Poly{o, h, f})); else g.addEdge(*B, *O2, VA(Poly{f, h, o}));
            bool thrown = false; try { if(j % 2) g.sortEdgesDirectly(); else g.initializeMap(false); } catch(std::exception &) { thrown = true; }
            if(!thrown) vf::viol("identical-angles", "edges with identical start angles accepted"); }
    }
    // graph histories before initialization: removals, merges and splits, sorted or not, then initialize
    for(auto &s : SC) for(int pre = 0; pre < 2; ++pre) {
        uint64_t all = (1ull << s.edges.size()) - 1;
        if(!vf::mine(fmt("%s/graph%d", s.name.c_str(), pre))) continue;
        Case c; c.scene = &s; c.mask = all; c.dirs = 0x5555 & all; RMap m0; modelOf(c, m0);
        struct St { RMap m; std::vector<Op> h; }; std::deque<St> q{St{m0, {}}}; vf::count("states");
        int depth = san ? 1 : th ? 3 : 2;
        auto ops = [&](const RMap &m) { std::vector<Op> r; for(auto &k : m.edges) { int e = k.first;
                for(int d : {e, -e}) { r.push_back(Op{MERGE_FACES, d, 0, P2{0, 0}}); if(m.degree(m.startNode(d)) == 2 && k.second.s != k.second.e) r.push_back(Op{MERGE_EDGES, d, 0, P2{0, 0}}); }
                for(size_t i = 1; i + 1 < k.second.pts.size(); ++i) r.push_back(Op{SPLIT, e, (int)i, P2{0, 0}});
                r.push_back(Op{SPLIT_INS, e, 0, midpoint(k.second.pts, 0)}); } return r; };
        auto doImpl = [&](GeoMap &g, const Op &o) { Result r; if(o.t == MERGE_FACES) { if(g.removeEdge(g.dart(o.a))) r.status = Result::NOTHING; return r; } return applyImpl(g, o); };
        auto doModel = [&](RMap &m, const Op &o, const Result &r) { if(o.t == MERGE_FACES) { if(r.status != Result::OK) return std::string("removeEdge() on a graph returned a face"); m.edges.erase(std::abs(o.a)); m.derive(); return std::string(); } return applyModel(m, o, r); };
        while(!q.empty()) {
            St st = q.front(); q.pop_front();
            if((int)st.h.size() >= depth) continue;
            for(auto &op : ops(st.m)) {
                std::vector<Op> h = st.h; h.push_back(op); vf::setDetail(str(h)); vf::count("transitions"); vf::count("traces");
                std::string e; RMap m = st.m;
                try {
                    MapPtr g = graphOf(c, m0); if(pre) g->sortEdgesDirectly();
                    for(auto &o : st.h) doImpl(*g, o);
                    Result r = doImpl(*g, op); e = doModel(m, op, r);
                    if(e.empty()) { g->initializeMap(true); RMap x = m; e = adoptLabels(*g, x); if(e.empty()) e = cmpTopology(*g, x); if(e.empty()) e = cmpCells(*g, x); if(e.empty()) e = cmpPixels(*g, x, s.W, s.H, false); }
                } catch(std::exception &x) { e = std::string("exception: ") + x.what(); }
                if(!e.empty()) { vf::viol("graph-history", str(h) + ": " + e); if(vf::tooMany()) return; continue; }
                if((int)h.size() < depth) { q.push_back(St{m, h}); vf::count("states"); }
            }
        }
    }
}
// ---------------------------------------------------------------- P10
typedef vigra::PositionedObject<Vector2, unsigned> PObj;
typedef vigra::Map2D<PObj> Index;
static const double DISTS[] = {1e300, 0.01, 0.3, 1.1, 2.6, 4.9};
static std::string checkNearest(const std::function<int(P2, double)> &query, const std::map<unsigned, P2> &pts, const std::vector<P2> &qs) {
    for(auto &q : qs) for(double md : DISTS) {
        vf::count("queries");
        double best = 1e300; for(auto &p : pts) { double d = (p.second.x - q.x) * (p.second.x - q.x) + (p.second.y - q.y) * (p.second.y - q.y); best = std::min(best, d); }
        int r = query(q, md);
        bool any = !pts.empty() && best < md;
        if(!any) { if(r != -1 && !(best == md)) return fmt("query (%g,%g) max %g returned %d, but there is no such point", q.x, q.y, md, r); continue; }
        if(r < 0) return fmt("query (%g,%g) max %g found nothing, nearest has squared distance %g", q.x, q.y, md, best);
        if(!pts.count(r)) return fmt("query (%g,%g) returned removed or unknown point %d", q.x, q.y, r);
        P2 p = pts.at(r); double d = (p.x - q.x) * (p.x - q.x) + (p.y - q.y) * (p.y - q.y);
        if(d != best) return fmt("query (%g,%g) max %g returned %d at squared distance %g, nearest has %g", q.x, q.y, md, r, d, best);
    }
    return ""; }
static void P10() {
    bool th = vf::thorough(), san = vf::san();
    // (a) the index itself: all histories of inserts and removals over a small set of positions
    std::vector<P2> pos = {P2{0, 0}, P2{1, 0}, P2{0, 1}, P2{2, 2}, P2{1, 0}, P2{-1, 2.5}}; // one position twice
    std::vector<P2> qs; for(int y = -3; y <= 7; ++y) for(int x = -4; x <= 6; ++x) qs.push_back(P2{x * 0.5, y * 0.5});
    qs.push_back(P2{100, 0}); qs.push_back(P2{-100, -50});
    int depth = san ? 5 : th ? 8 : 7;
    typedef std::vector<int> H;      // i: insert position i, -1-i: erase point i
    std::function<void(H, std::vector<int>)> rec = [&](H h, std::vector<int> live) {
        bool run = h.size() >= 2 || h.empty() || true;
        std::string id = "index"; for(int x : h) id += fmt("/%d", x);
        if(h.size() == 2 || h.size() < 2) { if(!vf::mine(id) && h.size() == 2) return; if(h.size() < 2) run = vf::ctx().shard == 0; }
        if(run) {
            vf::setDetail(id); vf::count("states"); vf::count("transitions", h.size()); if((int)h.size() == depth) vf::count("traces");
            Index ix; std::map<unsigned, P2> m;
            for(int x : h) {
                if(x >= 0) { ix.insert(PObj(V(pos[x]), (unsigned)x)); m[x] = pos[x]; }
                else { unsigned i = -1 - x; Index::iterator it = ix.nearest(PObj(V(pos[i]), i), 1e-10);
                    if(it == ix.end()) { vf::viol("index-erase", id + ": point to be erased not found"); return; }
                    unsigned got = it->second.payload; if(!m.count(got) || !(m[got] == pos[i])) { vf::viol("index-erase", id + ": wrong point found for erasing"); return; }
                    m.erase(got); ix.erase(it); } }
            if(ix.size() != m.size()) vf::viol("index-size", id + fmt(": size() %zu, expected %zu", (size_t)ix.size(), m.size()));
            const Index &cix = ix;
            std::string e = checkNearest([&](P2 q, double md) { auto it = md > 1e200 ? ix.nearest(PObj(V(q), 0)) : ix.nearest(PObj(V(q), 0), md); auto ci = md > 1e200 ? cix.nearest(PObj(V(q), 0)) : cix.nearest(PObj(V(q), 0), md);
                if((it == ix.end()) != (ci == cix.end())) return -2; return it == ix.end() ? -1 : (int)it->second.payload; }, m, qs);
            if(!e.empty()) vf::viol("index", id + ": " + e);
        }
        if((int)h.size() >= depth || vf::tooMany()) return;
        std::set<int> in; for(int i : live) in.insert(i);
        for(size_t i = 0; i < pos.size(); ++i) if(!in.count(i)) { H n = h; n.push_back(i); auto l = live; l.push_back(i); rec(n, l); }
        // erasing point i removes one of the points at its position; keep bookkeeping exact by erasing only unambiguous ones
        for(size_t k = 0; k < live.size(); ++k) { int i = live[k]; bool amb = false; for(int j : live) if(j != i && pos[j] == pos[i]) amb = true; if(amb) continue;
            H n = h; n.push_back(-1 - i); auto l = live; l.erase(l.begin() + k); rec(n, l); } };
    rec({}, {});
    // (b) nodes of a map: all histories of additions, moves and removals
    std::vector<P2> npos = {P2{1.25, 1.25}, P2{3.25, 1.25}, P2{1.25, 3.25}, P2{3.25, 1.25}};
    std::vector<P2> nq; for(int y = 0; y <= 8; ++y) for(int x = 0; x <= 8; ++x) nq.push_back(P2{x * 0.5 + .25, y * 0.5 + .25});
    struct NOp { int k, a, b; };      // k 0: add at position a, 1: move node a to position b, 2: remove node a
    int nd = san ? 4 : th ? 7 : 6;
    std::function<void(std::vector<NOp>)> recN = [&](std::vector<NOp> h) {
        std::string id = "nodes"; for(auto &o : h) id += o.k == 0 ? fmt("/add%d", o.a) : o.k == 1 ? fmt("/move%d-%d", o.a, o.b) : fmt("/del%d", o.a);
        std::map<unsigned, P2> m; unsigned next = 0;
        for(auto &o : h) { if(o.k == 0) m[next++] = npos[o.a]; else if(o.k == 1) m[o.a] = npos[o.b]; else m.erase(o.a); }
        bool run = true;
        if(h.size() == 2) { if(!vf::mine(id)) return; } else if(h.size() < 2) run = vf::ctx().shard == 0;
        if(run) {
            vf::setDetail(id); vf::count("states"); vf::count("transitions", h.size()); if((int)h.size() == nd) vf::count("traces");
            GeoMap g(vigra::Size2D(6, 6));
            for(auto &o : h) { if(o.k == 0) g.addNode(V(npos[o.a])); else if(o.k == 1) g.node(o.a)->setPosition(V(npos[o.b])); else g.removeIsolatedNode(*g.node(o.a)); }
            if(g.nodeCount() != m.size()) vf::viol("nodes", id + ": wrong nodeCount()");
            std::string e = checkNearest([&](P2 q, double md) { GeoMap::NodePtr n = md > 1e200 ? g.nearestNode(V(q)) : g.nearestNode(V(q), md); return n ? (int)n->label() : -1; }, m, nq);
            if(e.empty()) for(auto &n : m) if(P(g.node(n.first)->position()) != n.second) e = fmt("node %u has wrong position", n.first);
            if(!e.empty()) vf::viol("nodes", id + ": " + e);
        }
        if((int)h.size() >= nd || vf::tooMany()) return;
        if(next < 4) for(int p = 0; p < 3; ++p) { auto n = h; n.push_back(NOp{0, p, 0}); recN(n); }
        for(auto &k : m) { for(int p = 0; p < 3; ++p) if(!(npos[p] == k.second)) { auto n = h; n.push_back(NOp{1, (int)k.first, p}); recN(n); }
            auto n = h; n.push_back(NOp{2, (int)k.first, 0}); recN(n); } };
    recN({});
    // (c) the nodes of maps after all operation histories, and after moving any node afterwards
    for(auto &s : SC) {
        uint64_t all = (1ull << s.edges.size()) - 1;
        std::vector<P2> sq; for(int y = -1; y <= s.H; y += 2) for(int x = -1; x <= s.W; x += 2) sq.push_back(P2{x + .125, y + .25});
        auto near1 = [&](GeoMap &g, const RMap &m) { std::vector<P2> q = sq; for(auto &n : m.nodes) q.push_back(n.second);
            return checkNearest([&](P2 q, double md) { GeoMap::NodePtr n = md > 1e200 ? g.nearestNode(V(q)) : g.nearestNode(V(q), md); return n ? (int)n->label() : -1; }, m.nodes, q); };
        for(int v = 0; v < 2; ++v) {
            Case c; c.scene = &s; c.mask = all; c.allNodes = v; Opts o; o.depth = san ? 1 : th ? 3 : 2; o.al.bothDarts = th;
            explore(c, o, [&](GeoMap &g, RMap &m, const Case &) { return near1(g, m); }, [&](Trans &t) {
                std::string e = near1(t.g, t.after); if(!e.empty()) return e;
                GeoMap copy(t.g); e = near1(copy, t.after); if(!e.empty()) return "copy: " + e;
                if(t.after.nodes.empty()) return e;
                RMap m = t.after; std::vector<unsigned> ns; for(auto &k : m.nodes) ns.push_back(k.first);
                std::map<int, Poly> pl; for(auto &k : m.edges) pl[k.first] = k.second.pts;
                for(unsigned n : ns) { P2 p = m.nodes[n]; p.x += 0.375; p.y -= 0.125;      // move one node after the other
                t.g.node(n)->setPosition(V(p)); m.nodes[n] = p;
                e = near1(t.g, m); if(!e.empty()) return fmt("after moving node %u: ", n) + e;
                for(auto &k : m.edges) { Poly q = polyOf(*t.g.edge(k.first)), &w = pl[k.first]; if(k.second.s == n) w.front() = p; if(k.second.e == n) w.back() = p; if(!(q == w)) return fmt("after moving node %u: edge %u does not end at its node", n, k.first); } }
                return e; }, v ? "/allNodes" : ""); }
    }
}
// ---------------------------------------------------------------- P23
template<class It, class Get> static std::string iterOnce(It it, const std::vector<unsigned> &want, Get get, const char *what) {
    std::vector<unsigned> have; for(; it.inRange(); ++it) { have.push_back(get(it)); if(have.size() > want.size() + 5) break; }
    if(have != want) { std::string s = fmt("%s iterated:", what); for(unsigned x : have) s += fmt(" %u", x); s += ", existing:"; for(unsigned x : want) s += fmt(" %u", x); return s; }
    return ""; }
static P2 atLength(const Poly &p, double l, double *seg = nullptr) {
    for(size_t i = 1; i < p.size(); ++i) { double d = ref::dist(p[i], p[i-1]); if(l < d) { return P2{p[i-1].x + (p[i].x - p[i-1].x) * l / d, p[i-1].y + (p[i].y - p[i-1].y) * l / d}; } l -= d; }
    return p.back(); }
static std::string traversals(GeoMap &g, const RMap &m) {
    std::vector<unsigned> nl, el, fl, ff; for(auto &n : m.nodes) nl.push_back(n.first); for(auto &e : m.edges) el.push_back(e.first);
    for(auto &r : m.regions) fl.push_back(r.label); std::sort(fl.begin(), fl.end()); ff.assign(fl.begin() + 1, fl.end());
    const GeoMap &cg = g; std::string e;
    if(!(e = iterOnce(g.nodesBegin(), nl, [](GeoMap::NodeIterator &i) { return (*i)->label(); }, "nodes")).empty()) return e;
    if(!(e = iterOnce(g.edgesBegin(), el, [](GeoMap::EdgeIterator &i) { return (*i)->label(); }, "edges")).empty()) return e;
    if(!(e = iterOnce(g.facesBegin(), fl, [](GeoMap::FaceIterator &i) { return (*i)->label(); }, "faces")).empty()) return e;
    if(!(e = iterOnce(g.finiteFacesBegin(), ff, [](GeoMap::FaceIterator &i) { return (*i)->label(); }, "finite faces")).empty()) return e;
    if(!(e = iterOnce(cg.nodesBegin(), nl, [](GeoMap::ConstNodeIterator &i) { return (*i)->label(); }, "nodes (const)")).empty()) return e;
    if(!(e = iterOnce(cg.edgesBegin(), el, [](GeoMap::ConstEdgeIterator &i) { return (*i)->label(); }, "edges (const)")).empty()) return e;
    if(!(e = iterOnce(cg.facesBegin(), fl, [](GeoMap::ConstFaceIterator &i) { return (*i)->label(); }, "faces (const)")).empty()) return e;
    if(!(e = iterOnce(cg.finiteFacesBegin(), ff, [](GeoMap::ConstFaceIterator &i) { return (*i)->label(); }, "finite faces (const)")).empty()) return e;
    for(auto &ks : m.sigma) {
        int d = ks.first; Poly p = m.dartPts(d); GeoMap::Dart dd = g.dart(d);
        if(dd.size() != p.size()) return fmt("dart %d has size %u", d, (unsigned)dd.size());
        for(size_t i = 0; i < p.size(); ++i) if(P(dd[i]) != p[i]) return fmt("dart %d: point %zu wrong", d, i);
        Poly q; for(DartPointIter it(dd); it.inRange(); ++it) { q.push_back(P(*it)); if(q.size() > 1000) break; }
        if(!(q == p)) return fmt("DartPointIter of dart %d yields %s, expected %s", d, str(q).c_str(), str(p).c_str());
        // turning round at every position
        for(size_t k = 0; k < p.size(); ++k) {
            DartPointIter it(dd); for(size_t j = 0; j < k; ++j) it++;
            it.reverse(); q.clear(); for(; !it.atEnd() && q.size() < 100; ++it) q.push_back(P(*it));
            Poly w(p.begin(), p.begin() + k + 1); std::reverse(w.begin(), w.end());
            if(!(q == w)) return fmt("DartPointIter of dart %d reversed at point %zu yields %s, expected %s", d, k, str(q).c_str(), str(w).c_str());
            DartPointIter i2(dd); for(size_t j = 0; j < k; ++j) ++i2;
            i2.reverse(); i2.reverse(); q.clear(); for(; i2.inRange() && q.size() < 100; ++i2) q.push_back(P(*i2));
            if(!(q == Poly(p.begin() + k, p.end()))) return fmt("DartPointIter of dart %d reversed twice at point %zu yields %s", d, k, str(q).c_str()); }
        // contour from this dart
        Poly c; int x = d; do { Poly y = m.dartPts(x); c.insert(c.end(), y.begin() + 1, y.end()); x = m.phi.at(x); } while(x != d);
        q.clear(); for(ContourPointIter it(dd); it.inRange(); ++it) { q.push_back(P(*it)); if(q.size() > 1000) break; }
        if(!(q == c)) return fmt("ContourPointIter of dart %d yields %s, expected %s", d, str(q).c_str(), str(c).c_str());
        c.insert(c.begin(), p[0]);
        q.clear(); for(ContourPointIter it(dd, true); it.inRange(); it++) { q.push_back(P(*it)); if(q.size() > 1000) break; }
        if(!(q == c)) return fmt("ContourPointIter (first twice) of dart %d yields %s, expected %s", d, str(q).c_str(), str(c).c_str());
        // orbits
        int n = 0; GeoMap::Dart y = dd; do { y.nextPhi(); ++n; } while(y != dd && n < 1000);
        if(n != (int)m.orbits[m.orbitOf.at(d)].size()) return fmt("phi orbit of dart %d has length %d", d, n);
        n = 0; y = dd; do { y.nextSigma(); ++n; } while(y != dd && n < 1000);
        if(n != (int)m.degree(m.startNode(d))) return fmt("sigma orbit of dart %d has length %d", d, n);
        // arc length: every pair of positions, forwards and backwards
        double L = ref::length(p); std::vector<double> ls = {0, L * 0.999}; double acc = 0;
        for(size_t i = 1; i < p.size(); ++i) { double dl = ref::dist(p[i], p[i-1]); ls.push_back(acc + dl * 0.5); ls.push_back(acc + dl * 0.125); acc += dl; }
        ls.push_back(L + 1);     // behind the end: must fail, and leave the position usable
        std::vector<double> more = ls; more.push_back(-1);
        for(double a : more) for(double b : ls) {
            vf::count("arc_walks");
            DartPosition pos(dd);
            bool ra = pos.gotoArcLength(a), wa = a >= 0 && a < L;
            if(ra != wa) return fmt("dart %d of length %g: gotoArcLength(%g) returned %d", d, L, a, (int)ra);
            if(wa && (!near(pos.arcLength(), a) || ref::dist(P(pos()), atLength(p, a)) > 1e-9)) return fmt("dart %d: gotoArcLength(%g) reached (%g,%g) at %g", d, a, pos()[0], pos()[1], pos.arcLength());
            if(a > L && ref::dist(P(pos()), p.back()) > 1e-9) return fmt("dart %d: gotoArcLength(%g) behind the end stops at (%g,%g)", d, a, pos()[0], pos()[1]);
            bool rb = pos.gotoArcLength(b), wb = b >= 0 && b < L;
            if(rb != wb) return fmt("dart %d of length %g: gotoArcLength(%g), then gotoArcLength(%g) returned %d", d, L, a, b, (int)rb);
            if(wb && (!near(pos.arcLength(), b) || ref::dist(P(pos()), atLength(p, b)) > 1e-9)) return fmt("dart %d: gotoArcLength(%g), then gotoArcLength(%g) reached (%g,%g) at %g", d, a, b, pos()[0], pos()[1], pos.arcLength());
        }
        // segment-wise: forwards over all segments and back again
        DartPosition pos(dd); double al = 0;
        for(size_t i = 0; i + 2 < p.size(); ++i) {
            if(pos.segmentIndex() != i || P(pos.segmentStart()) != p[i] || P(pos.segmentEnd()) != p[i+1] || P(pos()) != p[i] || !near(pos.arcLength(), al)) return fmt("dart %d: wrong segment after %zu steps", d, i);
            al += ref::dist(p[i], p[i+1]);
            if(!pos.gotoNextSegment()) return fmt("dart %d: gotoNextSegment() failed at segment %zu of %zu", d, i, p.size() - 1); }
        for(size_t i = p.size() - 2; i > 0; --i) {
            if(!pos.gotoPrevSegment()) return fmt("dart %d: gotoPrevSegment() failed at segment %zu", d, i);
            al -= ref::dist(p[i], p[i-1]);
            if(pos.segmentIndex() != i - 1 || P(pos.segmentStart()) != p[i-1] || P(pos.segmentEnd()) != p[i] || P(pos()) != p[i-1] || !near(pos.arcLength(), al)) return fmt("dart %d: wrong segment after going back to %zu", d, i - 1); }
        if(pos.gotoPrevSegment()) return fmt("dart %d: gotoPrevSegment() at the start succeeded", d);
    }
    return ""; }
// pixels of a subrange of an image fulfilling a predicate
struct IsOne { bool operator()(int v) const { return v == 1; } };
static void imageFilter(int w, int h) {
    typedef vigra::ImageFilterIterator<IsOne, vigra::IImage::traverser> FI;
    for(uint64_t bits = 0; bits < (1ull << (w * h)); ++bits) {
        if(!vf::mine(fmt("imageFilter/%dx%d/%llx", w, h, (unsigned long long)bits))) continue;
        vigra::IImage img(w + 2, h + 2); img = 1;       // a frame of matching pixels outside of the range
        std::vector<int> want, have, have2; vf::count("states"); vf::count("traces");
        for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x) { int k = y * w + x; img(x + 1, y + 1) = bits >> k & 1; if(bits >> k & 1) want.push_back(k); }
        vigra::IImage::traverser ul = img.upperLeft() + vigra::Diff2D(1, 1), lr = img.lowerRight() - vigra::Diff2D(1, 1);
        auto idx = [&](int *p) { long o = p - &img(1, 1); return (int)(o / (w + 2) * w + o % (w + 2)); };
        for(FI it(ul, lr); it.inRange() && have.size() < 100; ++it) { vf::count("transitions"); have.push_back(idx(&*it)); if(*it != 1) vf::viol("image-filter", "visits a pixel that does not fulfil the predicate"); }
        for(FI it(vigra::triple<vigra::IImage::traverser, vigra::IImage::traverser, vigra::IImage::Accessor>(ul, lr, img.accessor())), e(lr, lr); it != e && have2.size() < 100; it++) have2.push_back(idx(&*it));
        if(have != want || have2 != want) vf::viol("image-filter", fmt("image %dx%d, pixels %llx: visits %zu/%zu pixels, expected %zu", w, h, (unsigned long long)bits, have.size(), have2.size(), want.size())); } }
static void P23() {
    bool th = vf::thorough(), san = vf::san();
    for(int w = 1; w <= 4; ++w) for(int h = 1; h <= 4; ++h) if(w * h <= (th ? 12 : 9)) imageFilter(w, h);
    for(auto &s : SC) {
        uint64_t all = (1ull << s.edges.size()) - 1;
        for(int v = 0; v < 2; ++v) {
            Case c; c.scene = &s; c.mask = all; c.allNodes = v; c.dirs = v ? 0x5555 & all : 0; Opts o; o.depth = san ? 1 : th ? 4 : 3; o.al.bothDarts = th; o.al.splitInsert = th;
            explore(c, o, [](GeoMap &g, RMap &m, const Case &) { return traversals(g, m); }, [](Trans &t) { return traversals(t.g, t.after); }, v ? "/allNodes" : "");
        }
        if(!san || th) for(uint64_t m = 1; m < all; ++m) { Case c; c.scene = &s; c.mask = m; Opts o; o.depth = th ? 2 : 1;
            explore(c, o, [](GeoMap &g, RMap &m, const Case &) { return traversals(g, m); }, [](Trans &t) { return traversals(t.g, t.after); }); }
        // removal of visited cells during the iteration, every subset of cells
        for(uint64_t rm = 0; rm <= all; ++rm) for(int kind = 0; kind < 3; ++kind) {
            if(!vf::mine(fmt("%s/removeWhileIterating%d/%llx", s.name.c_str(), kind, (unsigned long long)rm))) continue;
            vf::count("states"); vf::count("traces");
            Case c; c.scene = &s; c.mask = all; c.allNodes = true; RMap m; modelOf(c, m); MapPtr g = buildMap(c, m);
            std::string e = adoptLabels(*g, m); if(!e.empty()) { vf::viol("init", e); continue; }
            std::vector<unsigned> seen, want;
            if(kind == 0) {        // edges: remove those in rm
                for(auto &k : m.edges) want.push_back(k.first);
                for(GeoMap::EdgeIterator it = g->edgesBegin(); it.inRange(); ++it) { unsigned l = (*it)->label(); seen.push_back(l); if(rm >> (l - 1) & 1) { vf::count("transitions"); g->removeEdge((*it)->dart()); if(g->edge(l)) e = fmt("edge %u not removed", l); } }
            } else if(kind == 1) { // nodes: remove edges first, then isolated nodes while iterating; nodes not in rm stay
                for(auto &k : m.nodes) want.push_back(k.first);
                for(GeoMap::NodeIterator it = g->nodesBegin(); it.inRange(); ++it) { unsigned l = (*it)->label(); seen.push_back(l);
                    GeoMap::Node &n = **it;
                    if(rm >> l & 1) { if(n.isIsolated()) { vf::count("transitions"); g->removeIsolatedNode(n); if(g->node(l)) e = fmt("node %u not removed", l); }
                        else if(n.hasDegree(2)) { GeoMap::Dart d = n.anchor(); if(!d.edge()->isLoop()) { vf::count("transitions"); g->mergeEdges(d); if(g->node(l)) e = fmt("node %u not removed", l); } } } }
            } else {               // faces: merge each face in rm into a neighbour; faces vanish when merged
                std::set<unsigned> alive; for(auto &r : m.regions) alive.insert(r.label);
                GeoMap::FaceIterator it = g->finiteFacesBegin();
                for(; it.inRange(); ++it) {
                    unsigned l = (*it)->label(); seen.push_back(l); if(seen.size() > 100) break;
                    if(!(rm >> l & 1)) continue;
                    GeoMap::Dart d = *(*it)->contoursBegin(), d0 = d; bool found = false;
                    do { if(d.leftFaceLabel() != d.rightFaceLabel()) { found = true; break; } d.nextPhi(); } while(d != d0);
                    if(found) { vf::count("transitions"); g->mergeFaces(d); } }
                // oracle: replay without iterator, by label
                RMap m2; modelOf(c, m2); MapPtr h = buildMap(c, m2);
                for(unsigned l = 1; l < h->maxFaceLabel(); ++l) if(h->face(l)) { want.push_back(l); if(rm >> l & 1) {
                    GeoMap::Dart d = *h->face(l)->contoursBegin(), d0 = d; bool found = false;
                    do { if(d.leftFaceLabel() != d.rightFaceLabel()) { found = true; break; } d.nextPhi(); } while(d != d0);
                    if(found) h->mergeFaces(d); } }
            }
            if(e.empty() && seen != want) { e = "visited:"; for(unsigned x : seen) e += fmt(" %u", x); e += ", expected:"; for(unsigned x : want) e += fmt(" %u", x); }
            if(!e.empty()) vf::viol("remove-while-iterating", e);
        }
    }
}
int main(int argc, char **argv) {
    vf::init(argc, argv);
    SC = {scn::chain(), scn::nest(), scn::loops(), scn::theta(), scn::border(), scn::rings(), scn::twins()};
    GRID = scn::grid(3, 3, 1.25, 3, false, "g3");
    std::string p = vf::ctx().prop;
    if(p == "P07") P07(); else if(p == "P10") P10(); else if(p == "P23") P23();
    return vf::finish();
}
