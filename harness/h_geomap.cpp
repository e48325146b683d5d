// Operation histories of a GeoMap against the reference model: P01-P06, P08, P18.
#include "explore.hpp"
using namespace gm;
using scn::Scene;

static std::vector<Scene> SC;      // small scenes (at most 8 edges)
static std::vector<Scene> BIG;     // 12-edge grid
static std::vector<Scene> LARGE;   // about 60 edges

struct Plan {
    int depthSubsets = 2;          // all subsets of all small scenes
    bool altDirs = true;           // ... with a second direction pattern
    int depthFull = 3;             // complete small scenes, whole alphabet
    int splitsUnbounded = 0;       // complete small scenes, all histories with at most so many splits (-1: skip)
    int depthGrid = 1;             // all subsets of the grid (0: only construction, -1: skip)
    std::vector<std::vector<int>> touch = {{0}};        // query patterns for subsets and unbounded histories
    std::vector<std::vector<int>> touchFull = {{0}};    // query patterns for complete scenes
    int depthLabels = -1;          // complete small scenes whose labels have been used up to about 50, 100 by splits and merges
    Alphabet al; bool flags = false;
    int strides = vf::san() ? 1 : vf::thorough() ? 24 : 4;       // long histories of large maps
};
static void runPlan(const Plan &p, InitCheck ic, Check ck) {
    auto go = [&](const Scene &s, uint64_t mask, uint64_t dirs, Opts o, const char *tag) {
        Case c; c.scene = &s; c.mask = mask; c.dirs = dirs; o.flags = p.flags; explore(c, o, ic, ck, tag); };
    for(auto &s : SC) {
        uint64_t all = (1ull << s.edges.size()) - 1, alt = 0x5555555555ull & all;
        if(p.depthSubsets >= 0) for(uint64_t m = 1; m <= all; ++m) for(auto &t : p.touch) {
            Opts o; o.depth = p.depthSubsets; o.al = p.al; o.touch = t;
            go(s, m, 0, o, "");
            if(p.altDirs && (alt & m)) go(s, m, alt & m, o, ""); }
        if(p.depthFull >= 0) for(auto &t : p.touchFull) for(uint64_t d : {(uint64_t)0, alt}) {
            Opts o; o.depth = p.depthFull; o.al = p.al; o.touch = t; go(s, all, d, o, "/full"); }
        if(p.depthLabels >= 0) for(int next : {49, 50, 51, 52, 100, 101, 102}) {
            Opts o; o.depth = next > 60 ? std::min(1, p.depthLabels) : p.depthLabels; o.al = p.al; o.cycles = next - 1 - (int)s.edges.size(); go(s, all, alt, o, "/labels"); }
        if(p.splitsUnbounded >= 0) for(auto &t : p.touch) for(uint64_t d : {(uint64_t)0, alt}) {
            Opts o; o.depth = 1000; o.al = p.al; o.al.move = false; o.splits = p.splitsUnbounded; o.touch = t; go(s, all, d, o, "/unb"); }
    }
    for(auto &s : BIG) {
        uint64_t all = (1ull << s.edges.size()) - 1, alt = 0x5555555555ull & all;
        if(p.depthGrid >= 0) for(uint64_t m = 1; m <= all; ++m) for(auto &t : p.touch) {
            Opts o; o.depth = p.depthGrid; o.al = p.al; o.touch = t; go(s, m, alt & m, o, ""); }
    }
    // long histories of large maps: few splits (each stride up to the given limit selects other operations)
    if(p.strides) for(auto &s : LARGE) for(int st = 1; st <= p.strides; ++st) for(int small = 0; small < 2; ++small) for(auto &t : p.touch) {
        Case c; c.scene = &s; c.mask = ~0ull; c.dirs = st % 2 ? 0 : 0x5555555555555555ull; Opts o; o.al = p.al; o.al.splitInsert = false; o.flags = p.flags; o.touch = t;
        if(!small) o.al.split = false;
        schedule(c, o, st - 1, 2 * st - 1, (small ? 40 : 200) / (vf::san() && !vf::thorough() ? 4 : 1), ic, ck); }
}
static Plan plan(const std::string &p) {
    Plan q; bool th = vf::thorough(), san = vf::san();
    if(san) { q.depthSubsets = 1; q.depthFull = 2; q.splitsUnbounded = 0; q.depthGrid = th ? 1 : -1; q.altDirs = th; }
    else if(th) { q.depthSubsets = 2; q.depthFull = 4; q.splitsUnbounded = 1; q.depthGrid = 2; }
    return q; }

// ---------------------------------------------------------------- P01
static void P01() {
    Plan q = plan("P01"); q.depthLabels = vf::thorough() ? 3 : vf::san() ? 1 : 2;
    runPlan(q, [](GeoMap &g, RMap &m, const Case &) { return cmpTopology(g, m); }, [](Trans &t) { return cmpTopology(t.g, t.after); });
    // with coordinates that are small, rotated, far from the origin: rounding errors everywhere
    for(auto &x : xforms()) { UseXf use(&x);
        for(auto &s : SC) for(uint64_t all = (1ull << s.edges.size()) - 1, m = vf::thorough() ? 1 : all; m <= all; ++m) for(uint64_t d : {(uint64_t)0, (uint64_t)0x5555555555 & m}) {
            Case c; c.scene = &s; c.mask = m; c.dirs = d; Opts o; o.depth = vf::san() ? 1 : m == all && vf::thorough() ? 3 : 2;
            explore(c, o, [](GeoMap &g, RMap &m, const Case &) { return cmpTopology(g, m); }, [](Trans &t) { return cmpTopology(t.g, t.after); }); } }
}
// ---------------------------------------------------------------- P02
struct Reject { Op op; int what; };   // what: 0 ordinary call, 1 call on removed dart
static std::string rejections(Trans &t) {
    // every inapplicable call in the state after the transition must be rejected and change nothing
    RMap &m = t.after; GeoMap &g = t.g;
    std::vector<Op> bad;
    for(auto &k : m.edges) {
        int e = k.first; bool br = m.isBridge(e);
        for(int d : {e, -e}) {
            bad.push_back(Op{br ? MERGE_FACES : REMOVE_BRIDGE, d, 0, P2{0, 0}});
            if(!(m.degree(m.startNode(d)) == 2 && k.second.s != k.second.e)) bad.push_back(Op{MERGE_EDGES, d, 0, P2{0, 0}});
        }
        for(int x : {0, 1}) {
            bad.push_back(Op{SPLIT, e, (int)k.second.pts.size() - 1 + x, P2{0, 0}});
            bad.push_back(Op{SPLIT_INS, e, (int)k.second.pts.size() - 1 + x, k.second.pts.back()}); }
    }
    for(unsigned e = 1; e < g.maxEdgeLabel(); ++e) if(!m.edges.count(e))
        for(int d : {(int)e, -(int)e}) for(OpType ty : {REMOVE_BRIDGE, MERGE_FACES, MERGE_EDGES}) bad.push_back(Op{ty, d, 0, P2{0, 0}});
    for(auto &o : bad) {
        vf::count("rejected_calls");
        Result r = applyImpl(g, o);
        if(r.status == Result::OK) return "inapplicable operation " + str(o) + " was performed";
        if(r.status == Result::NOTHING) return "inapplicable operation " + str(o) + " was not rejected with an error";
        std::string e = cmpCells(g, m); if(!e.empty()) return "rejected " + str(o) + " changed the map: " + e;
    }
    std::string e = cmpTopology(g, m); if(!e.empty()) return "after rejected operations: " + e;
    e = cmpPixels(g, m, t.c.scene->W, t.c.scene->H, false); if(!e.empty()) return "after rejected operations: " + e;
    return ""; }
static void P02() {
    Plan q = plan("P02"); q.flags = true; if(!vf::thorough()) { q.depthFull = 2; q.depthGrid = vf::san() ? -1 : 0; if(vf::san()) q.depthSubsets = -1; }
    runPlan(q, [](GeoMap &g, RMap &m, const Case &) { return cmpCells(g, m); },
        [](Trans &t) { std::string e = cmpCells(t.g, t.after); if(e.empty()) e = cmpTopology(t.g, t.after, false); if(e.empty()) e = rejections(t); return e; });
}
// ---------------------------------------------------------------- P03
static void P03() {
    Plan q = plan("P03"); q.al.toggle = true; q.al.move = true; q.al.bothDarts = vf::thorough();
    if(!vf::thorough()) { q.depthGrid = vf::san() ? -1 : 1; if(!vf::san()) q.depthFull = 2; }
    runPlan(q, [](GeoMap &g, RMap &m, const Case &c) { std::string e = cmpPixels(g, m, c.scene->W, c.scene->H); return e.empty() ? cmpDraw(g, m, c.scene->W, c.scene->H) : e; },
        [](Trans &t) { std::string e = cmpPixels(t.g, t.after, t.c.scene->W, t.c.scene->H, t.op.t != SPLIT_INS); return e.empty() && t.op.t != SPLIT_INS ? cmpDraw(t.g, t.after, t.c.scene->W, t.c.scene->H) : e; });
    // without label image
    for(auto &s : SC) for(uint64_t m = 1; m < (1ull << s.edges.size()); ++m) {
        Case c; c.scene = &s; c.mask = m; c.labelImage = false; Opts o; o.depth = vf::thorough() ? 2 : 1; o.al.toggle = true; o.al.move = true;
        explore(c, o, [](GeoMap &g, RMap &m, const Case &c) { std::string e = cmpPixels(g, m, c.scene->W, c.scene->H); return e.empty() ? cmpDraw(g, m, c.scene->W, c.scene->H) : e; },
            [](Trans &t) { std::string e = cmpPixels(t.g, t.after, t.c.scene->W, t.c.scene->H); return e.empty() ? cmpDraw(t.g, t.after, t.c.scene->W, t.c.scene->H) : e; }, "/noLI"); }
}
// ---------------------------------------------------------------- P04
static void P04() {
    Plan q = plan("P04"); q.al.toggle = true; q.al.move = true; q.al.bothDarts = vf::thorough();
    q.touch = {{0}, {1}};
    std::vector<std::vector<int>> tf;
    for(int a = 0; a < 4; ++a) for(int b = 0; b < 4; ++b) tf.push_back({a, b});
    q.touchFull = tf;
    q.depthFull = 2; q.depthSubsets = vf::thorough() ? 2 : 1; q.depthGrid = vf::thorough() ? 1 : 0; q.altDirs = vf::thorough();
    if(vf::san()) { q.touchFull = {{1}}; q.depthSubsets = 1; q.depthGrid = -1; }
    auto ic = [](GeoMap &g, RMap &m, const Case &c) { return cmpGeometry(g, m, c.scene->W, c.scene->H); };
    auto ck = [](Trans &t) { return cmpGeometry(t.g, t.after, t.c.scene->W, t.c.scene->H); };
    runPlan(q, ic, ck);
    for(auto &s : SC) for(uint64_t m : {(uint64_t)1 << 20}) {        // without label image
        (void)m; for(auto &t : q.touchFull) { Case c; c.scene = &s; c.mask = (1ull << s.edges.size()) - 1; c.labelImage = false; Opts o; o.depth = 2; o.al = q.al; o.touch = t; explore(c, o, ic, ck, "/noLI"); } }
}
// ---------------------------------------------------------------- P05
struct Log {
    GeoMap *g = nullptr; std::vector<std::string> ev; std::string err;
    std::vector<std::pair<int, int>> px; long pxFace = -1;
    std::vector<boost::signals2::connection> con;
    void add(const std::string &s) { ev.push_back(s); } };
static const int NCB = 3;
// veto: index of the refusing pre callback (NCB: none); vetoNode: refuse node removals
static void attach(Log &L, GeoMap &g, int veto, bool vetoNode) {
    L.g = &g; Log *l = &L;
    for(int i = 0; i < NCB; ++i) {
        bool ok = i != veto;
        L.con.push_back(g.preRemoveBridgeHook.connect([l, i, ok](const GeoMap::Dart &d) { l->add(fmt("pre%d removeBridge %d live%d", i, (int)d.edgeLabel(), (int)(bool)d.edge())); return ok; }));
        L.con.push_back(g.preMergeFacesHook.connect([l, i, ok](const GeoMap::Dart &d) { l->add(fmt("pre%d mergeFaces %d live%d", i, (int)d.edgeLabel(), (int)(bool)d.edge())); return ok; }));
        L.con.push_back(g.preMergeEdgesHook.connect([l, i, ok](const GeoMap::Dart &d) { l->add(fmt("pre%d mergeEdges node%d live%d", i, (int)d.startNodeLabel(), (int)(bool)d.edge())); return ok; }));
        L.con.push_back(g.preSplitEdgeHook.connect([l, i](GeoMap::Edge &e, unsigned s, const Vector2 &p, bool ins) { l->add(fmt("pre%d split %u %u %d%s", i, e.label(), s, (int)ins, ins ? fmt(" %g,%g", p[0], p[1]).c_str() : "")); }));
    }
    L.con.push_back(g.removeNodeHook.connect([l, vetoNode](GeoMap::Node &n) { l->add(fmt("removeNode %u", n.label())); return !vetoNode; }));
    L.con.push_back(g.postRemoveBridgeHook.connect([l](GeoMap::Face &f) { l->add(fmt("post removeBridge %u edges%u", f.label(), l->g->edgeCount())); }));
    L.con.push_back(g.postMergeFacesHook.connect([l](GeoMap::Face &f) { l->add(fmt("post mergeFaces %u edges%u faces%u", f.label(), l->g->edgeCount(), l->g->faceCount())); }));
    L.con.push_back(g.postMergeEdgesHook.connect([l](GeoMap::Edge &e) { l->add(fmt("post mergeEdges %u edges%u nodes%u", e.label(), l->g->edgeCount(), l->g->nodeCount())); }));
    L.con.push_back(g.postSplitEdgeHook.connect([l](GeoMap::Edge &e, GeoMap::Edge &f) { l->add(fmt("post split %u %u edges%u nodes%u", e.label(), f.label(), l->g->edgeCount(), l->g->nodeCount())); }));
    L.con.push_back(g.associatePixelsHook.connect([l](const GeoMap::Face &f, const PixelList &p) {
        l->pxFace = f.label(); for(size_t i = 0; i < p.size(); ++i) l->px.push_back({p[i].x, p[i].y}); }));
}
static std::vector<int> labels(GeoMap &g, int W, int H) {
    std::vector<int> r; if(!g.hasLabelImage()) return r;
    GeoMap::LabelImageAccessor acc = g.labelAccessor(); GeoMap::LabelImageIterator ul = g.labelsUpperLeft();
    for(int y = 0; y < H; ++y) for(int x = 0; x < W; ++x) r.push_back(acc(ul, vigra::Diff2D(x, y)));
    return r; }
static std::string hooksCheck(Trans &t) {
    const RMap &b = t.before; RMap &a = t.after; int W = t.c.scene->W, H = t.c.scene->H;
    if(t.op.t == TOGGLE_LI) return "";
    bool vetoable = t.op.t != SPLIT && t.op.t != SPLIT_INS;
    int npre = t.op.t == REMOVE_NODE ? 0 : NCB;
    // nodes expected to vanish
    std::vector<unsigned> gone; for(auto &n : b.nodes) if(!a.nodes.count(n.first)) gone.push_back(n.first);
    for(int veto = vetoable && npre ? 0 : NCB; veto <= NCB; ++veto) for(int vn = 0; vn < 2; ++vn) {
        if(vn && (veto < NCB || gone.empty())) continue;
        vf::count("hook_runs");
        MapPtr g = replay(t.c, t.m0, t.hist, t.opts);
        Log L; attach(L, *g, veto, vn);
        std::vector<int> lb = labels(*g, W, H), ab = anchors(*g);
        Result r = applyImpl(*g, t.op);
        std::vector<int> la = labels(*g, W, H);
        std::string sc = fmt("[veto %d%s] ", veto, vn ? ", node removal refused" : "");
        // expected log
        std::vector<std::string> want; std::string name = str(t.op).substr(0, str(t.op).find('('));
        int nn = std::min(veto + 1, npre);
        for(int i = 0; i < nn; ++i) {
            if(t.op.t == REMOVE_BRIDGE || t.op.t == MERGE_FACES) want.push_back(fmt("pre%d %s %d live1", i, name.c_str(), std::abs(t.op.a)));
            if(t.op.t == MERGE_EDGES) want.push_back(fmt("pre%d mergeEdges node%d live1", i, (int)b.startNode(t.op.a)));
            if(t.op.t == SPLIT) want.push_back(fmt("pre%d split %d %d 0", i, t.op.a, t.op.b));
            if(t.op.t == SPLIT_INS) want.push_back(fmt("pre%d split %d %d 1 %g,%g", i, t.op.a, t.op.b, t.op.p.x, t.op.p.y));
        }
        bool vetoed = veto < NCB && npre, keepNodes = vn;
        bool cancelled = vetoed || (vn && (t.op.t == MERGE_EDGES || t.op.t == REMOVE_NODE));
        RMap ex = cancelled ? b : a;
        if(!vetoed) for(unsigned n : gone) want.push_back(fmt("removeNode %u", n));
        if(!cancelled) {
            if(keepNodes) { for(unsigned n : gone) ex.nodes[n] = b.nodes.at(n); ex.derive(); }
            unsigned nE = ex.edges.size(), nN = ex.nodes.size(), nF = ex.regions.size();
            switch(t.op.t) {
              case REMOVE_BRIDGE: want.push_back(fmt("post removeBridge %ld edges%u", t.res.label, nE)); break;
              case MERGE_FACES: want.push_back(fmt("post mergeFaces %ld edges%u faces%u", t.res.label, nE, nF)); break;
              case MERGE_EDGES: want.push_back(fmt("post mergeEdges %ld edges%u nodes%u", t.res.label, nE, nN)); break;
              case SPLIT: case SPLIT_INS: want.push_back(fmt("post split %d %ld edges%u nodes%u", t.op.a, t.res.label, nE, nN)); break;
              default: break; }
        }
        // the two node removals of a bridge may come in either order
        std::vector<std::string> have = L.ev;
        auto sortNodes = [](std::vector<std::string> &v) { auto isN = [](const std::string &s) { return s.compare(0, 10, "removeNode") == 0; };
            for(size_t i = 0; i < v.size(); ++i) { size_t j = i; while(j < v.size() && isN(v[j])) ++j; if(j > i) { std::sort(v.begin() + i, v.begin() + j); i = j; } } };
        sortNodes(have); sortNodes(want);
        if(have != want) { std::string s = sc + "callbacks:"; for(auto &x : have) s += " <" + x + ">"; s += ", expected:"; for(auto &x : want) s += " <" + x + ">"; return s; }
        if(cancelled && r.status != Result::NOTHING) return sc + "refused operation did not return nothing " + r.what;
        if(!cancelled && (r.status != Result::OK || r.label != t.res.label)) return sc + fmt("operation returned %ld instead of %ld", r.label, t.res.label);
        std::string e = cmpCells(*g, ex); if(e.empty()) e = cmpTopology(*g, ex, false);
        if(e.empty()) e = cmpPixels(*g, ex, W, H, false);
        if(!e.empty()) return sc + (cancelled ? "refused operation changed the map: " : "") + e;
        // pixels: exactly those that were edge pixels and are face pixels now
        std::vector<std::pair<int, int>> px;
        for(size_t i = 0; i < lb.size(); ++i) if(lb[i] < 0 && la[i] >= 0) px.push_back({(int)i % W, (int)i / W});
        std::sort(L.px.begin(), L.px.end()); std::sort(px.begin(), px.end());
        if(L.px != px) return sc + fmt("%zu pixels were reported, %zu pixels joined the face", L.px.size(), px.size());
        if(px.size() && L.pxFace != t.res.label) return sc + fmt("pixels reported to face %ld, expected %ld", L.pxFace, t.res.label);
        if(cancelled && lb != la) return sc + "refused operation changed the label image";
        if(cancelled && anchors(*g) != ab) return sc + "refused operation changed the anchors of contours or nodes";
    }
    // disconnected callbacks are not called any more
    { MapPtr g = replay(t.c, t.m0, t.hist, t.opts); Log L; attach(L, *g, 0, true); for(auto &c : L.con) c.disconnect();
      Result r = applyImpl(*g, t.op); if(!L.ev.empty() || r.status != Result::OK) return "disconnected callback still has an effect"; }
    return ""; }
static void P05() {
    Plan q = plan("P05"); q.flags = true;
    if(!vf::thorough()) { q.depthSubsets = 1; q.depthFull = 2; q.depthGrid = vf::san() ? -1 : 0; q.altDirs = false; if(vf::san()) q.depthFull = 1; }
    else { q.depthSubsets = vf::san() ? 1 : 2; q.depthFull = 3; q.depthGrid = 1; }
    runPlan(q, nullptr, hooksCheck);
}
// ---------------------------------------------------------------- P06
static std::string everything(GeoMap &g, const RMap &m, const Case &c) {
    std::string e = cmpCells(g, m); if(e.empty()) e = cmpTopology(g, m);
    if(e.empty()) e = cmpPixels(g, m, c.scene->W, c.scene->H); if(e.empty()) e = cmpGeometry(g, m, c.scene->W, c.scene->H); return e; }
static std::string nearestCheck(GeoMap &g, const RMap &m) {
    for(auto &n : m.nodes) { GeoMap::NodePtr p = g.nearestNode(V(n.second)); if(!p || P(p->position()) != n.second) return fmt("nearestNode at node %u wrong", n.first);
        if(g.node(p->label()).get() != &*p) return fmt("nearestNode at node %u returns a node that does not belong to the map", n.first); }
    return ""; }
static std::string copyCheck(Trans &t) {
    std::string e; int W = t.c.scene->W, H = t.c.scene->H;
    auto cheap = [&](GeoMap &g, const RMap &m) { std::string e = cmpCells(g, m); if(e.empty()) e = cmpTopology(g, m, false); if(e.empty()) e = cmpPixels(g, m, W, H, false); if(e.empty()) e = nearestCheck(g, m); return e; };
    auto maxima = [](GeoMap &a, GeoMap &b) { return a.maxNodeLabel() == b.maxNodeLabel() && a.maxEdgeLabel() == b.maxEdgeLabel() && a.maxFaceLabel() == b.maxFaceLabel() && a.imageSize() == b.imageSize() && a.edgesSorted() == b.edgesSorted() && a.mapInitialized() == b.mapInitialized() && a.hasLabelImage() == b.hasLabelImage(); };
    { MapPtr g = replay(t.c, t.m0, t.hist, t.opts);
      MapPtr c(new GeoMap(*g));
      if(!maxima(*g, *c)) return "copy differs in maximal labels, size or state";
      for(auto &f : t.before.regions) if(c->face(f.label)->flags() != g->face(f.label)->flags()) return fmt("copy: face %u has flags %x instead of %x", f.label, c->face(f.label)->flags(), g->face(f.label)->flags());
      if(t.op.t == TOGGLE_LI || t.hist.empty()) { e = everything(*c, t.before, t.c); if(!e.empty()) return "copy: " + e; }
      Result r = applyImpl(*c, t.op);                        // operation on the copy
      if(r.status != t.res.status || r.label != t.res.label) return fmt("operation on the copy returned %ld (%d), on the original %ld (%d) %s", r.label, (int)r.status, t.res.label, (int)t.res.status, r.what.c_str());
      e = cheap(*c, t.after); if(!e.empty()) return "operation on a copy: " + e;
      e = cheap(*g, t.before); if(!e.empty()) return "original after operation on its copy: " + e;
      g.reset();                                               // original destroyed
      e = everything(*c, t.after, t.c); if(!e.empty()) return "copy after destruction of the original: " + e; }
    { MapPtr g = replay(t.c, t.m0, t.hist, t.opts);
      MapPtr c(new GeoMap(*g));
      Result r = applyImpl(*g, t.op);
      e = cheap(*c, t.before); if(!e.empty()) return "copy after operation on its original: " + e;
      c.reset();
      e = everything(*g, t.after, t.c); if(!e.empty()) return "original after destruction of its copy: " + e; }
    return ""; }
static void P06() {
    Plan q = plan("P06"); q.flags = true; q.al.toggle = true; q.al.bothDarts = false; q.touch = {{1}};
    if(!vf::thorough()) { q.depthSubsets = vf::san() ? -1 : 1; q.depthFull = vf::san() ? 1 : 2; q.depthGrid = -1; q.altDirs = false; q.splitsUnbounded = vf::san() ? -1 : 0; }
    else { q.depthSubsets = vf::san() ? 1 : 2; q.depthFull = vf::san() ? 2 : 3; q.depthGrid = 0; q.altDirs = false; }
    q.depthLabels = vf::thorough() ? 2 : 1;
    runPlan(q, nullptr, copyCheck);
}
// ---------------------------------------------------------------- P08
// split edge e (segment i, with or without inserted point) and merge again from either side
static std::string splitMerge(Trans &t) {
    if(t.op.t != SPLIT && t.op.t != SPLIT_INS) return "";
    std::string e = cmpCells(t.g, t.after); if(e.empty()) e = cmpTopology(t.g, t.after, false);
    if(e.empty()) e = cmpPixels(t.g, t.after, t.c.scene->W, t.c.scene->H, false);
    if(!e.empty()) return "split: " + e;
    // faces keep area, label and contour count
    for(int d : {(int)t.res.label, -t.op.a}) {
        vf::count("split_merge_pairs");
        MapPtr g = replay(t.c, t.m0, t.hist, t.opts);
        Result r1 = applyImpl(*g, t.op); touchAll(*g, t.opts.touchAt(t.hist.size() + 1));
        Op mo{MERGE_EDGES, d, 0, P2{0, 0}};
        Result r2 = applyImpl(*g, mo);
        RMap m2 = t.after; e = applyModel(m2, mo, r2); if(!e.empty()) return fmt("merging at dart %d: ", d) + e;
        e = everything(*g, m2, t.c); if(!e.empty()) return fmt("after merging at dart %d: ", d) + e;
        // the polyline of the original edge is restored (up to the inserted point and direction)
        Poly p = t.before.edges.at(t.op.a).pts; if(t.op.t == SPLIT_INS) p.insert(p.begin() + t.op.b + 1, t.op.p);
        Poly q = polyOf(*g->edge(r2.label));
        if(!(q == p) && !(q == ref::reversed(p))) return "split and merge: polyline not restored: " + str(q) + " instead of " + str(p);
        if(g->edge(r2.label)->flags() != t.before.edges.at(t.op.a).flags) return "split and merge: flags not restored";
        if(g->edgeCount() != t.before.edges.size() || g->nodeCount() != t.before.nodes.size() || g->faceCount() != t.before.regions.size()) return "split and merge: number of cells changed";
    }
    return ""; }
static std::string mergeCheck(Trans &t) {
    if(t.op.t == MERGE_EDGES) { std::string e = everything(t.g, t.after, t.c); if(!e.empty()) return e; }
    return splitMerge(t); }
static void P08() {
    Plan q = plan("P08"); q.flags = true; q.al.remove = false; q.al.removeNode = false;
    std::vector<std::vector<int>> tt = {{0}, {1}, {2}, {3}};
    q.touch = {{0}, {1}}; q.touchFull = tt; q.splitsUnbounded = vf::san() ? 0 : 1;
    q.depthSubsets = vf::thorough() ? 2 : 1; q.depthFull = vf::thorough() && !vf::san() ? 3 : 2; q.depthGrid = -1; q.altDirs = !vf::san();
    if(vf::san() && !vf::thorough()) { q.depthSubsets = -1; q.depthFull = 1; q.touchFull = {{0}, {1}, {2}}; }
    runPlan(q, nullptr, mergeCheck);
    // the chain scene in all direction patterns: every combination of directions meets at the nodes
    Scene &s = SC[0]; uint64_t all = (1ull << s.edges.size()) - 1;
    for(uint64_t d = 0; d <= all; ++d) for(auto &tp : tt) for(bool li : {true, false}) {
        Case c; c.scene = &s; c.mask = all; c.dirs = d; c.labelImage = li;
        Opts o; o.depth = vf::san() ? 1 : vf::thorough() ? 4 : 3; o.al = q.al; o.al.split = o.al.splitInsert = vf::thorough(); o.flags = true; o.touch = tp; if(vf::san() && !vf::thorough() && d != 0 && d != all && d != (0x5555 & all) && d != (0xaaaa & all)) continue;
        explore(c, o, nullptr, mergeCheck, "/dirs"); }
}
// ---------------------------------------------------------------- P18
static RMap renamed(const RMap &m, const std::vector<CellLabel> &nl) { RMap r = m; for(auto &d : r.dartLabel) d.second = nl[d.second]; r.derive(); return r; }
static std::string cmpRenamed(GeoMap &g, const RMap &m, const Case &c, bool full) {
    std::string e = cmpCells(g, m); if(e.empty()) e = cmpTopology(g, m); if(e.empty()) e = cmpPixels(g, m, c.scene->W, c.scene->H, full); if(e.empty() && full) e = cmpGeometry(g, m, c.scene->W, c.scene->H); return e; }
static std::string relabelCheckAt(const Case &c, const RMap &m0, const Opts &o, const std::vector<Op> &h, const RMap &cur) {
    MapPtr probe = replay(c, m0, h, o);
    unsigned max = probe->maxFaceLabel();
    std::vector<unsigned> live; for(unsigned l = 0; l < max; ++l) if(probe->face(l)) live.push_back(l);
    size_t n = live.size();
    if(max > 20) {      // large map: compact, reversed and shifted names only
        for(int k = 0; k < 3; ++k) {
            unsigned M = k == 0 ? n : k == 1 ? max : max + 1;
            std::vector<CellLabel> nl(max, 0);
            for(size_t i = 1; i < n; ++i) nl[live[i]] = k == 0 ? i : k == 1 ? max - live[i] : live[i] + 1;
            vf::count("relabelings");
            MapPtr g = replay(c, m0, h, o);
            g->changeFaceLabels(nl, M);
            if(g->maxFaceLabel() != M) return fmt("large relabel %d: maxFaceLabel() %u", k, g->maxFaceLabel());
            std::string e = cmpRenamed(*g, renamed(cur, nl), c, true); if(!e.empty()) return fmt("large relabel %d: ", k) + e; }
        return ""; }
    if(n > (vf::thorough() ? 5 : 4)) return "";
    // all injective assignments of the finite faces into 1..M-1
    for(unsigned M : {(unsigned)n, max, max + 1}) {
        if(M == max && n == max) continue;
        if(M > max && n > (vf::thorough() ? 4 : 3)) continue;
        std::vector<std::vector<CellLabel>> maps;
        std::vector<CellLabel> cur1(max, 0);
        std::function<void(size_t, std::set<unsigned>)> rec = [&](size_t i, std::set<unsigned> used) {
            if(i == n) { maps.push_back(cur1); return; }
            for(unsigned x = 1; x < M; ++x) if(!used.count(x)) { std::set<unsigned> u = used; u.insert(x); cur1[live[i]] = x; rec(i + 1, u); } };
        rec(1, {0});
        for(auto &nl : maps) {
            vf::count("relabelings");
            std::string s = "relabel"; for(unsigned l : live) s += fmt(" %u->%u", l, nl[l]); s += fmt(" max %u: ", M);
            MapPtr g = replay(c, m0, h, o);
            g->changeFaceLabels(nl, M);
            RMap m = renamed(cur, nl);
            if(g->maxFaceLabel() != M) return s + fmt("maxFaceLabel() %u", g->maxFaceLabel());
            std::string e = cmpRenamed(*g, m, c, true); if(!e.empty()) return s + e;
            // every operation afterwards
            Alphabet al; al.split = al.splitInsert = false; al.bothDarts = false; al.toggle = true;
            for(auto &op : enabled(m, al)) {
                vf::count("transitions");
                MapPtr g2 = replay(c, m0, h, o); g2->changeFaceLabels(nl, M);
                Result r = applyImpl(*g2, op); RMap m2 = m;
                e = applyModel(m2, op, r); if(e.empty()) e = cmpRenamed(*g2, m2, c, false);
                if(!e.empty()) return s + str(op) + ": " + e; }
        }
    }
    // invalid assignments
    std::vector<CellLabel> id(max); for(unsigned l = 0; l < max; ++l) id[l] = l;
    std::vector<std::pair<std::vector<CellLabel>, unsigned>> bad;
    { auto x = id; x.pop_back(); bad.push_back({x, max}); x = id; x.push_back(max); bad.push_back({x, max + 1}); bad.push_back({std::vector<CellLabel>(), max}); }
    for(unsigned a : live) {
        auto x = id; x[a] = max; bad.push_back({x, max}); x[a] = 1000000; bad.push_back({x, max});
        for(unsigned b : live) if(a != b) { auto y = id; y[a] = b; bad.push_back({y, max}); } }
    for(auto &b : bad) {
        vf::count("rejected_calls");
        std::string s = "invalid relabel"; for(auto l : b.first) s += fmt(" %u", l); s += fmt(" max %u: ", b.second);
        MapPtr g = replay(c, m0, h, o); bool thrown = false;
        try { g->changeFaceLabels(b.first, b.second); } catch(std::exception &) { thrown = true; }
        if(!thrown) return s + "accepted";
        std::string e = cmpRenamed(*g, cur, c, true); if(!e.empty()) return s + "rejected, but map changed: " + e; }
    return ""; }
static void P18() {
    Plan q = plan("P18"); q.flags = true; q.al.split = q.al.splitInsert = false; q.al.bothDarts = false; q.al.toggle = true; q.touch = {{1}}; q.touchFull = {{0}};
    q.depthSubsets = vf::san() ? -1 : vf::thorough() ? 1 : 0; q.depthFull = vf::san() ? 1 : 2; q.splitsUnbounded = -1; q.depthGrid = -1; q.altDirs = false; q.strides = vf::san() ? 0 : vf::thorough() ? 6 : 1;
    if(vf::thorough()) q.depthFull = vf::san() ? 2 : 5;
    Opts base; base.flags = true;
    runPlan(q, [=](GeoMap &g, RMap &m, const Case &c) { RMap m0; modelOf(c, m0); return relabelCheckAt(c, m0, base, {}, m); },
        [](Trans &t) { std::vector<Op> h = t.hist; h.push_back(t.op); return relabelCheckAt(t.c, t.m0, t.opts, h, t.after); });
}
int main(int argc, char **argv) {
    vf::init(argc, argv);
    SC = {scn::chain(), scn::nest(), scn::loops(), scn::theta(), scn::border(), scn::rings(), scn::twins()};
    BIG = {scn::grid(3, 3, 1.25, 3, false, "g3")};
    LARGE = {scn::mesh(), scn::dots()};
    std::string p = vf::ctx().prop;
    if(p == "P01") P01(); else if(p == "P02") P02(); else if(p == "P03") P03(); else if(p == "P04") P04(); else if(p == "P05") P05();
    else if(p == "P06") P06(); else if(p == "P08") P08(); else if(p == "P18") P18();
    return vf::finish();
}
