// Bulk simplification and edge protection (P09).
#include "explore.hpp"
#include "cppmap_utils.hxx"
using namespace gm;
using scn::Scene;
static std::vector<Scene> SC; static Scene GRID;

// the state the real map is in, read back through its public interface
static std::string readBack(GeoMap &g, const RMap &before, RMap &m) {
    m = RMap(); m.labelImage = before.labelImage;
    for(GeoMap::NodeIterator it = g.nodesBegin(); it.inRange(); ++it) m.nodes[(*it)->label()] = P((*it)->position());
    for(GeoMap::EdgeIterator it = g.edgesBegin(); it.inRange(); ++it) { REdge e; e.s = (*it)->startNodeLabel(); e.e = (*it)->endNodeLabel(); e.pts = polyOf(**it); e.flags = (*it)->flags(); m.edges[(*it)->label()] = e;
        if(e.pts.size() < 2 || !m.nodes.count(e.s) || !m.nodes.count(e.e)) return fmt("edge %u is incomplete", (*it)->label());
        if(e.pts.front() != m.nodes[e.s] || e.pts.back() != m.nodes[e.e]) return fmt("edge %u does not end at its nodes", (*it)->label()); }
    m.nextNode = g.maxNodeLabel(); m.nextEdge = g.maxEdgeLabel();
    std::string e = m.derive(); if(!e.empty()) return e;
    return adoptLabels(g, m); }
static Poly canon(const Poly &p) { Poly r = reversed(p); auto key = [](const Poly &q) { std::vector<double> v; for(auto &x : q) { v.push_back(x.x); v.push_back(x.y); } return v; }; return key(p) < key(r) ? p : r; }
static std::string polyKey(const Poly &p) { Poly c = canon(p); return str(c); }

struct Spec { std::set<unsigned> removed;              // edges to be removed
    bool isolated = false;                             // all isolated nodes are to be removed
    enum { NONE, ALL, SOME } merge = NONE; std::set<unsigned> mergeNodes;   // degree-2 nodes to be merged
    bool protection = false; };
// is `after` exactly `before` with spec applied?  count: number of operations that were necessary (excluding automatic node removals)
static std::string validate(const RMap &before, const RMap &after, const Spec &s, unsigned &count) {
    RMap m; m.nodes = before.nodes; m.edges = before.edges; count = s.removed.size();
    for(unsigned e : s.removed) m.edges.erase(e);
    m.derive();
    for(auto &n : before.nodes) { if(m.degree(n.first)) continue; if(before.degree(n.first)) m.nodes.erase(n.first); else if(s.isolated) { m.nodes.erase(n.first); ++count; } }
    for(auto &n : after.nodes) { auto it = m.nodes.find(n.first); if(it == m.nodes.end()) return fmt("node %u should have been removed", n.first); if(it->second != n.second) return fmt("node %u moved", n.first); }
    auto inCharge = [&](unsigned n) { return s.merge == Spec::ALL || (s.merge == Spec::SOME && s.mergeNodes.count(n)); };
    std::vector<unsigned> D;
    for(auto &n : m.nodes) if(!after.nodes.count(n.first)) {
        if(!inCharge(n.first)) return fmt("node %u disappeared", n.first);
        if(m.degree(n.first) != 2) return fmt("node %u of degree %u disappeared", n.first, m.degree(n.first));
        D.push_back(n.first); }
    count += D.size();
    // join at D
    std::map<unsigned, std::set<unsigned> > fl; for(auto &e : m.edges) fl[e.first].insert(e.second.flags);
    for(unsigned n : D) {
        std::vector<int> ds; for(auto &e : m.edges) { if(e.second.s == n) ds.push_back(e.first); if(e.second.e == n) ds.push_back(-(int)e.first); }
        if(ds.size() != 2) return fmt("node %u cannot be merged", n);
        unsigned a = std::abs(ds[0]), b = std::abs(ds[1]); if(a == b) return fmt("the only node %u of a loop disappeared", n);
        if(s.protection && fl[a] != fl[b]) return fmt("edges with different flags were joined at node %u", n);
        fl[a].insert(fl[b].begin(), fl[b].end()); m.doMergeEdges(n, a, b); }
    // maximality
    for(auto &n : m.nodes) if(inCharge(n.first) && m.degree(n.first) == 2) {
        int d1 = m.orbitAt[n.first][0], d2 = m.orbitAt[n.first][1]; unsigned a = std::abs(d1), b = std::abs(d2);
        if(a == b) continue; if(s.protection && fl[a] != fl[b]) continue;
        return fmt("degree-2 node %u was not removed", n.first); }
    std::map<std::string, unsigned> want; for(auto &e : m.edges) want[polyKey(e.second.pts)] = e.first;
    if(after.edges.size() != m.edges.size()) return fmt("%zu edges left, expected %zu", after.edges.size(), m.edges.size());
    for(auto &e : after.edges) { auto it = want.find(polyKey(e.second.pts)); if(it == want.end()) return fmt("unexpected edge %u: ", e.first) + str(e.second.pts);
        if(!fl[it->second].count(e.second.flags)) return fmt("edge %u has flags %x afterwards", e.first, e.second.flags); }
    return ""; }

struct BOp { enum { REMOVE_EDGES, BRIDGES, BRIDGE_LIST, ISOLATED, DEGREE2, COMPLETELY } t; uint64_t mask; int order; int dart; };
static std::string str(const BOp &o) { static const char *n[] = {"removeEdges", "removeBridges", "removeBridges(list)", "removeIsolatedNodes", "mergeDegree2Nodes", "mergeFacesCompletely"}; return fmt("%s(%llx,%d,%d)", n[o.t], (unsigned long long)o.mask, o.order, o.dart); }
static std::vector<CellLabel> pick(const RMap &m, uint64_t mask, int order) { std::vector<CellLabel> r; int i = 0; for(auto &e : m.edges) if(mask >> i++ & 1) r.push_back(e.first); if(order == 1) std::reverse(r.begin(), r.end()); if(order == 2 && r.size() > 1) std::rotate(r.begin(), r.begin() + r.size() / 2, r.end()); return r; }
// performs o on g and validates the outcome; m: state before, replaced by the state afterwards
static std::string step(GeoMap &g, RMap &m, const BOp &o, bool prot, const Scene &sc, bool pixels) {
    vf::count("transitions");
    Spec s; s.protection = prot; unsigned n = 0; bool counted = true; std::string e;
    auto isProt = [&](unsigned l) { return prot && (m.edges.at(l).flags & 0xff); };
    RMap before = m;
    GeoMap::FacePtr f; bool thrown = false; std::string what; int wantNull = 0; unsigned l1 = 0, l2 = 0;
    switch(o.t) {
      case BOp::REMOVE_EDGES: { std::vector<CellLabel> r = pick(m, o.mask, o.order); for(unsigned x : r) if(!isProt(x)) s.removed.insert(x); s.isolated = true; s.merge = Spec::ALL; n = removeEdges(g, r.begin(), r.end()); break; }
      case BOp::BRIDGES: for(auto &x : m.edges) if(m.isBridge(x.first) && !isProt(x.first)) s.removed.insert(x.first); n = removeBridges(g); break;
      case BOp::BRIDGE_LIST: { std::vector<CellLabel> r = pick(m, o.mask, o.order); std::list<CellLabel> l; for(unsigned x : r) if(m.isBridge(x)) { l.push_back(x); if(!isProt(x)) s.removed.insert(x); } n = removeBridges(g, l); if(!l.empty()) return "removeBridges() left labels in its list"; break; }
      case BOp::ISOLATED: s.isolated = true; n = removeIsolatedNodes(g); break;
      case BOp::DEGREE2: s.merge = Spec::ALL; n = mergeDegree2Nodes(g); break;
      case BOp::COMPLETELY: { counted = false; GeoMap::Dart d = g.dart(o.dart); bool br = m.isBridge(std::abs(o.dart)); l1 = m.dartLabel.at(o.dart); l2 = m.dartLabel.at(-o.dart);
            std::set<unsigned> common; bool anyProt = false;
            for(auto &x : m.edges) { unsigned a = m.dartLabel.at(x.first), b = m.dartLabel.at(-(int)x.first); if((a == l1 && b == l2) || (a == l2 && b == l1)) { common.insert(x.first); if(x.second.flags & 0xff) anyProt = true; } }
            if(br) wantNull = 2; else if(anyProt) wantNull = 1;
            else { s.removed = common; if(o.order) { s.merge = Spec::SOME; for(unsigned x : common) { s.mergeNodes.insert(m.edges.at(x).s); s.mergeNodes.insert(m.edges.at(x).e); } } }
            try { f = mergeFacesCompletely(d, o.order); } catch(std::exception &x) { thrown = true; what = x.what(); }
            if(wantNull == 2) { if(!thrown) return "mergeFacesCompletely() accepts a bridge"; }
            else { if(thrown) return "mergeFacesCompletely() throws: " + what; if(wantNull == 1 && f) return "mergeFacesCompletely() merges across a protected edge"; if(!wantNull && !f) return "mergeFacesCompletely() returned nothing"; }
            if(f && f->label() != l1 && f->label() != l2) return fmt("mergeFacesCompletely() of faces %u and %u returned face %u", l1, l2, f->label());
            break; }
    }
    if(!(e = readBack(g, before, m)).empty()) return e;
    unsigned c = 0;
    if(!(e = validate(before, m, s, c)).empty()) return e;
    if(counted && c != n) return fmt("reports %u operations, but %u were performed", n, c);
    if(f && (!g.face(f->label()) || g.face(f->label()).get() != f.get())) return "the face returned does not exist";
    if(!(e = cmpTopology(g, m)).empty()) return e;
    if(!(e = cmpCells(g, m)).empty()) return e;
    if(pixels && !(e = cmpPixels(g, m, sc.W, sc.H, false)).empty()) return e;
    return ""; }

struct Setup { Case c; uint64_t prot; bool attach; int flagsKind; };
static unsigned flagOf(const Setup &s, unsigned l) { static const unsigned P[] = {1, 2, 4, 8, 16, 0x80, 3}; if(s.prot >> (l - 1) & 1) return P[s.flagsKind ? 0 : l % 7]; return s.flagsKind == 2 && l % 2 ? 0x100 : 0; }
struct Live { boost::shared_ptr<GeoMap> g; std::unique_ptr<EdgeProtection> p; };
static Live make(const Setup &s, const RMap &m0, RMap &m) {
    Live l; l.g.reset(buildMap(s.c, m0).release()); m = m0; adoptLabels(*l.g, m);
    for(auto &e : m.edges) { e.second.flags = flagOf(s, e.first); if(e.second.flags) l.g->edge(e.first)->setFlag(e.second.flags, true); }
    if(s.attach) l.p.reset(new EdgeProtection(l.g));
    return l; }
static std::vector<BOp> bops(const RMap &m, bool small) {
    std::vector<BOp> r; uint64_t all = (1ull << m.edges.size()) - 1;
    for(uint64_t k = 0; k <= all; ++k) { if(small && k && k != all && (k & (k - 1)) && m.edges.size() > 5) continue; for(int o = 0; o < (small ? 1 : 3); ++o) { if(o && !(k & (k - 1))) continue; r.push_back(BOp{BOp::REMOVE_EDGES, k, o, 0}); } }
    r.push_back(BOp{BOp::BRIDGES, 0, 0, 0}); r.push_back(BOp{BOp::ISOLATED, 0, 0, 0}); r.push_back(BOp{BOp::DEGREE2, 0, 0, 0});
    uint64_t br = 0; int i = 0; for(auto &e : m.edges) { if(m.isBridge(e.first)) br |= 1ull << i; ++i; }
    for(uint64_t k = br; ; k = (k - 1) & br) { for(int o = 0; o < (small ? 1 : 3); ++o) { if(o && !(k & (k - 1))) continue; r.push_back(BOp{BOp::BRIDGE_LIST, k, o, 0}); } if(!k) break; }
    for(auto &e : m.edges) for(int d : {(int)e.first, -(int)e.first}) for(int o = 0; o < 2; ++o) { if(small && d < 0 && o) continue; r.push_back(BOp{BOp::COMPLETELY, 0, o, d}); }
    return r; }
static void histories(const Setup &s, const Scene &sc, int depth, bool small) {
    RMap m0; modelOf(s.c, m0); RMap m1; { make(s, m0, m1); }
    std::function<bool(const RMap &, std::vector<BOp> &, int)> rec = [&](const RMap &m, std::vector<BOp> &h, int left) -> bool {
        for(auto &o : bops(m, small || !h.empty())) {
            std::string hs; for(auto &x : h) hs += str(x) + " "; hs += str(o); vf::setDetail(hs); vf::armWatchdog(vf::watchdogSeconds());
            std::string e; RMap n;
            try { Live l = make(s, m0, n);
                for(auto &x : h) { RMap t = n; Spec q; step(*l.g, n, x, s.attach, sc, false); }
                e = step(*l.g, n, o, s.attach, sc, left == 1 && o.t != BOp::COMPLETELY);
            } catch(std::exception &x) { e = std::string("exception: ") + x.what(); }
            if(!e.empty()) { vf::viol(str(o).substr(0, str(o).find('(')), hs + ": " + e); if(vf::tooMany()) return false; continue; }
            vf::count("states");
            if(left > 1) { h.push_back(o); bool ok = rec(n, h, left - 1); h.pop_back(); if(!ok) return false; } else vf::count("traces");
        }
        return true; };
    std::vector<BOp> h; rec(m1, h, depth); }
static void P09() {
    bool th = vf::thorough(), san = vf::san();
    for(auto &s : SC) {
        uint64_t all = (1ull << s.edges.size()) - 1, alt = 0x5555 & all;
        // complete scenes: every removal set, every set of at most 2 protected edges, plus all protected
        std::vector<uint64_t> prots = {0, all}; for(size_t i = 0; i < s.edges.size(); ++i) { prots.push_back(1ull << i); for(size_t j = 0; j < i; ++j) prots.push_back(1ull << i | 1ull << j); }
        for(uint64_t pr : prots) for(int at = 0; at < 2; ++at) for(int fk = 0; fk < 3; ++fk) for(int li = 0; li < 2; ++li) {
            if(!pr && fk < 2 && (at || fk)) { if(!(fk == 0 && at)) continue; }
            if(san && (pr & (pr - 1)) && pr != all) continue;
            if(!at && pr && fk) continue;
            if(!li && (pr & (pr - 1))) continue;          // without label image: at most one protected edge
            Setup q; q.c.scene = &s; q.c.mask = all; q.c.dirs = (pr & 1) ? alt : 0; q.c.allNodes = true; q.c.labelImage = li; q.prot = pr; q.attach = at; q.flagsKind = fk;
            if(!vf::mine(fmt("%s/full/p%llx/a%d/f%d/l%d", s.name.c_str(), (unsigned long long)pr, at, fk, li))) continue;
            histories(q, s, 1, san); }
        // all subsets as starting maps, all operations, no or one protected edge
        for(uint64_t m = 1; m <= all; ++m) for(int at = 0; at < 2; ++at) {
            if(san && __builtin_popcountll(m) > 3 && m != all) continue;
            Setup q; q.c.scene = &s; q.c.mask = m; q.c.dirs = at ? 0 : alt & m; q.c.allNodes = !at; q.attach = at; q.flagsKind = 2 * at; int n = __builtin_popcountll(m); q.prot = at ? 1ull << (m % n) : 0;
            if(!vf::mine(fmt("%s/m%llx/a%d", s.name.c_str(), (unsigned long long)m, at))) continue;
            histories(q, s, n <= (san ? 2 : th ? 6 : 4) ? 2 : 1, true); }
    }
    if(!san) for(uint64_t m = 1; m < (1ull << GRID.edges.size()); ++m) for(int at = 0; at < (th ? 2 : 1); ++at) {
        Setup q; q.c.scene = &GRID; q.c.mask = m; q.c.dirs = 0x555 & m; q.prot = at; q.attach = at; q.flagsKind = 0;
        if(!vf::mine(fmt("g3/m%llx/a%d", (unsigned long long)m, at))) continue;
        histories(q, GRID, 1, true); }
    // protection ends with its object or when detached
    for(int how = 0; how < 3; ++how) { if(!vf::mine(fmt("detach/%d", how))) continue;
        Setup q; q.c.scene = &GRID; q.prot = ~0ull; q.attach = true; q.flagsKind = 1; RMap m0, m; modelOf(q.c, m0); Live l = make(q, m0, m);
        vf::count("states"); vf::count("traces"); vf::count("transitions", 3);
        if(l.g->mergeFaces(l.g->dart(4)) || l.g->mergeFaces(l.g->dart(-1))) { vf::viol("detach", "protected edge removed"); continue; }
        if(how == 0) { l.p->detachHooks(); if(l.p->map()) vf::viol("detach", "map() still set after detachHooks()"); }
        else if(how == 1) l.p.reset();
        else { l.p->detachHooks(); l.p->attachHooks(l.g); if(l.g->mergeFaces(l.g->dart(4))) vf::viol("detach", "not attached again"); bool t = false; try { l.p->attachHooks(l.g); } catch(std::exception &) { t = true; } if(!t) vf::viol("detach", "attaching twice accepted"); l.p->detachHooks(); }
        if(!l.g->mergeFaces(l.g->dart(4))) vf::viol("detach", "edge still protected after the protection was detached"); }
    // illegal labels are rejected
    for(int k = 0; k < 3; ++k) { if(!vf::mine(fmt("illegal/%d", k))) continue; vf::count("states"); vf::count("traces"); vf::count("transitions");
        Setup q; q.c.scene = &GRID; q.prot = 0; q.attach = false; q.flagsKind = 0; RMap m0, m; modelOf(q.c, m0); Live l = make(q, m0, m); std::vector<CellLabel> r{0}; if(k == 1) { l.g->mergeFaces(l.g->dart(1)); r[0] = 1; } if(k == 2) r[0] = 99;
        if(k < 2) { bool t = false; try { removeEdges(*l.g, r.begin(), r.end()); } catch(std::exception &) { t = true; } if(!t) vf::viol("illegal", "removeEdges() accepts a label of no edge"); }
        std::list<CellLabel> b{k == 1 ? 1u : 0u}; unsigned n = removeBridges(*l.g, b); if(n || b.size()) vf::viol("illegal", "removeBridges() with labels of removed edges"); }
}
int main(int argc, char **argv) {
    vf::init(argc, argv);
    SC = {scn::nest(), scn::loops(), scn::theta(), scn::chain(), scn::rings(), scn::twins()}; GRID = scn::grid(3, 3, 1.25, 3, false, "g3");
    if(vf::ctx().prop == "P09") P09(); else return 3;
    return vf::finish(); }
