// P21: every pyramid level is reproducible from its history
#include "cellref.hpp"
#include "foureightsegmentation.hxx"
#include "cellpyramid.hxx"
using namespace vf;
using cref::Ref;
namespace vc = vigra::cellimage;
struct CM : vc::GeoMap {
    template<class A, class B, class C> CM(A a, B b, C c) : vc::GeoMap(a, b, c) {}
    CM(const vc::GeoMap &o) : vc::GeoMap(o) {}
    using vc::GeoMap::checkConsistency;
};
typedef vc::GeoMap GM;
typedef GM::DartTraverser DT;
static std::string pos(const DT &d) { return fmt("(%d,%d)%d", d.centerCoordinate().x, d.centerCoordinate().y, d.direction()); }
#include "cellmodel.hpp"
// statistics that depend on the whole history: a mass per face and a log of all hooks
struct Stats {
    std::map<int, long> mass; std::string log; int pend1 = -1, pend2 = -1; char what = 0;
    void both(const DT &d, char w) { what = w; pend1 = d.leftFaceLabel(); pend2 = d.rightFaceLabel(); }
    void preRemoveIsolatedNode(const DT &d) { what = 'n'; pend1 = d.startNodeLabel(); pend2 = 0; }
    void preMergeFaces(const DT &d) { both(d, 'f'); }
    void preRemoveBridge(const DT &d) { what = 'b'; pend1 = d.edgeLabel(); pend2 = 0; }
    void preMergeEdges(const DT &d) { what = 'e'; pend1 = d.startNodeLabel(); pend2 = 0; }
    void post(char w, int label) { log += fmt("%c%c%d,%d>%d ", what, w, pend1, pend2, label); what = 0; pend1 = pend2 = -1; }
    void postRemoveIsolatedNode(const GM::FaceInfo &f) { mass[f.label] += 1; post('n', f.label); }
    void postMergeFaces(const GM::FaceInfo &f) { long a = mass[pend1], b = mass[pend2]; mass.erase(pend1); mass.erase(pend2); mass[f.label] = a + b + 100; post('f', f.label); }
    void postRemoveBridge(const GM::FaceInfo &f) { mass[f.label] += 10; post('b', f.label); }
    void postMergeEdges(const GM::EdgeInfo &e) { post('e', e.label); }
    std::string str() const { std::string s; for(auto &k : mass) if(k.second) s += fmt("%d:%ld ", k.first, k.second); return s + log; }
};
typedef vigra::CellPyramid<GM, Stats> Pyr;
static std::string reprP(const GM &m) { return repr(CM(m)); }

// reference: states after each level, by performing the operations directly
struct RState { CM m; Stats s; };
typedef std::shared_ptr<const RState> RP;
struct POp { int type; unsigned dart; };                 // Pyr::OperationType, serialized dart
static void rawOp(RState &r, const POp &o) {             // may throw (segmentation rejects)
    DT t(&r.m, o.dart);
    auto iso = [&](const DT &d) { r.s.preRemoveIsolatedNode(d); r.s.postRemoveIsolatedNode(r.m.removeIsolatedNode(d)); };
    auto mf = [&](const DT &d) { r.s.preMergeFaces(d); r.s.postMergeFaces(r.m.mergeFaces(d)); };
    auto br = [&](const DT &d) { r.s.preRemoveBridge(d); r.s.postRemoveBridge(r.m.removeBridge(d)); };
    switch(o.type) {
      case Pyr::RemoveIsolatedNode: iso(t); break;
      case Pyr::MergeFaces: mf(t); break;
      case Pyr::RemoveBridge: br(t); break;
      case Pyr::MergeEdges: { r.s.preMergeEdges(t); r.s.postMergeEdges(r.m.mergeEdges(t)); break; }
      default: if(t.leftFaceLabel() == t.rightFaceLabel()) br(t); else mf(t); } }     // RemoveEdge
typedef std::vector<POp> Group;                          // one level: operation or composite
struct Hist { std::vector<RP> levels; std::vector<Group> groups; int composing = 0; RP open; std::vector<bool> comp; };

static std::string grp(const std::vector<POp> &g) { std::string s; for(auto &o : g) s += fmt("%d/%x ", o.type, o.dart); return s; }
static std::string opRepr(const Pyr::Operation &o) {
    if(o.type == Pyr::Composite) { std::string s; for(auto &k : *o.opList) s += opRepr(k); return s; }
    return fmt("%d/%x ", (int)o.type, (unsigned)o.param); }

// ends removed by removeEdgeWithEnds, start node of the edge's stored direction first
static void performRef(RState &r, const POp &o) {
    if(o.type != Pyr::RemoveEdgeWithEnds) { rawOp(r, o); return; }
    DT t(&r.m, o.dart); int e = t.edgeLabel();
    int a = r.m.edge(e).start.startNodeLabel(), b = r.m.edge(e).end.startNodeLabel();
    POp q = {Pyr::RemoveEdge, o.dart}; rawOp(r, q);
    for(int n : {a, b}) if(r.m.node(n).initialized() && r.m.node(n).degree == 0) { DT d = r.m.node(n).anchor; r.s.preRemoveIsolatedNode(d); r.s.postRemoveIsolatedNode(r.m.removeIsolatedNode(d)); } }

struct Checker {
    std::string where;
    std::string same(const Pyr::Level &l, const RState &r, unsigned index, const char *how) {
        if(l.index() != index) return fmt("%s: index() is %u, expected %u", how, l.index(), index);
        if(reprP(l.segmentation()) != repr(r.m)) return fmt("%s: segmentation of level %u differs", how, index);
        if(l.cellStatistics().str() != r.s.str()) return fmt("%s: statistics of level %u are '%s', expected '%s'", how, index, l.cellStatistics().str().c_str(), r.s.str().c_str());
        return ""; }
    std::string all(Pyr &p, const Hist &h, bool deep) {
        std::string e;
        unsigned n = h.levels.size();
        unsigned cnt = n + (h.composing ? 1 : 0);
        if(p.levelCount() != cnt) return fmt("levelCount() is %u, expected %u", p.levelCount(), cnt);
        unsigned i = 0; for(auto it = p.historyBegin(); it != p.historyEnd(); ++it, ++i) { if(i >= h.groups.size()) return fmt("history lists more than the %zu recorded operations", h.groups.size());
            if(opRepr(*it) != grp(h.groups[i])) return fmt("history entry %u is %s, expected %s", i, opRepr(*it).c_str(), grp(h.groups[i]).c_str()); }
        if(i != h.groups.size()) return fmt("history lists %u operations, expected %zu", i, h.groups.size());
        if(!(e = same(p.topLevel(), h.composing ? *h.open : *h.levels.back(), n - 1, "topLevel()")).empty()) return e;
        count("traces");
        for(unsigned k = 0; k < n; ++k) {
            std::unique_ptr<Pyr::Level> l(p.getLevel(k));
            if(!(e = same(*l, *h.levels[k], k, "getLevel()")).empty()) return e;
            std::unique_ptr<Pyr::Level> c(p.getLastCheckpointBefore(k));
            if(c->index() > k) return fmt("getLastCheckpointBefore(%u) returns level %u", k, c->index());
            if(!(e = same(*c, *h.levels[c->index()], c->index(), "getLastCheckpointBefore()")).empty()) return e;
            if(!deep) continue;
            for(unsigned j = 0; j < n; ++j) {
                Pyr::Level m(*l); m.gotoLevel(j);
                if(!(e = same(m, *h.levels[j], j, fmt("gotoLevel() from %u", k).c_str())).empty()) return e;
                for(unsigned steps = 1; steps <= 3; ++steps) {
                    Pyr::Level a(*l); bool ok = false;
                    for(unsigned guard = 0; !ok && guard < n + 2; ++guard) { ok = a.approachLevel(j, steps);
                        if(a.index() >= n) return "approachLevel() leaves the pyramid";
                        if(ok != (a.index() == j)) return fmt("approachLevel(%u, %u) from %u returns %d at level %u", j, steps, k, (int)ok, a.index());
                        if(!(e = same(a, *h.levels[a.index()], a.index(), fmt("approachLevel(%u, %u) from %u", j, steps, k).c_str())).empty()) return e; }
                    if(!ok) return fmt("approachLevel(%u, %u) from %u does not arrive", j, steps, k); } } }
        try { std::unique_ptr<Pyr::Level> l(p.getLevel(cnt)); return "getLevel() beyond the top is not rejected"; } catch(std::exception &) {}
        return ""; } };

// one command on pyramid and reference
enum { C_OP, C_BEGIN, C_CHANGE, C_END, C_CUT, C_CUTLEVEL, C_CHECKPOINT };
struct Cmd { int kind; POp op; unsigned level; std::string name; };
struct World {
    CM base; Hist h; std::unique_ptr<Pyr> p;
    World(const CM &b) : base(b), p(new Pyr(b)) { h.levels.push_back(std::make_shared<RState>(RState{b, Stats()})); }
    const RState &top() const { return h.composing ? *h.open : *h.levels.back(); }
    std::string run(const Cmd &c) {
        std::string err, want;
        switch(c.kind) {
          case C_OP: {
            auto n = std::make_shared<RState>(top());
            bool bad = false; try { performRef(*n, c.op); } catch(std::exception &x) { bad = true; want = x.what(); }
            DT t(&const_cast<GM &>(p->topLevel().segmentation()), c.op.dart); int label = -1;
            try { switch(c.op.type) { case Pyr::RemoveIsolatedNode: label = p->removeIsolatedNode(t).label; break; case Pyr::MergeFaces: label = p->mergeFaces(t).label; break; case Pyr::RemoveBridge: label = p->removeBridge(t).label; break;
                  case Pyr::MergeEdges: label = p->mergeEdges(t).label; break; case Pyr::RemoveEdge: label = p->removeEdge(t).label; break; default: label = p->removeEdgeWithEnds(t).label; } }
            catch(std::exception &x) { err = x.what(); }
            if(bad != !err.empty()) return bad ? "failing operation raised no error" : "operation failed: " + err;
            if(bad) { if(err.substr(0, 60) != want.substr(0, 60)) return "failing operation raised another error: " + err + " instead of " + want; return ""; }
            if(h.composing) { h.open = n; h.groups.back().push_back(c.op); } else { h.levels.push_back(n); h.groups.push_back(Group(1, c.op)); }
            return ""; }
          case C_BEGIN: p->beginComposite(); if(!h.composing) { h.open = h.levels.back(); h.groups.push_back(Group()); } ++h.composing; return "";
          case C_CHANGE: p->changeIntoComposite(); if(!h.composing) { h.open = h.levels.back(); h.levels.pop_back(); } ++h.composing; return "";
          case C_END: p->endComposite(); if(!--h.composing) { h.levels.push_back(h.open); h.open.reset(); } return "";
          case C_CUT: case C_CUTLEVEL: {
            try { if(c.kind == C_CUT) p->cutAbove(c.level); else { std::unique_ptr<Pyr::Level> l(p->getLevel(c.level)); p->cutAbove(*l); } } catch(std::exception &x) { return std::string("cutAbove() failed: ") + x.what(); }
            if(c.level + 1 < h.levels.size()) { h.levels.resize(c.level + 1); h.groups.resize(c.level); } return ""; }
          case C_CHECKPOINT: p->storeCheckpoint(p->topLevel()); return ""; }
        return ""; } };
static std::vector<POp> opsOf(const RState &r, bool illegal) {     // one dart per edge and operation kind
    std::vector<POp> v; bool ill[4] = {false, false, false, false};
    auto dart = [&](const DT &d) { return (unsigned)d.serialize(); };
    RState &q = const_cast<RState &>(r);
    for(auto it = q.m.nodesBegin(); it.inRange(); ++it) {
        if(it->degree == 0) v.push_back(POp{Pyr::RemoveIsolatedNode, dart(it->anchor)});
        else if(it->degree == 2 && DT(it->anchor).nextSigma().edgeLabel() != it->anchor.edgeLabel()) v.push_back(POp{Pyr::MergeEdges, dart(it->anchor)});
        if(illegal && it->degree && !ill[0]) { ill[0] = true; v.push_back(POp{Pyr::RemoveIsolatedNode, dart(it->anchor)}); }
        if(illegal && it->degree > 2 && !ill[3]) { ill[3] = true; v.push_back(POp{Pyr::MergeEdges, dart(it->anchor)}); } }
    for(auto it = q.m.edgesBegin(); it.inRange(); ++it) { bool b = it->isBridge();
        v.push_back(POp{b ? Pyr::RemoveBridge : Pyr::MergeFaces, dart(it->start)});
        v.push_back(POp{Pyr::RemoveEdge, dart(it->end)}); v.push_back(POp{Pyr::RemoveEdgeWithEnds, dart(it->end)});
        if(illegal && !ill[1 + b]) { ill[1 + b] = true; v.push_back(POp{b ? Pyr::MergeFaces : Pyr::RemoveBridge, dart(it->start)}); } }
    return v; }
static std::string opName(const POp &o) { static const char *n[] = {"removeIsolatedNode", "mergeFaces", "removeBridge", "mergeEdges", "removeEdge", "removeEdgeWithEnds"}; return fmt("%s(%u,%u:%u)", n[o.type], o.dart >> 14 & 0x3fff, o.dart & 0x3fff, o.dart >> 28); }
static std::vector<Cmd> commands(const World &w, bool illegal) {
    std::vector<Cmd> r; const Hist &h = w.h;
    for(auto &o : opsOf(w.top(), illegal)) r.push_back(Cmd{C_OP, o, 0, opName(o)});
    if(h.composing < 2) r.push_back(Cmd{C_BEGIN, {}, 0, "beginComposite()"});
    if(h.composing ? h.composing < 2 : h.levels.size() > 1) r.push_back(Cmd{C_CHANGE, {}, 0, "changeIntoComposite()"});
    if(h.composing) r.push_back(Cmd{C_END, {}, 0, "endComposite()"});
    else { r.push_back(Cmd{C_CHECKPOINT, {}, 0, "storeCheckpoint()"});
        for(unsigned k = 0; k < h.levels.size(); ++k) { r.push_back(Cmd{C_CUT, {}, k, fmt("cutAbove(%u)", k)}); r.push_back(Cmd{C_CUTLEVEL, {}, k, fmt("cutAbove(level %u)", k)}); } }
    return r; }
static bool history(const CM &base, const std::vector<Cmd> &cmds, bool everyStep, bool deep) {
    World w(base); Checker ck; std::string path;
    for(size_t i = 0; i < cmds.size(); ++i) {
        path += (i ? " " : "") + cmds[i].name; setDetail(path); count("transitions");
        std::string e = w.run(cmds[i]);
        if(e.empty() && (everyStep || i + 1 == cmds.size())) e = ck.all(*w.p, w.h, deep);
        if(!e.empty()) { viol(cmds[i].name.substr(0, cmds[i].name.find('(')), path + " : " + e); return false; } }
    return true; }
// all command sequences up to a depth (each is replayed from scratch on a new pyramid)
static bool explore(const CM &base, std::vector<Cmd> &cmds, int depth) {
    count("states");
    World w(base); for(auto &c : cmds) w.run(c);
    if(!depth) return true;
    for(auto &c : commands(w, true)) { cmds.push_back(c); bool ok = history(base, cmds, false, true) && explore(base, cmds, depth - 1); cmds.pop_back(); if(!ok) return false; }
    return true; }
static std::unique_ptr<CM> mk(int w, int h, uint64_t b, bool corner) {
    vigra::BImage img(w, h); for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x) img(x, y) = b >> (y * w + x) & 1;
    return std::unique_ptr<CM>(new CM(srcImageRange(img), 1, corner ? vc::CellTypeVertex : vc::CellTypeLine)); }
// long histories: reduce the map completely, choosing always the first / last / middle operation, with a
// composite around operations [a, b) and the pyramid cut back to each level afterwards
static void longHistory(const CM &base, int pick, int a, int b, bool change) {
    World w(base); Checker ck; std::string path; int n = 0;
    auto step = [&](const Cmd &c) { path += c.name + " "; setDetail(path); count("transitions"); std::string e = w.run(c); if(e.empty()) e = ck.all(*w.p, w.h, false); if(!e.empty()) viol(c.name.substr(0, c.name.find('(')), path + " : " + e); return e.empty(); };
    for(;; ++n) {
        auto ops = opsOf(w.top(), false); if(ops.empty() || n > 60) break;
        if(n == a) { if(change && n) { if(!step(Cmd{C_CHANGE, {}, 0, "changeIntoComposite()"})) return; } else if(!step(Cmd{C_BEGIN, {}, 0, "beginComposite()"})) return; }
        POp o = pick == 0 ? ops.front() : pick == 1 ? ops.back() : ops[(n * 7 + pick) % ops.size()];
        if(!step(Cmd{C_OP, o, 0, opName(o)})) return;
        if(n + 1 == b) if(!step(Cmd{C_END, {}, 0, "endComposite()"})) return; }
    if(w.h.composing) if(!step(Cmd{C_END, {}, 0, "endComposite()"})) return;
    count("long_levels", w.h.levels.size()); count("states");
    std::string e = ck.all(*w.p, w.h, true); if(!e.empty()) { viol("levels", path + " : " + e); return; }
    while(w.h.levels.size() > 1) { unsigned k = w.h.levels.size() >= 4 ? w.h.levels.size() - 3 : 0; if(!step(Cmd{C_CUT, {}, k, fmt("cutAbove(%u)", k)})) return;
        auto ops = opsOf(w.top(), false); if(!ops.empty() && k) { POp o = ops[ops.size() / 2]; if(!step(Cmd{C_OP, o, 0, opName(o)})) return; } } }
int main(int argc, char **argv) {
    init(argc, argv);
    // short histories of everything
    std::vector<std::pair<std::pair<int, int>, uint64_t>> imgs = {{{1,1},0},{{3,3},0x10},{{5,3},0x1084},{{5,3},0x2abe}};
    int depth = san() ? 2 : 3; if(thorough()) ++depth;
    for(auto &im : imgs) for(int corner = 0; corner < 2; ++corner) {
        Ref r(im.first.first, im.first.second, im.second, corner); if(r.rejected || !r.odd.empty()) continue;
        auto base = mk(im.first.first, im.first.second, im.second, corner);
        World w(*base);
        for(auto &c : commands(w, true)) {
            std::string id = fmt("%dx%d/%llx/%s/D%d/%s", im.first.first, im.first.second, (unsigned long long)im.second, corner ? "node" : "line", depth, c.name.c_str());
            for(auto &ch : id) if(ch == ' ') ch = '_';
            if(!mine(id)) continue;
            std::vector<Cmd> cmds(1, c);
            if(history(*base, cmds, false, true)) explore(*base, cmds, depth - 1);
            if(tooMany()) return finish(); } }
    // long histories
    std::vector<std::pair<int, int>> sizes = {{3,3},{5,3}}; if(thorough()) sizes.push_back({4,4});
    for(auto s : sizes) for(uint64_t b = 0; b < (1ull << (s.first * s.second)); ++b) {
        Ref r(s.first, s.second, b, true); if(r.rejected || !r.odd.empty()) continue;
        if(r.nEdges < (s.first == 3 ? 8 : s.first == 5 ? (thorough() ? 11 : 12) : 12) || (san() && s.first != 3)) continue;
        std::string id = fmt("long/%dx%d/%llx", s.first, s.second, (unsigned long long)b);
        if(!mine(id)) continue;
        auto base = mk(s.first, s.second, b, true); count("long_images");
        std::vector<int> begins = {-1, 0, 1, 2, 5, 9, 11}, lens = {1, 2, 5, 12};
        if(thorough()) { begins = {-1}; for(int a = 0; a < 14; ++a) begins.push_back(a); lens = {1, 2, 3, 4, 6, 9, 12}; }
        for(int pick = 0; pick < 3; ++pick) for(int a : begins) for(int len : lens) { if(a < 0 && len > 1) continue; for(int ch = 0; ch < (a <= 0 ? 1 : 2); ++ch) { longHistory(*base, pick, a, a + len, ch); if(tooMany()) return finish(); } } }
    return finish(); }
