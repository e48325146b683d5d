// Breadth-first exploration of all operation histories of a GeoMap.  Every
// transition is executed on a freshly built map by replaying the history
// (so the checks never disturb hidden state such as caches), and the result is
// handed to a check together with the reference model's state.
#pragma once
#include "gmcommon.hpp"
#include <deque>
namespace gm {
struct Opts { int depth = 2; Alphabet al; std::vector<int> touch = {0}; /* per step (the last entry is repeated): see touchAll() */ bool flags = false; int splits = -1; /* max. number of splits per history, -1: unlimited */
    int cycles = 0; /* number of split+merge pairs performed before the exploration starts (uses up labels) */ std::vector<Op> prefix; /* those operations */
    int touchAt(size_t k) const { return touch[std::min(k, touch.size() - 1)]; }
    std::string str() const { std::string t; for(int x : touch) t += fmt("%d", x); return fmt("/D%d/t%s%s", depth, t.c_str(), splits >= 0 ? fmt("/s%d", splits).c_str() : "") + (cycles ? fmt("/c%d", cycles) : std::string()); } };

inline void initFlags(GeoMap &g, RMap &m) {       // distinct flags, so that lost or mixed-up flags are seen
    for(auto &e : m.edges) { e.second.flags = (e.first % 3) | (e.first << 8) | (1u << (20 + e.first % 8)); g.edge(e.first)->setFlag(e.second.flags, true); } }
inline MapPtr replay(const Case &c, const RMap &m0, const std::vector<Op> &h, const Opts &o) {
    MapPtr g = buildMap(c, m0);
    if(o.flags) { RMap t = m0; initFlags(*g, t); }
    for(auto &op : o.prefix) applyImpl(*g, op);
    touchAll(*g, o.touchAt(0));
    for(size_t k = 0; k < h.size(); ++k) { Result r = applyImpl(*g, h[k]); (void)r; touchAll(*g, o.touchAt(k + 1)); }
    return g; }

// the darts by which the implementation represents nodes and contours
inline std::vector<int> anchors(GeoMap &g) {
    std::vector<int> r;
    for(GeoMap::NodeIterator it = g.nodesBegin(); it.inRange(); ++it) r.push_back((*it)->isIsolated() ? 0 : (*it)->anchor().label());
    for(GeoMap::FaceIterator it = g.facesBegin(); it.inRange(); ++it) { r.push_back(0); for(GeoMap::Face::ContourIterator ci = (*it)->contoursBegin(); ci != (*it)->contoursEnd(); ++ci) r.push_back(ci->label()); }
    return r; }
inline std::string stateKey(const RMap &m, GeoMap &g) { std::string k = m.key() + "|"; for(int a : anchors(g)) { k += (char)(a & 255); k += (char)(a >> 8 & 255); } return k; }

struct Trans { GeoMap &g; const RMap &before; RMap &after; const std::vector<Op> &hist; const Op &op; const Result &res; const Case &c; const RMap &m0; const Opts &opts; };
typedef std::function<std::string(Trans &)> Check;
typedef std::function<std::string(GeoMap &, RMap &, const Case &)> InitCheck;

// split an edge and merge the parts again, o.cycles times
inline std::string performCycles(GeoMap &g, RMap &m, Opts &o) {
    int e = 0; for(auto &k : m.edges) if(k.second.pts.size() > 2) { e = k.first; break; }
    if(!e) return "no edge to split";
    auto step = [&](const Op &op, Result &r) { o.prefix.push_back(op); r = applyImpl(g, op); std::string s = applyModel(m, op, r); return s.empty() ? s : str(op) + ": " + s; };
    for(int k = 0; k < o.cycles; ++k) {
        Result r; std::string s = step(Op{SPLIT, e, 1, P2{0, 0}}, r); if(!s.empty()) return s;
        int dart = k % 2 ? (int)r.label : -e;
        s = step(Op{MERGE_EDGES, dart, 0, P2{0, 0}}, r); if(!s.empty()) return s;
        e = (int)r.label; }
    return ""; }
// returns false if a violation was found
inline bool explore(const Case &c, Opts o, InitCheck initCheck, Check check, std::string tag = "") {
    std::string id = c.str() + o.str() + tag;
    if(!vf::mine(id)) return true;
    RMap m0; modelOf(c, m0);
    RMap m = m0; std::set<vf::Key> seen;
    if(o.splits >= 0) o.al.maxEdgeLabel = m0.nextEdge + o.splits + o.cycles;
    vf::setDetail("build");
    try {
        MapPtr g = buildMap(c, m0);
        std::string e = adoptLabels(*g, m);
        if(e.empty() && o.flags) initFlags(*g, m);
        if(e.empty() && o.cycles) e = performCycles(*g, m, o);
        if(e.empty()) touchAll(*g, o.touchAt(0));
        if(e.empty() && initCheck) e = initCheck(*g, m, c);
        if(e.empty()) seen.insert(vf::keyOf(stateKey(m, *g)));
        if(!e.empty()) { vf::viol("init", "after initializeMap: " + e); return false; }
    } catch(std::logic_error &) { throw; }
    catch(std::exception &e) { vf::viol("init-throws", e.what()); return false; }
    struct St { RMap m; std::vector<Op> h; };
    std::deque<St> q; q.push_back(St{m, {}});
    vf::count("states");
    bool ok = true;
    while(!q.empty() && !vf::tooMany()) {
        St s = q.front(); q.pop_front();
        if((int)s.h.size() >= o.depth) continue;
        for(auto &op : enabled(s.m, o.al)) {
            vf::count("transitions");
            std::vector<Op> h = s.h; h.push_back(op);
            vf::setDetail(str(h));
            vf::armWatchdog(vf::watchdogSeconds());
            std::string err, key; RMap after = s.m;
            try {
                MapPtr g = replay(c, m0, s.h, o);
                Result r = applyImpl(*g, op);
                err = applyModel(after, op, r);
                if(err.empty()) { Trans t{*g, s.m, after, s.h, op, r, c, m0, o}; err = check(t); if(err.empty() && (int)h.size() < o.depth) { MapPtr g2 = replay(c, m0, h, o); key = stateKey(after, *g2); } }
            } catch(std::logic_error &e) { err = std::string("model: ") + e.what(); }
            catch(std::exception &e) { err = std::string("exception: ") + e.what(); }
            if(!err.empty()) { vf::viol(str(op).substr(0, str(op).find('(')), str(h) + ": " + err); ok = false; if(vf::tooMany()) break; continue; }
            if((int)h.size() < o.depth && seen.insert(vf::keyOf(key)).second) { q.push_back(St{after, h}); vf::count("states"); }
            else vf::count("traces");     // a maximal explored history
        }
    }
    return ok; }
// One long history: in step k the operation number (start + k * stride) mod n of the n enabled ones; checked after every step.
inline bool schedule(const Case &c, const Opts &o, int start, int stride, int steps, InitCheck initCheck, Check check) {
    std::string id = c.str() + fmt("/sched%d+%d", start, stride) + o.str();
    if(!vf::mine(id)) return true;
    RMap m0; modelOf(c, m0);
    RMap m = m0; std::vector<Op> h;
    vf::setDetail("build");
    try {
        MapPtr g = buildMap(c, m0);
        std::string e = adoptLabels(*g, m);
        if(e.empty() && o.flags) initFlags(*g, m);
        if(e.empty()) touchAll(*g, o.touchAt(0));
        if(e.empty() && initCheck) e = initCheck(*g, m, c);
        if(!e.empty()) { vf::viol("init", "after initializeMap: " + e); return false; }
        for(int k = 0; k < steps; ++k) {
            std::vector<Op> ops = enabled(m, o.al);
            if(ops.empty()) break;
            Op op = ops[(size_t)(start + k * stride) % ops.size()];
            vf::count("transitions"); vf::count("states"); vf::setDetail(str(h) + str(op)); vf::armWatchdog(vf::watchdogSeconds());
            RMap after = m; Result r = applyImpl(*g, op);
            e = applyModel(after, op, r);
            if(e.empty()) touchAll(*g, o.touchAt(k + 1));
            if(e.empty()) { Trans t{*g, m, after, h, op, r, c, m0, o}; e = check(t); }
            if(!e.empty()) { vf::viol(str(op).substr(0, str(op).find('(')), str(h) + str(op) + ": " + e); return false; }
            h.push_back(op); m = after;
        }
        vf::count("traces");
    } catch(std::exception &e) { vf::viol("exception", str(h) + ": " + e.what()); return false; }
    return true; }
} // namespace gm
