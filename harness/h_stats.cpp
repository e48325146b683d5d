// Face colour statistics under merge histories (P17).
#include "explore.hpp"
#include "facestatistics.hxx"
#include <vigra/multi_array.hxx>
#include <vigra/rgbvalue.hxx>
using namespace gm;
using scn::Scene;
typedef vigra::MultiArray<2, float> GrayImage;
typedef vigra::MultiArray<2, vigra::RGBValue<float> > RGBImage;
typedef boost::shared_ptr<GeoMap> SMap;

static float val(int kind, int x, int y, int c) { unsigned h = (x * 7 + y * 13 + c * 5 + x * y * 3) % 11; return kind == 1 ? 3 : kind == 2 ? (x < 5 ? 10.f : 20.f + c) : (float)h + c; }
template<class I> struct Img;
template<> struct Img<GrayImage> { enum { D = 1 }; static GrayImage make(int w, int h, int kind) { GrayImage r(vigra::Shape2(w, h)); for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x) r(x, y) = val(kind, x, y, 0); return r; }
    template<class V> static double c(const V &v, int) { return v; } };
template<> struct Img<RGBImage> { enum { D = 3 }; static RGBImage make(int w, int h, int kind) { RGBImage r(vigra::Shape2(w, h)); for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x) r(x, y) = vigra::RGBValue<float>(val(kind, x, y, 0), val(kind, x, y, 1), val(kind, x, y, 2)); return r; }
    template<class V> static double c(const V &v, int i) { return v[i]; } };

struct Face { unsigned n = 0; double mean[3] = {0, 0, 0}, var[3] = {0, 0, 0}; };
template<class I> static std::map<int, Face> recompute(GeoMap &g, const I &im, int W, int H) {
    std::map<int, Face> r; std::map<int, std::vector<std::pair<int, int> > > px; GeoMap::LabelImageIterator li = g.labelsUpperLeft(); GeoMap::LabelImageAccessor a = g.labelAccessor();
    for(GeoMap::FaceIterator it = g.facesBegin(); it.inRange(); ++it) r[(*it)->label()];
    for(int y = 0; y < H; ++y) for(int x = 0; x < W; ++x) { int l = a(li, vigra::Diff2D(x, y)); if(l >= 0) px[l].push_back({x, y}); }
    for(auto &p : px) { Face &f = r[p.first]; f.n = p.second.size();
        for(int c = 0; c < Img<I>::D; ++c) { double s = 0, q = 0; for(auto &k : p.second) s += Img<I>::c(im(k.first, k.second), c); s /= f.n; for(auto &k : p.second) { double d = Img<I>::c(im(k.first, k.second), c) - s; q += d * d; } f.mean[c] = s; f.var[c] = q; } }
    return r; }
enum Ex { EXACT, SS, MAYBE };
typedef std::map<unsigned, Ex> Exact;
static bool close(double a, double b) { return std::fabs(a - b) <= 2e-4 * (1 + std::fabs(a) + std::fabs(b)); }
template<class I, class S> static std::string cmp(GeoMap &g, S &st, const I &im, const Exact &ex, unsigned minSamples, double maxDiff, int W, int H, bool attached = true) {
    std::map<int, Face> want = recompute(g, im, W, H);
    unsigned ssMin = 0, ssMax = 0;
    for(GeoMap::FaceIterator it = g.facesBegin(); it.inRange(); ++it) { unsigned l = (*it)->label(); Face &f = want[l];
        if((*it)->pixelArea() != f.n) return fmt("face %u: pixelArea() %u, %u pixels", l, (*it)->pixelArea(), f.n);
        if(l >= st.size() || !st[l]) return fmt("face %u has no statistics", l);
        Ex e = ex.at(l); if(e == SS) ++ssMin; if(e != EXACT) { ++ssMax; continue; }
        if(st.pixelCount(l) != f.n || st[l]->count() != f.n) return fmt("face %u: pixelCount() %u, expected %u", l, st.pixelCount(l), f.n);
        if(!f.n) continue;
        for(int c = 0; c < Img<I>::D; ++c) {
            double m = Img<I>::c(st.average(l), c), v = Img<I>::c(st.variance(l, false), c);
            if(!close(m, f.mean[c])) return fmt("face %u: average %g, expected %g", l, m, f.mean[c]);
            if(!close(v, f.var[c] / f.n)) return fmt("face %u: variance %g, expected %g", l, v, f.var[c] / f.n);
            if(f.n > 1 && !close(Img<I>::c(st.variance(l, true), c), f.var[c] / (f.n - 1))) return fmt("face %u: unbiased variance %g, expected %g", l, Img<I>::c(st.variance(l, true), c), f.var[c] / (f.n - 1)); } }
    if(st.superSampledCount() < ssMin || st.superSampledCount() > ssMax) return fmt("superSampledCount() %u, expected %u..%u", st.superSampledCount(), ssMin, ssMax);
    for(unsigned l = 0; l < st.size(); ++l) if(!want.count(l) && st[l]) return fmt("statistics left for removed face %u", l);
    if(attached && !st.checkConsistency()) return "checkConsistency() of the statistics fails";
    // differences between neighbours
    for(GeoMap::EdgeIterator it = g.edgesBegin(); it.inRange(); ++it) for(int s = 0; s < 2; ++s) { GeoMap::Dart d = g.dart(s ? -(int)(*it)->label() : (int)(*it)->label());
        unsigned l = d.leftFaceLabel(), r = d.rightFaceLabel(); if(!st.pixelCount(l) || !st.pixelCount(r)) continue;
        double n = 0; for(int c = 0; c < Img<I>::D; ++c) { double a = ex.at(l) == EXACT ? want[l].mean[c] : Img<I>::c(st.average(l), c), b = ex.at(r) == EXACT ? want[r].mean[c] : Img<I>::c(st.average(r), c); n += (a - b) * (a - b); }
        n = std::sqrt(n) / maxDiff;
        if(!close(st.faceMeanDiff(d), n)) return fmt("faceMeanDiff(%d) %g, expected %g", d.label(), st.faceMeanDiff(d), n);
        if(!l || !r) continue;
        double a1 = d.leftFace()->area(), a2 = d.rightFace()->area(), h = a1 * a2 / (a1 + a2);
        if(!close(st.faceAreaHomogeneity(d), h)) return fmt("faceAreaHomogeneity(%d)", d.label());
        if(std::fabs(st.faceHomogeneity2(d) - n * n * h) > 1e-3 * (1 + n) * (1 + h)) return fmt("faceHomogeneity2(%d)", d.label());
        if(std::fabs(st.faceHomogeneity(d) - n * std::sqrt(h)) > 1e-3 * (1 + h)) return fmt("faceHomogeneity(%d)", d.label()); }
    if(attached) { I out(vigra::Shape2(W, H)); st.copyRegionImage(destImage(out)); GeoMap::LabelImageIterator li = g.labelsUpperLeft(); GeoMap::LabelImageAccessor a = g.labelAccessor();
        for(int y = 0; y < H; ++y) for(int x = 0; x < W; ++x) { int l = a(li, vigra::Diff2D(x, y)); for(int c = 0; c < Img<I>::D; ++c) { double w = l < 0 ? 0 : ex.at(l) == EXACT ? want[l].mean[c] : Img<I>::c(st.average(l), c); if(!close(Img<I>::c(out(x, y), c), w)) return fmt("copyRegionImage: (%d,%d) is %g, expected %g", x, y, Img<I>::c(out(x, y), c), w); } } }
    return ""; }

struct Cfg { unsigned minSamples; int kind; bool rgb; int extra; /* 0 plain, 1 veto probes, 2 detach, 3 destroy, 4 copy */ int depth; bool dup; };
template<class I> struct Session {
    typedef FaceColorStatistics<I> Stats;
    const Scene &s; Case c; RMap m0; Cfg cfg; I im; bool veto = false; double maxDiff = 2.5;
    SMap g; std::unique_ptr<Stats> st;
    Session(const Scene &sc, uint64_t mask, const Cfg &f) : s(sc), cfg(f), im(Img<I>::make(sc.W, sc.H, f.kind)) { c.scene = &s; c.mask = mask; modelOf(c, m0); }
    void build() { st.reset(); g.reset(buildMap(c, m0).release()); veto = false; st.reset(new Stats(g, im, maxDiff, cfg.minSamples)); if(cfg.extra == 1) g->preMergeFacesHook.connect([this](const GeoMap::Dart &) { return !veto; }); }
    Exact initial() { Exact e; auto w = recompute(*g, im, s.W, s.H); for(auto &f : w) e[f.first] = f.first && f.second.n < cfg.minSamples ? SS : EXACT; return e; }
    std::string run(const std::vector<Op> &h, const Op &op, const RMap &before, const Exact &ex, RMap &after, Exact &exa) {
        build(); for(auto &o : h) applyImpl(*g, o);
        std::string e;
        if(cfg.extra == 1) { veto = true; for(auto &o : enabled(before, alphabet())) if(o.t == MERGE_FACES) { Result r = applyImpl(*g, o); if(r.status != Result::NOTHING) return "veto ignored"; } veto = false; e = cmp(*g, *st, im, ex, cfg.minSamples, maxDiff, s.W, s.H); if(!e.empty()) return "after vetoed merges: " + e; }
        std::map<int, Face> pre = recompute(*g, im, s.W, s.H);
        if(cfg.extra == 2) { st->detachHooks(); }
        if(cfg.extra == 3) st.reset();
        if(cfg.extra == 4) { std::unique_ptr<Stats> cp(new Stats(*st)); e = cmp(*g, *cp, im, ex, cfg.minSamples, maxDiff, s.W, s.H, false); if(!e.empty()) return "copy: " + e;
            Result r = applyImpl(*g, op); e = applyModel(after, op, r); if(!e.empty()) return e;      // the copy is not attached: it keeps its values
            st.reset(); for(auto &f : pre) if(ex.at(f.first) == EXACT && (!(*cp)[f.first] || cp->pixelCount(f.first) != f.second.n)) return fmt("copy: face %d changed with the original", f.first);
            cp.reset(); return "done"; }
        Result r = applyImpl(*g, op); e = applyModel(after, op, r); if(!e.empty()) return e;
        if(cfg.extra == 2) { for(auto &f : pre) if(ex.at(f.first) == EXACT && (!(*st)[f.first] || st->pixelCount(f.first) != f.second.n || (f.second.n && !close(Img<I>::c(st->average(f.first), 0), f.second.mean[0])))) return fmt("detached statistics of face %d changed", f.first); st.reset(); }
        if(cfg.extra == 2 || cfg.extra == 3) { if(!g->checkConsistency()) return "map inconsistent"; for(auto &o : enabled(after, alphabet())) { applyImpl(*g, o); break; } return "done"; }
        // which faces are now plain pixel statistics?
        exa = ex; std::map<int, Face> post = recompute(*g, im, s.W, s.H);
        if(op.t == MERGE_FACES) { unsigned a = before.dartLabel.at(op.a), b = before.dartLabel.at(-op.a), sv = r.label, mg = sv == a ? b : a; unsigned sum = pre[a].n + pre[b].n, now = post[sv].n;
            Ex q = ex.at(a) == EXACT || ex.at(b) == EXACT ? EXACT : now < cfg.minSamples ? SS : now > sum ? EXACT : MAYBE; exa.erase(mg); exa[sv] = q; }
        if(op.t == REMOVE_BRIDGE) { unsigned f = r.label; if(ex.at(f) != EXACT && post[f].n > pre[f].n && post[f].n >= cfg.minSamples) exa[f] = EXACT; }
        return cmp(*g, *st, im, exa, cfg.minSamples, maxDiff, s.W, s.H); }
    static Alphabet alphabet() { Alphabet a; a.split = a.splitInsert = false; a.removeNode = false; a.mergeEdges = false; return a; }
    void explore() {
        RMap m = m0; build(); std::string e = adoptLabels(*g, m); if(!e.empty()) { vf::viol("init", e); return; }
        Exact ex = initial(); vf::setDetail("build"); e = cmp(*g, *st, im, ex, cfg.minSamples, maxDiff, s.W, s.H); if(!e.empty()) { vf::viol("init", "initially: " + e); return; }
        struct N { RMap m; Exact ex; std::vector<Op> h; }; std::deque<N> q; q.push_back(N{m, ex, {}}); std::set<vf::Key> seen; vf::count("states");
        while(!q.empty() && !vf::tooMany()) { N n = q.front(); q.pop_front(); if((int)n.h.size() >= cfg.depth) continue;
            for(auto &op : enabled(n.m, alphabet())) { vf::count("transitions"); std::vector<Op> h = n.h; h.push_back(op); vf::setDetail(str(h)); vf::armWatchdog(vf::watchdogSeconds());
                RMap after = n.m; Exact exa; std::string err;
                try { err = run(n.h, op, n.m, n.ex, after, exa); } catch(std::logic_error &x) { err = std::string("model: ") + x.what(); } catch(std::exception &x) { err = std::string("exception: ") + x.what(); }
                if(err == "done") { // exploration goes on with plain histories
                    exa = n.ex; build(); for(auto &o : h) applyImpl(*g, o); auto post = recompute(*g, im, s.W, s.H);
                    Exact e2; for(auto &f : post) e2[f.first] = n.ex.count(f.first) && n.ex.at(f.first) == EXACT && st->pixelCount(f.first) == f.second.n ? EXACT : st->pixelCount(f.first) == f.second.n && f.second.n >= cfg.minSamples ? EXACT : MAYBE;
                    exa = e2; err = ""; }
                if(!err.empty()) { vf::viol(str(op).substr(0, str(op).find('(')), str(h) + ": " + err); if(vf::tooMany()) break; continue; }
                std::string k = after.key(); if(!cfg.dup) for(auto &x : exa) k += (char)x.second; else k = str(h);
                if((int)h.size() < cfg.depth && seen.insert(vf::keyOf(k)).second) { q.push_back(N{after, exa, h}); vf::count("states"); } else vf::count("traces"); } } }
};
static void one(const Scene &s, uint64_t mask, const Cfg &f) {
    if(!vf::mine(fmt("%s/m%llx/n%u/k%d%s/x%d/D%d%s", s.name.c_str(), (unsigned long long)mask, f.minSamples, f.kind, f.rgb ? "rgb" : "", f.extra, f.depth, f.dup ? "d" : ""))) return;
    if(f.rgb) { Session<RGBImage> x(s, mask, f); x.explore(); } else { Session<GrayImage> x(s, mask, f); x.explore(); } }

static Scene tiny() {   // a strip of faces that are smaller than or not much larger than a pixel, inside and beside larger ones
    Scene s; s.name = "tiny"; s.W = 9; s.H = 8;
    int a = s.node(1.25, 1.25), b = s.node(1.75, 1.25), c = s.node(2.25, 1.25), d = s.node(4.25, 1.25), e = s.node(7.25, 1.25);
    int A = s.node(1.25, 2.75), B = s.node(1.75, 2.75), C = s.node(2.25, 2.75), D = s.node(4.25, 2.75), E = s.node(7.25, 5.75);
    s.edge(a, b); s.edge(b, c); s.edge(c, d); s.edge(d, e); s.edge(A, B); s.edge(B, C); s.edge(C, D); s.edge(D, E, {P2{4.25, 5.75}});
    s.edge(a, A); s.edge(b, B); s.edge(c, C); s.edge(d, D); s.edge(e, E);
    return s; }
static Scene specks() { // tiny components within a larger face
    Scene s; s.name = "specks"; s.W = 10; s.H = 10;
    int a = s.node(0.75, 0.75), b = s.node(2.25, 2.25), c = s.node(2.75, 2.25), d = s.node(5.25, 5.25), e = s.node(6.25, 5.25), f = s.node(2.25, 3.25), g = s.node(2.75, 3.25);
    s.square(a, 8); s.edge(b, c); s.edge(b, f); s.edge(c, g); s.edge(f, g); s.edge(d, e, {P2{5.75, 4.75}}); s.edge(d, e, {P2{5.75, 5.75}}); s.edge(d, e); s.edge(b, g, {P2{2.5, 2.5}});
    return s; }
int main(int argc, char **argv) {
    vf::init(argc, argv); if(vf::ctx().prop != "P17") return 3;
    bool san = vf::san(), th = vf::thorough();
    std::vector<Scene> sc = {tiny(), specks(), scn::nest(), scn::loops(), scn::theta(), scn::rings(), scn::twins(), scn::border(), scn::chain()};
    for(auto &s : sc) { uint64_t all = (1ull << s.edges.size()) - 1;
        for(unsigned n : {0u, 1u, 2u, 4u, 12u, 40u}) for(int k = 0; k < 3; ++k) {
            if(san && (k || n == 0 || n == 4)) continue;
            if(k && n == 2) continue;
            if(n && s.name == "border") continue;    // faces outside of the image cannot be sampled
            one(s, all, Cfg{n, k, false, 0, san ? 2 : th ? 5 : 3, false});
            if(k == 0) one(s, all, Cfg{n, k, true, 0, san ? 1 : th ? 4 : 2, false});
            if(k == 0) for(int x = 1; x <= 4; ++x) one(s, all, Cfg{n, k, false, x, san ? 1 : th ? 3 : 2, false}); }
        // all sub-drawings
        for(uint64_t m = 1; m < all; ++m) for(unsigned n : {1u, 3u}) { if(s.name == "border") continue; int pc = __builtin_popcountll(m), ne = s.edges.size(); if(!th && pc > (san ? 1 : 3) && pc < ne - (san ? 1 : 2)) continue; one(s, m, Cfg{n, 0, false, 0, san ? 1 : th ? 4 : 3, false}); }
    }
    // complete removal orders (every order distinguished)
    for(auto &s : {sc[1], sc[5]}) for(unsigned n : {1u, 4u, 12u}) if(!san) one(s, (1ull << s.edges.size()) - 1, Cfg{n, 0, false, 0, th ? 5 : 3, true});
    if(!san) for(auto &s : {sc[0], sc[1], sc[5], sc[4]}) one(s, (1ull << s.edges.size()) - 1, Cfg{4u, 0, false, 0, 20, false});
    return vf::finish(); }
