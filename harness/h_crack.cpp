// Crack-edge maps of label images (P11): every image within the bounds.
#include "common.hpp"
#include "crackedgemap.hxx"
#include <functional>
#include "refmap.hpp"
#include <cmath>
#include <array>
#include <algorithm>
#include <numeric>
using vf::fmt;

struct Img { int w, h; std::vector<int> v; int at(int x, int y) const { return v[y * w + x]; } bool in(int x, int y) const { return x >= 0 && y >= 0 && x < w && y < h; } };
struct Oracle {                    // regions of the image by definition
    const Img &im; bool eight; std::vector<int> uf, reg; int n = 0; std::vector<int> size, label, cracks;
    int find(int i) { while(uf[i] != i) i = uf[i] = uf[uf[i]]; return i; }
    // at the pixel corner (x,y) (upper left of pixel x,y): which diagonal connects?  0 none, 1: (x-1,y-1)-(x,y), 2: (x,y-1)-(x-1,y)
    int diag(int x, int y) const {
        if(!eight || x < 1 || y < 1 || x >= im.w || y >= im.h) return 0;
        int a = im.at(x-1, y-1), b = im.at(x, y-1), c = im.at(x-1, y), d = im.at(x, y);
        if(a == b || a == c || b == d || c == d) return 0;
        if(a == d && b == c) return a > b ? 1 : 2;
        if(a == d) return 1;
        if(b == c) return 2;
        return 0; }
    Oracle(const Img &i, bool e) : im(i), eight(e), uf(i.w * i.h), reg(i.w * i.h, -1) {
        std::iota(uf.begin(), uf.end(), 0); int w = im.w, h = im.h;
        auto join = [&](int a, int b) { uf[find(a)] = find(b); };
        for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x) {
            if(x + 1 < w && im.at(x, y) == im.at(x+1, y)) join(y*w+x, y*w+x+1);
            if(y + 1 < h && im.at(x, y) == im.at(x, y+1)) join(y*w+x, (y+1)*w+x);
            int d = diag(x, y);
            if(d == 1) join((y-1)*w+x-1, y*w+x); if(d == 2) join((y-1)*w+x, y*w+x-1); }
        std::map<int, int> m;
        for(int k = 0; k < w*h; ++k) { int r = find(k); if(!m.count(r)) { m[r] = n++; size.push_back(0); cracks.push_back(0); label.push_back(im.v[k]); } reg[k] = m[r]; ++size[reg[k]]; }
        for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x) { static const int dx[] = {1,0,-1,0}, dy[] = {0,1,0,-1};
            for(int d = 0; d < 4; ++d) if(region(x+dx[d], y+dy[d]) != region(x, y)) ++cracks[region(x, y)]; } }
    int region(int x, int y) const { return im.in(x, y) ? reg[y * im.w + x] : -1; }
    int crackDegree(int x, int y) const {     // at the corner upper left of pixel (x,y); cracks separate different LABELS
        auto L = [&](int a, int b) { return im.in(a, b) ? (long)im.at(a, b) : (long)-1e9; };
        long a = L(x-1, y-1), b = L(x, y-1), c = L(x-1, y), d = L(x, y);
        return (a != b) + (a != c) + (b != d) + (c != d); }
};
static double polyArea(const std::vector<Vector2> &p) { double r = 0; for(size_t i = 1; i < p.size(); ++i) r += p[i-1][0] * p[i][1] - p[i-1][1] * p[i][0]; return r / 2; }
static bool near(double a, double b) { return std::fabs(a - b) < 1e-9; }

static std::string check(const Img &im, bool eight, bool labelImage, bool mid) {
    Oracle o(im, eight);
    vigra::IImage src(im.w, im.h); for(int y = 0; y < im.h; ++y) for(int x = 0; x < im.w; ++x) src(x, y) = im.at(x, y);
    CrackEdgeMapGenerator gen(vigra::srcImageRange(src), eight);
    gen.initializeMap(labelImage);
    GeoMap &g = *gen.result;
    vf::count("transitions");
    if(g.imageSize() != vigra::Size2D(im.w, im.h)) return "image size";
    if(!g.checkConsistency()) return "checkConsistency() fails";
    if((int)g.faceCount() != o.n + 1) return fmt("%u faces, expected %d regions + 1", g.faceCount(), o.n);
    if(g.hasLabelImage() != labelImage) return "hasLabelImage()";
    // edges are unit crack sequences between nodes
    std::map<std::pair<int,int>, int> nodeAt;
    for(GeoMap::NodeIterator it = g.nodesBegin(); it.inRange(); ++it) {
        GeoMap::Node &n = **it; double fx = n.position()[0] + .5, fy = n.position()[1] + .5; int x = (int)std::floor(fx), y = (int)std::floor(fy);
        if(fx != x || fy != y || x < 0 || y < 0 || x > im.w || y > im.h) return fmt("node at (%g,%g)", n.position()[0], n.position()[1]);
        if(!nodeAt.insert(std::make_pair(std::make_pair(x, y), (int)n.label())).second) return fmt("two nodes at corner %d,%d", x, y);
        int cd = o.crackDegree(x, y);
        if(o.diag(x, y)) cd = 2;
        int deg = n.degree();
        if(deg != cd) return fmt("node at corner %d,%d has degree %d, %d cracks meet there", x, y, deg, cd);
        if(deg == 2 && !n.anchor().edge()->isLoop()) return fmt("avoidable degree 2 node at corner %d,%d", x, y);
        if(deg < 2) return fmt("dangling node at corner %d,%d", x, y);
    }
    for(int y = 0; y <= im.h; ++y) for(int x = 0; x <= im.w; ++x) if(!o.diag(x, y) && o.crackDegree(x, y) > 2 && !nodeAt.count(std::make_pair(x, y))) return fmt("no node at junction %d,%d", x, y);
    // darts: left and right regions of every crack
    std::vector<int> cracksSeen(o.n + 1, 0), faceOf(o.n + 1, -1); std::set<std::array<int, 3> > seen;
    std::map<int, std::vector<Vector2> > orig;
    for(GeoMap::EdgeIterator it = g.edgesBegin(); it.inRange(); ++it) {
        GeoMap::Edge &e = **it; std::vector<Vector2> &pts = orig[e.label()]; for(unsigned i = 0; i < e.size(); ++i) pts.push_back(e[i]);
        if(e.size() < 2 || e[0] != e.startNode()->position() || e[e.size()-1] != e.endNode()->position()) return fmt("edge %u does not end at its nodes", e.label());
        bool border = false;
        for(unsigned i = 1; i < e.size(); ++i) {
            double dx = e[i][0] - e[i-1][0], dy = e[i][1] - e[i-1][1];
            if(std::fabs(dx) + std::fabs(dy) != 1) return fmt("edge %u: step (%g,%g)", e.label(), dx, dy);
            if(i + 1 < e.size() && nodeAt.count(std::make_pair((int)std::floor(e[i][0] + .5), (int)std::floor(e[i][1] + .5))) && !o.diag((int)std::floor(e[i][0] + .5), (int)std::floor(e[i][1] + .5))) return fmt("edge %u runs through a node", e.label());
            // in image coordinates (y down) the left side is (dy,-dx) rotated: left of (1,0) is (0,-1)
            double mx = (e[i][0] + e[i-1][0]) / 2, my = (e[i][1] + e[i-1][1]) / 2;
            int lx = (int)std::lround(mx + dy * .5), ly = (int)std::lround(my - dx * .5), rx = (int)std::lround(mx - dy * .5), ry = (int)std::lround(my + dx * .5);
            int lr = o.region(lx, ly), rr = o.region(rx, ry);
            if(lr == rr) return fmt("edge %u: no crack at (%g,%g)", e.label(), mx, my);
            if(!seen.insert(std::array<int, 3>{{(int)(2 * mx + 10), (int)(2 * my + 10), 0}}).second) return fmt("crack at (%g,%g) used twice", mx, my);
            ++cracksSeen[lr + 1]; ++cracksSeen[rr + 1]; if(lr < 0 || rr < 0) border = true;
            int lf = e.leftFaceLabel(), rf = e.rightFaceLabel();
            if(faceOf[lr + 1] < 0) faceOf[lr + 1] = lf; if(faceOf[lr + 1] != lf) return fmt("crack at (%g,%g): face %d to the left, expected %d", mx, my, lf, faceOf[lr + 1]);
            if(faceOf[rr + 1] < 0) faceOf[rr + 1] = rf; if(faceOf[rr + 1] != rf) return fmt("crack at (%g,%g): face %d to the right, expected %d", mx, my, rf, faceOf[rr + 1]);
        }
        if(border != (bool)e.flag(GeoMap::Edge::BORDER_PROTECTION)) return fmt("edge %u: border edge %d, flagged %d", e.label(), (int)border, (int)!!e.flag(GeoMap::Edge::BORDER_PROTECTION));
        if(e.flag(GeoMap::Edge::BORDER_PROTECTION | GeoMap::Edge::ALL_PROTECTION) & ~GeoMap::Edge::BORDER_PROTECTION) return fmt("edge %u carries other protection flags", e.label());
    }
    for(int r = 0; r < o.n; ++r) if(cracksSeen[r + 1] != o.cracks[r]) return fmt("region %d: %d of %d cracks covered", r, cracksSeen[r + 1], o.cracks[r]);
    if(cracksSeen[0] != 2 * (im.w + im.h)) return "cracks of the image border";
    if(faceOf[0] != 0) return "infinite face is not face 0";
    { std::set<int> s(faceOf.begin(), faceOf.end()); if((int)s.size() != o.n + 1) return "two regions share a face"; }
    std::vector<int> regOf(g.maxFaceLabel(), -2); for(int r = 0; r <= o.n; ++r) { if(faceOf[r] >= (int)regOf.size()) return "face label out of range"; regOf[faceOf[r]] = r - 1; }
    // faces
    std::vector<char> dartSeen(2 * g.maxEdgeLabel() + 2, 0);
    for(GeoMap::FaceIterator it = g.facesBegin(); it.inRange(); ++it) {
        GeoMap::Face &f = **it; int r = regOf[f.label()]; if(r == -2) return fmt("face %u belongs to no region", f.label());
        int ci = 0; std::vector<std::set<std::pair<int,int> > > dummy;
        for(GeoMap::Face::ContourIterator c = f.contoursBegin(); c != f.contoursEnd(); ++c, ++ci) {
            GeoMap::Dart d = *c, s = d; double a = 0; int steps = 0;
            do { int idx = d.label() > 0 ? 2 * d.label() : -2 * d.label() + 1; if(dartSeen[idx]++) return fmt("face %u: dart %d listed twice", f.label(), d.label());
                if((int)d.leftFaceLabel() != (int)f.label()) return fmt("face %u: dart %d", f.label(), d.label());
                std::vector<Vector2> p; for(unsigned i = 0; i < d.size(); ++i) p.push_back(d[i]); a += polyArea(p);
                if(++steps > 10000) return "endless contour"; } while(d.nextPhi() != s);
            bool outer = f.label() && ci == 0;
            // sign convention: outer contours have the sign of Polygon::partialArea() > 0
            double pa = 0; GeoMap::Dart q = *c; do pa += q.partialArea(); while(q.nextPhi() != s);
            if(!near(std::fabs(pa), std::fabs(a))) return fmt("face %u: contour area %g, measured %g", f.label(), pa, a);
            if(outer != (pa > 0)) return fmt("face %u: contour %d has area %g", f.label(), ci, pa);
        }
        if(f.label()) {
            if(!near(f.area(), o.size[r])) return fmt("face %u: area %g, region has %d pixels", f.label(), f.area(), o.size[r]);
            if(labelImage && (int)f.pixelArea() != o.size[r]) return fmt("face %u: pixelArea %u, region has %d pixels", f.label(), f.pixelArea(), o.size[r]);
        }
    }
    for(GeoMap::EdgeIterator it = g.edgesBegin(); it.inRange(); ++it) { int l = (*it)->label(); if(!dartSeen[2 * l] || !dartSeen[2 * l + 1]) return fmt("a dart of edge %d is in no contour", l); }
    for(int y = 0; y < im.h; ++y) for(int x = 0; x < im.w; ++x) {
        int f = faceOf[o.region(x, y) + 1];
        GeoMap::FacePtr fp = g.faceAt(Vector2(x, y));
        if(!fp || (int)fp->label() != f) return fmt("faceAt(%d,%d) = %d, expected %d", x, y, fp ? (int)fp->label() : -1, f);
        if(!g.face(f)->contains(Vector2(x, y))) return fmt("face %d does not contain (%d,%d)", f, x, y);
    }
    if(labelImage) { GeoMap::LabelImageIterator li = g.labelsUpperLeft(); GeoMap::LabelImageAccessor a = g.labelAccessor();
        for(int y = 0; y < im.h; ++y) for(int x = 0; x < im.w; ++x) { int got = a(li, vigra::Diff2D(x, y)), f = faceOf[o.region(x, y) + 1]; if(got != f) return fmt("label image (%d,%d) = %d, expected %d", x, y, got, f); } }
    // source labels
    { std::vector<CellLabel> sl(g.maxFaceLabel() + 2, 4711); gen.getSourceLabels(vigra::srcImage(src), &sl);
      for(size_t i = 0; i < sl.size(); ++i) { CellLabel want = i && i < regOf.size() && regOf[i] >= 0 ? o.label[regOf[i]] : 4711; if(sl[i] != want) return fmt("source label of face %zu is %u, expected %u", i, sl[i], want); } }
    if(!mid) return "";
    // ---------------------------------------------------------------- midcracks
    for(GeoMap::FaceIterator it = g.facesBegin(); it.inRange(); ++it) { (*it)->area(); if((*it)->label()) (*it)->boundingBox(); }
    unsigned nc = g.nodeCount(), ec = g.edgeCount(), fc = g.faceCount();
    crackEdgesToMidcracks(g); vf::count("transitions");
    if(nc != g.nodeCount() || ec != g.edgeCount() || fc != g.faceCount()) return "midcracks: number of cells changed";
    if(!g.checkConsistency()) return "midcracks: checkConsistency() fails";
    auto cmp = [&](const char *what, std::map<int, std::vector<Vector2> > &want) -> std::string {
        for(GeoMap::EdgeIterator it = g.edgesBegin(); it.inRange(); ++it) {
            GeoMap::Edge &e = **it; std::vector<Vector2> &w = want[e.label()];
            if(e.size() != w.size()) return fmt("%s: edge %u has %zu points, expected %zu", what, e.label(), (size_t)e.size(), w.size());
            for(size_t i = 0; i < w.size(); ++i) if(!near(e[i][0], w[i][0]) || !near(e[i][1], w[i][1])) return fmt("%s: edge %u point %zu is (%g,%g), expected (%g,%g)", what, e.label(), i, e[i][0], e[i][1], w[i][0], w[i][1]);
            double len = 0; for(size_t i = 1; i < w.size(); ++i) len += std::hypot(w[i][0] - w[i-1][0], w[i][1] - w[i-1][1]);
            if(!near(e.length(), len)) return fmt("%s: edge %u length %g, expected %g", what, e.label(), e.length(), len);
            if(!near(std::fabs(e.partialArea()), std::fabs(polyArea(w)))) return fmt("%s: edge %u area", what, e.label());
            if(e.startNode()->position() != e[0] || e.endNode()->position() != e[e.size()-1]) return fmt("%s: edge %u does not end at its nodes", what, e.label()); }
        for(GeoMap::FaceIterator it = g.facesBegin(); it.inRange(); ++it) { GeoMap::Face &f = **it; double a = 0;
            if(!f.label()) continue;
            for(GeoMap::Face::ContourIterator c = f.contoursBegin(); c != f.contoursEnd(); ++c) { GeoMap::Dart d = *c, s = d; do { std::vector<Vector2> p = want[std::abs(d.label())]; if(d.label() < 0) std::reverse(p.begin(), p.end()); a += polyArea(p); } while(d.nextPhi() != s); }
            if(!near(std::fabs(a), f.area())) return fmt("%s: face %u area %g, expected %g", what, f.label(), f.area(), std::fabs(a));
            vigra::Box<double, 2> b; bool first = true; double x0 = 0, y0 = 0, x1 = 0, y1 = 0; GeoMap::Dart d = f.contour(), s = d;
            do { for(auto &p : want[std::abs(d.label())]) { if(first) { x0 = x1 = p[0]; y0 = y1 = p[1]; first = false; } x0 = std::min(x0, p[0]); x1 = std::max(x1, p[0]); y0 = std::min(y0, p[1]); y1 = std::max(y1, p[1]); } } while(d.nextPhi() != s);
            b = f.boundingBox(); if(!near(b.begin()[0], x0) || !near(b.begin()[1], y0) || !near(b.end()[0], x1) || !near(b.end()[1], y1)) return fmt("%s: face %u bounding box", what, f.label()); }
        // scanlines and label image follow the new geometry
        std::map<int, ref::Poly> pol; for(auto &w : want) for(auto &q : w.second) pol[w.first].push_back(ref::P2{q[0], q[1]});
        std::map<int, unsigned> cnt;
        for(int y = 0; y < im.h; ++y) for(int x = 0; x < im.w; ++x) {
            int lo = 0, hi = 0;
            for(auto &w : pol) { int c = ref::pixelCrossed(w.second, x, y); if(c == ref::YES) ++lo, ++hi; else if(c == ref::MAYBE) ++hi; else continue;
                if(c != ref::YES) continue;
                const vigra::Scanlines &sl = g.edge(w.first)->scanLines(); bool cov = false;
                if(y >= sl.startIndex() && y < sl.endIndex()) for(auto &s : sl[y]) if(s.begin <= x && x < s.end) cov = true;
                if(!cov) return fmt("%s: edge %d crosses pixel (%d,%d), but its scanlines do not", what, w.first, x, y); }
            if(!labelImage) continue;
            int got = g.labelAccessor()(g.labelsUpperLeft(), vigra::Diff2D(x, y));
            if(got >= 0) ++cnt[got];
            if(lo == hi && lo) { if(got != -lo) return fmt("%s: pixel (%d,%d) has label %d, but %d edges cross it", what, x, y, got, lo); }
            else if(!hi) {
                int in = 0;
                for(GeoMap::FaceIterator it = g.finiteFacesBegin(); it.inRange(); ++it) { bool ins = false;
                    for(GeoMap::Face::ContourIterator c = (*it)->contoursBegin(); c != (*it)->contoursEnd(); ++c) { GeoMap::Dart d = *c, s = d; do ins ^= ref::inside(pol[std::abs(d.label())], ref::P2{(double)x, (double)y}); while(d.nextPhi() != s); }
                    if(ins) in = (*it)->label(); }
                if(got != in) return fmt("%s: pixel (%d,%d) has label %d, but lies in face %d", what, x, y, got, in); } }
        if(labelImage) for(GeoMap::FaceIterator it = g.facesBegin(); it.inRange(); ++it) if((*it)->pixelArea() != cnt[(*it)->label()]) return fmt("%s: face %u pixelArea() %u, but %u pixels carry its label", what, (*it)->label(), (*it)->pixelArea(), cnt[(*it)->label()]);
        return ""; };
    std::map<int, std::vector<Vector2> > want;
    for(auto &e : orig) { std::vector<Vector2> &p = e.second, &w = want[e.first]; GeoMap::EdgePtr ed = g.edge(e.first);
        std::vector<Vector2> m; for(size_t i = 1; i < p.size(); ++i) m.push_back((p[i] + p[i-1]) * 0.5);
        if(ed->isLoop() && ed->startNode()->degree() == 2) { // closed curve without junction: any of the midpoints may become the anchor
            size_t k = 0; for(; k < m.size(); ++k) if(m[k] == (*ed)[0]) break;
            if(k == m.size()) return fmt("midcracks: loop %d is not anchored at a crack midpoint", e.first);
            for(size_t i = 0; i <= m.size(); ++i) w.push_back(m[(k + i) % m.size()]); }
        else { w.push_back(p.front()); for(auto &q : m) w.push_back(q); w.push_back(p.back()); } }
    std::string r = cmp("midcracks", want); if(!r.empty()) return r;
    for(GeoMap::NodeIterator it = g.nodesBegin(); it.inRange(); ++it) { GeoMap::NodePtr n = g.nearestNode((*it)->position()); if(!n || n->label() != (*it)->label()) return fmt("midcracks: node %u is not found at its position", (*it)->label()); }
    // ---------------------------------------------------------------- threshold contours of a grey image
    if(im.w < 2 || im.h < 2) return "";
    std::set<int> vals(im.v.begin(), im.v.end()); if(vals.size() != 2 || *vals.begin() != 0) return "";
    // a grey image whose thresholding at 0.5 is this label image
    vigra::DImage grey(im.w, im.h); for(int y = 0; y < im.h; ++y) for(int x = 0; x < im.w; ++x) { double q = (3 * x + 5 * y) % 4 / 8.0; grey(x, y) = im.at(x, y) ? 0.625 + q : 0.375 - q; }
    for(GeoMap::FaceIterator it = g.facesBegin(); it.inRange(); ++it) (*it)->area();
    midcracksToThreshold(g, vigra::srcImage(grey), 0.5); vf::count("transitions");
    for(GeoMap::EdgeIterator it = g.edgesBegin(); it.inRange(); ++it) { GeoMap::Edge &e = **it; if(e.flag(GeoMap::Edge::BORDER_PROTECTION)) continue;
        for(Vector2 &p : want[e.label()]) {
            bool ix = p[0] == std::floor(p[0]), iy = p[1] == std::floor(p[1]);
            if(ix == iy) continue;       // junctions stay where they are
            int x = (int)std::floor(p[0]), y = (int)std::floor(p[1]); double v1 = grey(x, y), v2 = ix ? grey(x, y + 1) : grey(x + 1, y);
            p[ix ? 1 : 0] = (ix ? y : x) + (0.5 - v1) / (v2 - v1); } }
    r = cmp("threshold", want); if(!r.empty()) return r;
    if(!g.checkConsistency()) return "threshold: checkConsistency() fails";
    return "";
}
static std::string name(const Img &im) { std::string s = fmt("%dx%d/", im.w, im.h); for(int v : im.v) s += (char)('0' + v); return s; }
static void one(const Img &im, bool asCase) {
    if(asCase && !vf::mine(name(im))) return;
    vf::count("states");
    for(int k = 0; k < 4; ++k) {
        bool eight = k & 1, li = k & 2;
        vf::setDetail(fmt("%s %d-connected label image %d", name(im).c_str(), eight ? 8 : 4, li));
        std::string r; vf::count("traces");
        try { r = check(im, eight, li, true); } catch(std::exception &e) { r = std::string("exception: ") + e.what(); }
        if(!r.empty()) { vf::viol(r.substr(0, r.find(':')).substr(0, 12), fmt("%s, %d-connected%s: ", name(im).c_str(), eight ? 8 : 4, li ? ", label image" : "") + r); return; } }
}
static void all(int w, int h, int labels, int ring = -1) {     // ring: surround by a frame of that label
    int n = w * h; uint64_t total = 1; for(int i = 0; i < n; ++i) total *= labels;
    const uint64_t CH = 256;
    for(uint64_t c = 0; c < total; c += CH) {
        if(!vf::mine(fmt("%dx%d/%d%s/%llu", w, h, labels, ring < 0 ? "" : fmt("r%d", ring).c_str(), (unsigned long long)c))) continue;
        for(uint64_t i = c; i < std::min(total, c + CH) && !vf::tooMany(); ++i) {
            Img im; uint64_t q = i; std::vector<int> v; for(int k = 0; k < n; ++k) { v.push_back(q % labels); q /= labels; }
            if(ring < 0) { im.w = w; im.h = h; im.v = v; } else { im.w = w + 2; im.h = h + 2; im.v.assign(im.w * im.h, ring); for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x) im.v[(y+1) * im.w + x + 1] = v[y * w + x]; }
            one(im, false); } }
}
// all two-label images in which one of the labels occurs at most k times
static void few(int w, int h, int k) {
    int n = w * h; std::vector<int> pos;
    std::function<void(int)> rec = [&](int from) {
        if(pos.size() <= 3 ? vf::mine(fmt("few%dx%d/%s", w, h, [&] { std::string s; for(int p : pos) s += fmt("%d,", p); return s; }().c_str())) : true) {
            if(vf::tooMany()) return;
            for(int inv = 0; inv < 2; ++inv) { Img im; im.w = w; im.h = h; im.v.assign(n, inv); for(int p : pos) im.v[p] = !inv; one(im, false); }
        } else if(pos.size() == 3) return;
        if((int)pos.size() < k) for(int p = from; p < n; ++p) { pos.push_back(p); rec(p + 1); pos.pop_back(); } };
    rec(0); }
int main(int argc, char **argv) {
    vf::init(argc, argv);
    if(vf::ctx().prop != "P11") return 3;
    bool san = vf::san(), th = vf::thorough();
    for(int w = 1; w <= 3; ++w) for(int h = 1; h <= 3; ++h) if(w * h < 9) all(w, h, w * h <= 4 ? 4 : 3);
    for(int n = 4; n <= 6; ++n) { all(n, 1, 2); all(1, n, 2); all(n, 2, 2); all(2, n, 2); }
    all(3, 3, san ? 2 : 3);
    if(!san) { all(4, 3, 2); all(3, 4, 2); all(4, 4, 2); all(3, 3, 3, 0); all(3, 3, 2, 1); all(3, 4, 2, 0); all(4, 3, 2, 0); all(4, 4, 2, 0); all(5, 3, 2); all(3, 5, 2); }
    else all(3, 3, 2, 0);
    if(th && !san) { all(4, 4, 2, 1); all(4, 3, 3); all(3, 3, 4); all(3, 4, 3); all(4, 5, 2); all(5, 4, 2); all(3, 3, 3, 1); few(5, 5, 6); }
    else if(th) { all(4, 4, 2); }
    return vf::finish();
}
