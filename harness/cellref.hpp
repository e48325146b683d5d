// Independent reference for cell images: pixel sets, rotation system and faces
// computed from the boundary image alone.
#pragma once
#include <vector>
#include <string>
#include <map>
#include <set>
#include <queue>
#include <algorithm>
#include <functional>
#include <memory>
#include "common.hpp"
namespace cref {
using vf::fmt;
// Cell type of a boundary pixel by its 8 neighbours (bit i = neighbour i in
// the order E NE N NW W SW S SE): 1 line, 2 node, 3 must be thinned,
// 4 corner (node or line, as requested), 5 line (rejected if corners are nodes)
static const char *CONF =
    "2222242221112423211142422111223221111212122212122111425321113233241412121222121242222222422222222415121312221213222322323223223222121413112115131121222211212323112122222222222211212223112123232213121212221313422222225323323223131213122213133223223233233232";
static const int DX[8] = {1, 1, 0, -1, -1, -1, 0, 1}, DY[8] = {0, -1, -1, -1, 0, 1, 1, 1};
enum { REGION = 0, LINE = 1, NODE = 2 };
struct Dart { int pix, dir; };                 // node pixel and direction towards the first line pixel
struct Orbit { std::vector<int> darts; int face; };  // left face (-1: none)
struct Ref {
    int w, h, W, H;                            // image size, with frame
    std::vector<char> b, type;                 // boundary image, cell type
    std::vector<int> cell;                     // cell index within its type
    int nNodes = 0, nEdges = 0, nFaces = 0;
    bool rejected = false;
    std::string odd;                           // not a proper map: why
    std::vector<Dart> darts; std::vector<int> edgeOf, alpha, sigma, nodeOf, left;
    std::vector<std::vector<int>> singularIn;  // face -> isolated nodes
    std::vector<Orbit> orbits;
    int at(int x, int y) const { return y * W + x; }
    bool in(int x, int y) const { return x >= 0 && y >= 0 && x < W && y < H; }
    int nb(int p, int d) const { int x = p % W + DX[d], y = p / W + DY[d]; return in(x, y) ? at(x, y) : -1; }
    bool fg(int p) const { return p >= 0 && type[p] != REGION; }
    // edges of the plane graph on boundary pixels
    bool adj(int p, int d) const {
        int q = nb(p, d); if(q < 0 || !fg(q)) return false;
        if(!(d & 1)) return true;
        int r = nb(p, (d + 1) & 7), s = nb(p, (d + 7) & 7);
        if(type[p] == NODE && type[q] == NODE)     // nodes are 8-connected
            return !(type[r] == NODE || type[s] == NODE);
        return !fg(r) && !fg(s); }
    int findDart(int pix, int dir) const { for(size_t i = 0; i < darts.size(); ++i) if(darts[i].pix == pix && darts[i].dir == dir) return i; return -1; }
    void flood(int p0, int label, int t, bool eight) {
        std::vector<int> st(1, p0); cell[p0] = label;
        while(!st.empty()) { int p = st.back(); st.pop_back();
            for(int d = 0; d < 8; d += eight ? 1 : 2) { int q = nb(p, d); if(q >= 0 && type[q] == t && cell[q] < 0) { cell[q] = label; st.push_back(q); } } } }
    Ref(int w_, int h_, uint64_t bits, bool cornerNode) : w(w_), h(h_), W(w_ + 4), H(h_ + 4), b(W * H, 0), type(W * H, REGION), cell(W * H, -1) {
        for(int x = 1; x < W - 1; ++x) b[at(x, 1)] = b[at(x, H - 2)] = 1;
        for(int y = 1; y < H - 1; ++y) b[at(1, y)] = b[at(W - 2, y)] = 1;
        for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x) if(bits >> (y * w + x) & 1) b[at(x + 2, y + 2)] = 1;
        for(int p = 0; p < W * H; ++p) if(b[p]) {
            int c = 0; for(int d = 0; d < 8; ++d) if(b[nb(p, d)]) c |= 1 << d;
            int t = CONF[c] - '0';
            if(t == 4) t = cornerNode ? NODE : LINE;
            if(t == 5) t = cornerNode ? 3 : LINE;
            if(t == 3) { rejected = true; return; }
            type[p] = t; }
        // a corner between two pixels of one node belongs to the node
        std::vector<char> t0(type);
        for(int p = 0; p < W * H; ++p) if(t0[p] == LINE) for(int d = 0; d < 8; d += 2) if(t0[nb(p, d)] == NODE && t0[nb(p, (d + 2) & 7)] == NODE) type[p] = NODE;
        type[at(1, 1)] = NODE;
        build(); }
    void build() {
        // faces: 4-connected background; face 0 is the outside
        for(int p = 0; p < W * H; ++p) if(type[p] == REGION && cell[p] < 0) flood(p, nFaces++, REGION, false);
        for(int p = 0; p < W * H; ++p) if(type[p] == NODE && cell[p] < 0) flood(p, nNodes++, NODE, true);
        // regions enclosed by a single node's pixels belong to the node
        fillHoles();
        // edges: follow line pixels from all node pixels
        for(int p = 0; p < W * H; ++p) if(type[p] == NODE) for(int d = 0; d < 8; ++d) { int q = adj(p, d) ? nb(p, d) : -1; if(q >= 0 && type[q] == LINE) addDart(p, d); }
        for(int p = 0; p < W * H; ++p) if(type[p] == LINE) {
            int n = 0; for(int d = 0; d < 8; ++d) n += adj(p, d);
            if(n != 2) odd = fmt("line pixel (%d,%d) has %d continuations", p % W - 2, p / W - 2, n); }
        if(odd.empty()) follow();
        // closed lines: the first pixel becomes the node
        for(int p = 0; odd.empty() && p < W * H; ++p) if(type[p] == LINE && cell[p] < 0) {
            type[p] = NODE; cell[p] = nNodes++;
            for(int d = 0; d < 8; ++d) { int q = nb(p, d); if(q >= 0 && type[q] == LINE && adj(p, d)) addDart(p, d); }
            follow(); }
        if(!odd.empty()) return;
        // rotation: walk counterclockwise around the node's pixels
        sigma.assign(darts.size(), -1);
        for(size_t i = 0; i < darts.size(); ++i) {
            int p = darts[i].pix, d = darts[i].dir;
            for(int guard = 0; ; ++guard) {
                if(guard > 8 * W * H) { odd = "rotation does not close"; return; }
                d = (d + 1) & 7;
                if(!adj(p, d)) continue;
                int q = nb(p, d);
                if(type[q] == LINE) { sigma[i] = findDart(p, d); break; }
                p = q; d = (d + 4) & 7; } }
        std::vector<int> inv(darts.size(), -1);
        for(size_t i = 0; i < darts.size(); ++i) { if(sigma[i] < 0 || inv[sigma[i]] >= 0) { odd = "rotation is no permutation"; return; } inv[sigma[i]] = i; }
        // all darts of a node in one orbit
        std::map<int, int> deg; for(size_t i = 0; i < darts.size(); ++i) ++deg[nodeOf[i]];
        for(size_t i = 0; i < darts.size(); ++i) { int n = 1; for(int j = sigma[i]; j != (int)i; j = sigma[j]) ++n; if(n != deg[nodeOf[i]]) { odd = "node with several rotations"; return; } }
        // phi orbits, with the background pixels seen to their left
        left.assign(darts.size(), -2);
        for(size_t i = 0; i < darts.size(); ++i) if(left[i] == -2) {
            Orbit o; std::set<int> seen; int j = i;
            do { o.darts.push_back(j);
                 seeDart(j, seen);
                 j = inv[alpha[j]]; seeCorner(j, seen); } while(j != (int)i);
            if(seen.size() > 1) { odd = "contour borders several regions"; return; }
            o.face = seen.empty() ? -1 : *seen.begin();
            if(o.face < 0) odd = "contour without region";
            for(int k : o.darts) left[k] = o.face;
            orbits.push_back(o); }
        singularIn.assign(nFaces, std::vector<int>());
        std::vector<char> hasDart(nNodes, 0); for(int n : nodeOf) hasDart[n] = 1;
        for(int n = 0; n < nNodes; ++n) if(!hasDart[n]) {
            std::set<int> s; for(int p = 0; p < W * H; ++p) if(type[p] == NODE && cell[p] == n) for(int d = 0; d < 8; ++d) { int q = nb(p, d); if(q >= 0 && type[q] == REGION) s.insert(cell[q]); else if(q >= 0 && type[q] == LINE) odd = "isolated node touches a line"; }
            if(s.size() != 1) { odd = "isolated node borders several regions"; return; }
            singularIn[*s.begin()].push_back(n); } }
    void fillHoles() {
        // background regions whose pixels only border pixels of one node and that do not touch its outside
        std::vector<std::set<int>> around(nFaces); std::vector<char> other(nFaces, 0);
        for(int p = 0; p < W * H; ++p) if(type[p] == REGION) for(int d = 0; d < 8; ++d) { int q = nb(p, d); if(q < 0) { other[cell[p]] = 1; continue; }
            if(type[q] == NODE) around[cell[p]].insert(cell[q]); else if(type[q] == LINE && !(d & 1)) other[cell[p]] = 1; }
        std::vector<int> to(nFaces, -1); 
        for(int f = 1; f < nFaces; ++f) if(!other[f] && around[f].size() == 1) to[f] = *around[f].begin();
        std::vector<int> ren(nFaces, -1); int n = 0;
        for(int f = 0; f < nFaces; ++f) if(to[f] < 0) ren[f] = n++;
        for(int p = 0; p < W * H; ++p) if(type[p] == REGION) { int f = cell[p]; if(to[f] >= 0) { type[p] = NODE; cell[p] = to[f]; } else cell[p] = ren[f]; }
        nFaces = n; }
    void addDart(int p, int d) { darts.push_back(Dart{p, d}); edgeOf.push_back(-1); alpha.push_back(-1); nodeOf.push_back(cell[p]); }
    void follow() {
        for(size_t i = 0; i < darts.size(); ++i) if(edgeOf[i] < 0) {
            int e = nEdges++, p = darts[i].pix, q = nb(p, darts[i].dir), back = (darts[i].dir + 4) & 7;
            edgeOf[i] = e;
            for(;;) {
                cell[q] = e;
                int d = -1; for(int k = 0; k < 8; ++k) if(k != back && adj(q, k)) d = k;
                if(d < 0) { odd = "line ends"; return; }
                int r = nb(q, d);
                if(type[r] == NODE) { int j = findDart(r, (d + 4) & 7); if(j < 0) { odd = "line ends at a node without dart"; return; } alpha[i] = j; alpha[j] = i; edgeOf[j] = e; break; }
                back = (d + 4) & 7; q = r; } } }
    // background pixels in the angle between direction d0 and the next graph edge counterclockwise
    void sector(int p, int d0, std::set<int> &seen, int &pEnd, int &dEnd) const {
        int d = d0;
        for(;;) { d = (d + 1) & 7; if(adj(p, d)) break;
            int q = nb(p, d); if(type[q] == REGION) {
                if((d & 1)) { int r = nb(p, (d + 1) & 7), s = nb(p, (d + 7) & 7);   // hidden behind a diagonal connection?
                    if(type[r] == NODE && type[s] == NODE && cell[r] == cell[s] && type[p] != NODE) continue; }
                seen.insert(cell[q]); } }
        pEnd = p; dEnd = d; }
    void seeCorner(int j, std::set<int> &seen) const {      // left of dart j at its start node
        int p = darts[j].pix, d = darts[j].dir;
        for(int guard = 0; guard < 8 * W * H; ++guard) { sector(p, d, seen, p, d); int q = nb(p, d); if(type[q] == LINE) return; p = q; d = (d + 4) & 7; } }
    void seeDart(int j, std::set<int> &seen) const {        // left of dart j along its line pixels
        int q = nb(darts[j].pix, darts[j].dir), back = (darts[j].dir + 4) & 7;
        while(type[q] == LINE) { int d = -1; for(int k = 0; k < 8; ++k) if(k != back && adj(q, k)) d = k;
            int pe, de; if(d < 0) return; sector(q, d, seen, pe, de); back = (d + 4) & 7; q = nb(q, d); } }
};
} // namespace cref
