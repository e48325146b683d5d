// Families of planar drawings from which maps are built.
#pragma once
#include "refmap.hpp"
namespace scn {
using ref::P2; using ref::Poly;
struct SEdge { int a, b; Poly pts; };
struct Scene { std::string name; std::vector<P2> nodes; std::vector<SEdge> edges; int W, H;
    int node(double x, double y) { nodes.push_back(P2{x, y}); return nodes.size() - 1; }
    void edge(int a, int b, Poly mid = {}) { SEdge e; e.a = a; e.b = b; e.pts.push_back(nodes[a]); for(auto &p : mid) e.pts.push_back(p); e.pts.push_back(nodes[b]); edges.push_back(e); }
    void square(int n, double s) { P2 p = nodes[n]; edge(n, n, {P2{p.x + s, p.y}, P2{p.x + s, p.y + s}, P2{p.x, p.y + s}}); }
};
// nx x ny lattice of nodes, all horizontal and vertical neighbour edges;
// bend: give every edge an intermediate point
inline Scene grid(int nx, int ny, double off, double step, bool bend, const char *name) {
    Scene s; s.name = name; s.W = (int)(2 * off + step * (nx - 1)) + 2; s.H = (int)(2 * off + step * (ny - 1)) + 2;
    for(int y = 0; y < ny; ++y) for(int x = 0; x < nx; ++x) s.node(off + step * x, off + step * y);
    auto add = [&](int a, int b) {
        P2 p = s.nodes[a], q = s.nodes[b]; P2 m{(p.x + q.x) / 2, (p.y + q.y) / 2};
        if(bend) { if(p.y == q.y) m.y += 0.5; else m.x += 0.5; s.edge(a, b, {m}); } else s.edge(a, b); };
    for(int y = 0; y < ny; ++y) for(int x = 0; x < nx; ++x) {
        if(x + 1 < nx) add(y * nx + x, y * nx + x + 1);
        if(y + 1 < ny) add(y * nx + x, (y + 1) * nx + x); }
    return s; }
inline Scene nest() {
    Scene s; s.name = "nest"; s.W = 16; s.H = 16;
    int A = s.node(1.25, 1.25), B = s.node(2.25, 2.25), C = s.node(4.25, 4.25), D = s.node(6.25, 6.25), E = s.node(7.75, 6.25), F = s.node(11.25, 11.25);
    s.square(A, 13); s.square(B, 11); s.square(C, 5); s.square(F, 1.25);
    s.edge(A, B); s.edge(B, C); s.edge(C, F, {P2{3.25, 5.25}, P2{3.25, 11.25}}); s.edge(D, E);
    return s; }
inline Scene loops() {
    Scene s; s.name = "loops"; s.W = 16; s.H = 16;
    int O = s.node(8.25, 8.25), Q = s.node(14.25, 12.25), R = s.node(9.75, 6.75);
    s.edge(O, O, {P2{12.25, 7.25}, P2{12.25, 4.25}, P2{9.25, 4.25}});
    s.edge(O, O, {P2{10.75, 6.75}, P2{9.75, 5.75}});
    s.edge(O, O, {P2{4.25, 9.25}, P2{4.25, 12.25}, P2{7.25, 12.25}});
    s.edge(O, O, {P2{2.25, 8.5}, P2{2.25, 14.25}, P2{8.5, 14.25}});
    s.edge(O, Q); s.edge(O, Q, {P2{14.25, 9.25}}); s.edge(O, R);
    return s; }
inline Scene theta() {
    Scene s; s.name = "theta"; s.W = 17; s.H = 14;
    int U = s.node(2.25, 8.25), V = s.node(13.25, 8.25), T = s.node(4.25, 7.25), X = s.node(6.25, 9.25), W = s.node(15.25, 8.25);
    s.edge(U, V, {P2{7.25, 8.5}});
    s.edge(U, V, {P2{4.25, 5.25}, P2{11.25, 5.25}});
    s.edge(V, U, {P2{13.25, 2.25}, P2{2.25, 2.25}});
    s.edge(U, V, {P2{3.25, 11.75}, P2{12.25, 11.75}});
    s.edge(T, U); s.square(X, 1.25); s.edge(V, W);
    return s; }
inline Scene border() {
    Scene s; s.name = "border"; s.W = 6; s.H = 6;
    int a = s.node(-2.25, -1.25), b = s.node(7.25, -1.25), c = s.node(7.25, 8.25), d = s.node(-2.25, 8.25), m = s.node(2.25, 2.25), o = s.node(9.25, 1.25);
    s.edge(a, b); s.edge(b, c); s.edge(c, d); s.edge(d, a); s.edge(a, m);
    s.edge(m, m, {P2{6.25, 3.25}, P2{6.25, 6.25}, P2{3.25, 7.25}});
    s.square(o, 2);
    return s; }
inline Scene chain() {   // square with pendant path and a diagonal-ish bent edge
    Scene s; s.name = "chain"; s.W = 10; s.H = 9;
    int a = s.node(1.25, 1.25), b = s.node(5.25, 1.75), c = s.node(4.75, 5.25), d = s.node(1.75, 4.75), e = s.node(7.25, 6.25), f = s.node(8.25, 3.25);
    s.edge(a, b, {P2{3.25, 2.25}}); s.edge(b, c); s.edge(c, d, {P2{3.5, 6.25}}); s.edge(d, a); s.edge(c, e); s.edge(e, f, {P2{7.75, 5.0}});
    return s; }
inline Scene rings() {   // three nested rings with 2 nodes each + island; ring areas smaller than cores
    Scene s; s.name = "rings"; s.W = 15; s.H = 15;
    int a = s.node(0.75, 0.75), b = s.node(13.75, 13.75), c = s.node(2.25, 2.25), d = s.node(12.25, 12.25), i = s.node(6.25, 6.25), j = s.node(8.25, 8.25);
    s.edge(a, b, {P2{13.75, 0.75}}); s.edge(b, a, {P2{0.75, 13.75}});
    s.edge(c, d, {P2{12.25, 2.25}}); s.edge(c, d, {P2{2.25, 12.25}});
    s.edge(i, j, {P2{8.25, 6.25}}); s.edge(j, i, {P2{6.25, 8.25}}); s.edge(i, j);
    return s; }
inline Scene twins() {   // several components side by side in one face, islands in islands
    Scene s; s.name = "twins"; s.W = 16; s.H = 12;
    int a = s.node(1.25, 1.25), b = s.node(3.25, 3.25), c = s.node(9.25, 3.25), d = s.node(10.25, 4.25), e = s.node(4.25, 4.25), f = s.node(5.5, 4.75);
    s.edge(a, a, {P2{14.25, 1.25}, P2{14.25, 10.25}, P2{1.25, 10.25}});
    s.square(b, 4); s.square(c, 4); s.square(d, 2); s.edge(e, f); s.edge(b, c, {P2{7.75, 2.25}});
    s.edge(a, b);
    return s; }
inline Scene mesh() {    // larger: 5x5 lattice, in its cells long polylines, loops, islands within islands (64 edges)
    Scene s = grid(5, 5, 1.25, 5, true, "mesh");
    for(int c = 0; c < 16; ++c) {
        double x = 1.25 + 5 * (c % 4), y = 1.25 + 5 * (c / 4);
        if(c % 4 == 0) { int n = s.node(x + 1.25, y + 1.25); s.square(n, 2.5); int k = s.node(x + 2, y + 2); s.square(k, 1); }
        else if(c % 4 == 1) { int a = s.node(x + 1.25, y + 1.25), b = s.node(x + 3.75, y + 3.75); Poly z; for(int i = 0; i < 18; ++i) z.push_back(P2{x + 1.5 + i * 0.125, y + 1.25 + (i % 2) * 1.5 + i * 0.0625}); s.edge(a, b, z); }
        else if(c % 4 == 2) { int a = s.node(x + 1.5, y + 2.5), b = s.node(x + 3.25, y + 2.5); s.edge(a, b, {P2{x + 2.25, y + 1.25}}); s.edge(b, a, {P2{x + 2.25, y + 3.75}}); }
        else { int a = s.node(x + 1.5, y + 1.5); s.edge(c / 4 * 5 + c % 4, a, {P2{x + 0.75, y + 1.25}}); }
    }
    return s; }
inline Scene dots() {    // larger: a face with 30 holes, a node with 18 spokes, some of them joined (62 edges)
    Scene s; s.name = "dots"; s.W = 30; s.H = 30;
    int o = s.node(0.75, 0.75); s.square(o, 28);
    for(int i = 0; i < 30; ++i) { int n = s.node(2.25 + 2.5 * (i % 10), 2.25 + 2.5 * (i / 10)); if(i % 3) s.square(n, 1.25); else { int k = s.node(3.25 + 2.5 * (i % 10), 3.0 + 2.5 * (i / 10)); s.edge(n, k); } }
    static const int dx[] = {8, 8, 8, 6, 4, 2, 0, -2, -4, -6, -8, -8, -8, -6, -4, -2, 2, 4}, dy[] = {0, 2, 4, 6, 7, 8, 8, 8, 7, 6, 4, 2, -1, -4, -5, -6, -6, -5};
    int h = s.node(14.25, 18.75), e[18];
    for(int i = 0; i < 18; ++i) { e[i] = s.node(14.25 + dx[i], 18.75 + dy[i]); s.edge(h, e[i]); }
    for(int i = 0; i + 1 < 18; ++i) if(i % 4 != 3) s.edge(e[i], e[i + 1]);
    return s; }
} // namespace scn
