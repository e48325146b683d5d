// Model of a cell image: pixel map, dart permutation, faces; and its
// comparison with the implementation.
#pragma once
struct Model {
    int W, H;
    std::vector<char> type; std::vector<int> lab;       // per pixel: cell type and the implementation's label
    struct MD { int pix, dir, alpha, sigma, edge, node, left; bool live; };
    std::vector<MD> d;
    std::map<int, int> dartAt;                          // pix*8+dir -> dart
    std::set<int> nodes, edges, faces;                  // live labels
    std::map<int, std::set<int>> isolated;              // face label -> isolated node labels
    std::vector<int> inv;                               // inverse of sigma
    std::string error;
    Model() {}
    Model(const Ref &r, const CM &m) : W(r.W), H(r.H), type(r.type), lab(r.W * r.H, -1) {
        // labels are free, but must be one-to-one with the cells
        std::map<int, int> ren[3], back[3];
        if(m.cellImage.width() != W || m.cellImage.height() != H) { error = "wrong cell image size"; return; }
        for(int y = 0; y < H; ++y) for(int x = 0; x < W; ++x) {
            vc::CellPixel p = m.cellImage(x, y); int i = r.at(x, y), t = type[i], c = r.cell[i];
            if((int)p.type() != t) { error = fmt("pixel (%d,%d) has type %d, expected %d", x - 2, y - 2, (int)p.type(), t); return; }
            auto a = ren[t].insert(std::make_pair(c, (int)p.label())).first; auto b = back[t].insert(std::make_pair((int)p.label(), c)).first;
            if(a->second != (int)p.label() || b->second != c) { error = fmt("pixel (%d,%d) of type %d has label %d, but belongs to the cell labelled %d", x - 2, y - 2, t, (int)p.label(), a->second); return; }
            lab[i] = p.label(); }
        for(auto &k : ren[0]) faces.insert(k.second); for(auto &k : ren[1]) edges.insert(k.second); for(auto &k : ren[2]) nodes.insert(k.second);
        if(ren[0][0] != 0) { error = "the outside is not face 0"; return; }
        for(size_t i = 0; i < r.darts.size(); ++i) {
            d.push_back(MD{r.darts[i].pix, r.darts[i].dir, r.alpha[i], r.sigma[i], ren[1][r.edgeOf[i]], ren[2][r.nodeOf[i]], ren[0][r.left[i]], true});
            dartAt[r.darts[i].pix * 8 + r.darts[i].dir] = i; }
        for(int f = 0; f < r.nFaces; ++f) for(int n : r.singularIn[f]) isolated[ren[0][f]].insert(ren[2][n]);
        reinv(); }
    void reinv() { inv.assign(d.size(), -1); for(size_t i = 0; i < d.size(); ++i) if(d[i].live) inv[d[i].sigma] = i; }
    int phi(int i) const { return inv[d[i].alpha]; }
    int dartOf(const DT &t) const {
        auto c = t.centerCoordinate(); auto it = dartAt.find(((c.y + 2) * W + c.x + 2) * 8 + t.direction());
        return it == dartAt.end() || !d[it->second].live ? -1 : it->second; }
    DT dart(CM &m, int i) const { return DT(&m, (DT::Serialized)((unsigned)d[i].dir << 28 | (d[i].pix % W) << 14 | d[i].pix / W)); }
    template<class C> std::string cellInfo(const C &c, int label, int t, const char *what, bool noSize) const {
        if(!c.initialized()) return fmt("%s %d does not exist", what, label);
        if((int)c.label != label) return fmt("%s %d has label %d", what, label, (int)c.label);
        unsigned n = 0; int x0 = 1 << 20, y0 = 1 << 20, x1 = -1, y1 = -1;
        for(int p = 0; p < W * H; ++p) if(type[p] == t && lab[p] == label) { ++n; int x = p % W - 2, y = p / W - 2; x0 = std::min(x0, x); x1 = std::max(x1, x + 1); y0 = std::min(y0, y); y1 = std::max(y1, y + 1); }
        if(!noSize && c.size != n) return fmt("%s %d has size %u, expected %u", what, label, c.size, n);
        if(!(c.bounds == vigra::Rect2D(x0, y0, x1, y1))) return fmt("%s %d has bounds (%d,%d)-(%d,%d), expected (%d,%d)-(%d,%d)", what, label, c.bounds.left(), c.bounds.top(), c.bounds.right(), c.bounds.bottom(), x0, y0, x1, y1);
        return ""; }
    // everything observable about m is as in the model
    std::string compare(CM &m, bool pixelIterators = true) const {
        std::string e;
        for(int p = 0; p < W * H; ++p) { vc::CellPixel q = m.cellImage(p % W, p / W);
            if((int)q.type() != type[p] || (int)q.label() != lab[p]) return fmt("pixel (%d,%d) is %d/%d, expected %d/%d", p % W - 2, p / W - 2, (int)q.type(), (int)q.label(), type[p], lab[p]); }
        if(m.nodeCount() != nodes.size()) return fmt("nodeCount() %u, expected %u", m.nodeCount(), (unsigned)nodes.size());
        if(m.edgeCount() != edges.size()) return fmt("edgeCount() %u, expected %u", m.edgeCount(), (unsigned)edges.size());
        if(m.faceCount() != faces.size()) return fmt("faceCount() %u, expected %u", m.faceCount(), (unsigned)faces.size());
        std::vector<int> ns, es, fs;
        for(auto it = m.nodesBegin(); it.inRange(); ++it) ns.push_back(it->label);
        for(auto it = m.edgesBegin(); it.inRange(); ++it) es.push_back(it->label);
        for(auto it = m.facesBegin(); it.inRange(); ++it) fs.push_back(it->label);
        if(ns != std::vector<int>(nodes.begin(), nodes.end())) return "node iteration wrong";
        if(es != std::vector<int>(edges.begin(), edges.end())) return "edge iteration wrong";
        if(fs != std::vector<int>(faces.begin(), faces.end())) return "face iteration wrong";
        for(int n : nodes) if(!(e = cellInfo(m.node(n), n, 2, "node", false)).empty()) return e;
        for(int n : edges) if(!(e = cellInfo(m.edge(n), n, 1, "edge", false)).empty()) return e;
        for(int n : faces) if(!(e = cellInfo(m.face(n), n, 0, "face", n == 0)).empty()) return e;
        // darts
        std::map<int, int> deg; size_t live = 0;
        for(size_t i = 0; i < d.size(); ++i) if(d[i].live) {
            ++live; ++deg[d[i].node];
            DT t = dart(m, i);
            struct { const char *n; int want; DT got; } st[] = {
                {"nextSigma", d[i].sigma, DT(t).nextSigma()}, {"prevSigma", inv[i], DT(t).prevSigma()}, {"nextAlpha", d[i].alpha, DT(t).nextAlpha()}, {"prevAlpha", d[i].alpha, DT(t).prevAlpha()},
                {"nextPhi", inv[d[i].alpha], DT(t).nextPhi()}, {"prevPhi", d[d[i].sigma].alpha, DT(t).prevPhi()} };
            for(auto &s : st) if(dartOf(s.got) != s.want || s.got.isSingular()) return fmt("dart %s: %s yields %s, expected %s", pos(t).c_str(), s.n, pos(s.got).c_str(), pos(dart(m, s.want)).c_str());
            if(t.isSingular()) return "dart is singular";
            if((int)t.edgeLabel() != d[i].edge || (int)t.startNodeLabel() != d[i].node || (int)t.endNodeLabel() != d[d[i].alpha].node) return fmt("dart %s: wrong edge/node labels", pos(t).c_str());
            if((int)t.leftFaceLabel() != d[i].left || (int)t.rightFaceLabel() != d[d[i].alpha].left)
                return fmt("dart %s: left/right face %d/%d, expected %d/%d", pos(t).c_str(), (int)t.leftFaceLabel(), (int)t.rightFaceLabel(), d[i].left, d[d[i].alpha].left);
            if(&t.edge() != &m.edge(d[i].edge) || &t.leftFace() != &m.face(d[i].left) || &t.rightFace() != &m.face(d[d[i].alpha].left) || &t.startNode() != &m.node(d[i].node) || &t.endNode() != &m.node(d[d[i].alpha].node)) return "dart refers to wrong cells"; }
        for(int n : nodes) {
            if(m.node(n).degree != deg[n]) return fmt("node %d has degree %d, expected %d", n, (int)m.node(n).degree, deg[n]);
            const DT &a = m.node(n).anchor;
            if((int)a.startNodeLabel() != n || a.neighborCirculator().center()->type() != vc::CellTypeVertex) return fmt("node %d: anchor belongs to another cell", n);
            if(a.isSingular() != !deg[n]) return fmt("node %d of degree %d: anchor isSingular() is %d", n, deg[n], (int)a.isSingular());
            if(!deg[n]) { int f = -1; for(auto &k : isolated) if(k.second.count(n)) f = k.first;
                if((int)a.leftFaceLabel() != f || (int)a.rightFaceLabel() != f) return fmt("isolated node %d: left/right face %d/%d, expected %d", n, (int)a.leftFaceLabel(), (int)a.rightFaceLabel(), f);
                DT t(a); t.nextSigma(); t.prevSigma(); t.nextAlpha(); t.nextPhi(); t.prevPhi(); t.prevAlpha(); if(t != a || !(t == a) || (int)t.endNodeLabel() != n) return fmt("isolated node %d: singular dart moves", n); }
            if(deg[n] && dartOf(a) < 0) return fmt("node %d: anchor %s is no dart", n, pos(a).c_str()); }
        for(int n : edges) { auto &x = m.edge(n); int s = dartOf(x.start), t = dartOf(x.end);
            if(s < 0 || t < 0 || d[s].alpha != t || d[s].edge != n) return fmt("edge %d: start/end %s %s are not its darts", n, pos(x.start).c_str(), pos(x.end).c_str());
            if(x.isLoop() != (d[s].node == d[t].node) || x.isBridge() != (d[s].left == d[t].left)) return fmt("edge %d: isLoop()/isBridge() wrong", n); }
        // contours
        std::map<int, std::multiset<int>> want, got;
        std::vector<int> orb(d.size(), -1);
        for(size_t i = 0; i < d.size(); ++i) if(d[i].live && orb[i] < 0) { for(int j = i; orb[j] < 0; j = phi(j)) { orb[j] = i; if(d[j].left != d[i].left) return "MODEL ERROR: contour with two faces"; } want[d[i].left].insert(i); }
        for(auto &f : isolated) for(int n : f.second) want[f.first].insert(-n);
        for(int f : faces) for(auto &c : m.face(f).contours) {
            if(c.segmentation() != &m) return "contour of another map";
            if(c.neighborCirculator().center()->type() != vc::CellTypeVertex) return fmt("face %d: contour anchor %s is not at a node", f, pos(c).c_str());
            if(c.isSingular()) { if(deg[c.startNodeLabel()]) return fmt("face %d: contour anchor %s is no dart", f, pos(c).c_str()); if((int)c.leftFaceLabel() != f) return fmt("face %d: singular contour anchor %s has face %d to its left", f, pos(c).c_str(), (int)c.leftFaceLabel()); got[f].insert(-(int)c.startNodeLabel()); }
            else { int i = dartOf(c); if(i < 0) return fmt("face %d: contour anchor %s is no dart", f, pos(c).c_str()); got[f].insert(orb[i]); } }
        for(int f : faces) if(want[f] != got[f]) return fmt("face %d: %d contours listed, %d exist (or different ones)", f, (int)got[f].size(), (int)want[f].size());
        // Euler relation
        { std::map<int, int> comp; for(int n : nodes) comp[n] = n;
          std::function<int(int)> find = [&](int a) { while(comp[a] != a) a = comp[a]; return a; };
          for(auto &x : d) if(x.live) comp[find(x.node)] = find(d[x.alpha].node);
          int c = 0; for(int n : nodes) c += comp[n] == n;
          if((int)nodes.size() - (int)edges.size() + (int)faces.size() != 1 + c) return fmt("Euler relation violated: %d - %d + %d != 1 + %d", (int)nodes.size(), (int)edges.size(), (int)faces.size(), c); }
        // pixel iterators
        if(pixelIterators) {
            for(int t = 0; t < 3; ++t) for(int n : (t == 0 ? faces : t == 1 ? edges : nodes)) for(int crop = 0; crop < 2; ++crop) {
                std::vector<int> w, g;
                for(int p = 0; p < W * H; ++p) if(type[p] == t && lab[p] == n) { int x = p % W - 2, y = p / W - 2; if(!crop || (x >= 0 && y >= 0 && x < W - 4 && y < H - 4)) w.push_back(p); }
                vigra::Point2D o(0, 0);
                auto it = t == 0 ? m.faceScanIterator(n, o, crop) : t == 1 ? m.edgeScanIterator(n, o, crop) : m.nodeScanIterator(n, o, crop);
                for(int guard = 0; it.inRange() && guard <= W * H; ++it, ++guard) { vigra::Point2D p = *it; g.push_back((p.y + 2) * W + p.x + 2); }
                if(w != g) return fmt("pixels of cell %d (type %d) are iterated wrongly", n, t); } }
        return ""; }
    // ---- operations: same preconditions and effects as specified ----
    struct Op { int kind, dart, node; };   // kind 0 removeIsolatedNode 1 mergeFaces 2 removeBridge 3 mergeEdges; dart index or (dart -1) isolated node
    std::vector<Op> allOps() const {       // every operation on every dart / isolated node, legal or not
        std::vector<Op> r;
        for(auto &f : isolated) for(int n : f.second) for(int k = 0; k < 4; ++k) r.push_back(Op{k, -1, n});
        for(size_t i = 0; i < d.size(); ++i) if(d[i].live) for(int k = 0; k < 4; ++k) r.push_back(Op{k, (int)i, d[i].node});
        return r; }
    int degree(int n) const { int c = 0; for(auto &x : d) c += x.live && x.node == n; return c; }
    bool legal(const Op &o) const {
        if(o.dart < 0) return o.kind == 0;
        const MD &x = d[o.dart];
        if(o.kind == 1) return x.left != d[x.alpha].left;
        if(o.kind == 2) return x.left == d[x.alpha].left;
        if(o.kind == 3) return degree(x.node) == 2 && d[x.sigma].edge != x.edge;
        return false; }
    std::string name(const Op &o) const { static const char *n[] = {"removeIsolatedNode", "mergeFaces", "removeBridge", "mergeEdges"};
        return o.dart < 0 ? fmt("%s(node %d)", n[o.kind], o.node) : fmt("%s((%d,%d)%d)", n[o.kind], d[o.dart].pix % W - 2, d[o.dart].pix / W - 2, d[o.dart].dir); }
    void paint(int t, int l, int t2, int l2) { for(int p = 0; p < W * H; ++p) if(type[p] == t && lab[p] == l) { type[p] = t2; lab[p] = l2; } }
    void detach(int i) { int p = inv[i], s = d[i].sigma; d[p].sigma = s; inv[s] = p; d[i].live = false; inv[i] = -1; }
    double boundsArea(int t, int l) const { int x0 = 1 << 20, y0 = 1 << 20, x1 = -1, y1 = -1;
        for(int p = 0; p < W * H; ++p) if(type[p] == t && lab[p] == l) { int x = p % W, y = p / W; x0 = std::min(x0, x); x1 = std::max(x1, x + 1); y0 = std::min(y0, y); y1 = std::max(y1, y + 1); }
        return double(x1 - x0) * (y1 - y0); }
    // apply a legal operation of which the implementation returned the cell labelled ret
    std::string apply(const Op &o, int ret) {
        if(o.kind == 0) {
            int f = -1; for(auto &k : isolated) if(k.second.count(o.node)) f = k.first;
            if(ret != f) return fmt("returned face %d, expected %d", ret, f);
            isolated[f].erase(o.node); nodes.erase(o.node); paint(2, o.node, 0, f); return ""; }
        int a = o.dart, b = d[a].alpha;
        if(o.kind == 3) {
            int c = d[a].sigma, e1 = d[a].edge, e2 = d[c].edge; double s1 = boundsArea(1, e1), s2 = boundsArea(1, e2);
            if(ret != e1 && ret != e2) return fmt("returned edge %d, expected %d or %d", ret, e1, e2);
            if((ret == e1 && s1 < s2) || (ret == e2 && s2 < s1)) return "the edge with the smaller extent survived";
            int m = ret == e1 ? e2 : e1, n = d[a].node, A = d[a].alpha, B = d[c].alpha;
            detach(a); detach(c); d[A].alpha = B; d[B].alpha = A; d[A].edge = d[B].edge = ret;
            paint(2, n, 1, ret); paint(1, m, 1, ret); nodes.erase(n); edges.erase(m); return ""; }
        int f = d[a].left, g = d[b].left, s = f, e = d[a].edge, n1 = d[a].node, n2 = d[b].node;
        if(o.kind == 1) {
            double s1 = boundsArea(0, f), s2 = boundsArea(0, g);
            if(ret != f && ret != g) return fmt("returned face %d, expected %d or %d", ret, f, g);
            if((ret == f && s1 < s2) || (ret == g && s2 < s1)) return "the face with the smaller extent survived";
            s = ret; int m = s == f ? g : f;
            for(auto &x : d) if(x.left == m) x.left = s;
            isolated[s].insert(isolated[m].begin(), isolated[m].end()); isolated.erase(m);
            paint(0, m, 0, s); faces.erase(m); }
        else if(ret != f) return fmt("returned face %d, expected %d", ret, f);
        detach(a); detach(b); paint(1, e, 0, s); edges.erase(e);
        if(!degree(n1)) isolated[s].insert(n1);
        if(!degree(n2)) isolated[s].insert(n2);
        return ""; }
};
// performs o on m; returns the label of the surviving cell
inline int perform(CM &m, const Model &md, const Model::Op &o) {
    DT t = o.dart >= 0 ? md.dart(m, o.dart) : m.node(o.node).anchor;
    switch(o.kind) { case 0: return m.removeIsolatedNode(t).label; case 1: return m.mergeFaces(t).label; case 2: return m.removeBridge(t).label; default: return m.mergeEdges(t).label; } }
// full representation of an implementation state
inline std::string repr(const CM &m) {
    std::string s; auto num = [&](unsigned v) { s.append((const char *)&v, 4); };
    for(int y = 0; y < m.cellImage.height(); ++y) for(int x = 0; x < m.cellImage.width(); ++x) num(vc::CellPixelSerializer()(m.cellImage(x, y)));
    for(auto it = m.nodesBegin(); it.inRange(); ++it) { num(it->label); num(it->size); num(it->degree); num(it->anchor.serialize()); }
    for(auto it = m.edgesBegin(); it.inRange(); ++it) { num(it->label); num(it->size); num(it->start.serialize()); num(it->end.serialize()); }
    for(auto it = m.facesBegin(); it.inRange(); ++it) { num(it->label); num(it->size); num(it->bounds.left()); num(it->bounds.top()); num(it->bounds.right()); num(it->bounds.bottom()); num(it->contours.size()); for(auto &c : it->contours) num(c.serialize()); }
    num(m.nodeCount()); num(m.edgeCount()); num(m.faceCount());
    return s; }
