"""Shared plumbing of the Python harnesses (same protocol as common.hpp), drawings, snapshots of maps."""
import sys, os, json, signal, mmap, itertools
class Ctx: pass
C = Ctx()
C.prop, C.tier, C.only, C.part, C.shard, C.nshards, C.watchdog = "", "quick", None, "", 0, 1, 120
C.out, C.cur, C.counters, C.samples, C.case, C.nviol, C.index = None, None, {}, [], "", 0, 0
CUR = 1 << 16
def count(n, k=1): C.counters[n] = C.counters.get(n, 0) + k
def _emit(o): C.out.write(json.dumps(o) + "\n"); C.out.flush()
def _put(s):
    if C.cur: b = s.encode()[:CUR - 2] + b"\0"; C.cur[0:len(b)] = b
def detail(d): _put(C.case + " " + d)
def mine(id):
    i = C.index; C.index += 1
    if C.only is not None:
        if id != C.only: return False
    elif i % C.nshards != C.shard: return False
    C.case = id; _put(id); signal.setitimer(signal.ITIMER_PROF, C.watchdog); count("cases")
    if len(C.samples) < 3 or (len(C.samples) < 6 and i % 97 == 0): C.samples.append(id)
    return True
def viol(sig, d):
    C.nviol += 1
    if C.nviol <= 25: _emit({"viol": True, "sig": sig, "case": C.case, "detail": d[:3000]})
def too_many(): return C.nviol >= 25
def thorough(): return C.tier == "thorough"
def init(argv):
    it = iter(argv[1:])
    for a in it:
        if a == "--prop": C.prop = next(it)
        elif a == "--tier": C.tier = next(it)
        elif a == "--only": C.only = next(it)
        elif a == "--part": C.part = next(it)
        elif a == "--watchdog": C.watchdog = int(next(it))
        elif a == "--shard": C.shard, C.nshards = map(int, next(it).split("/"))
        elif a == "--out": C.out = open(next(it), "w")
        elif a == "--cur":
            f = open(next(it), "w+b"); f.truncate(CUR); C.cur = mmap.mmap(f.fileno(), CUR)
    if C.out is None: C.out = os.fdopen(os.dup(1), "w")
    signal.signal(signal.SIGPROF, signal.SIG_DFL)     # (ends the process even within the extension module)
    if "--verbose" not in argv:      # the code under test is chatty
        n = os.open(os.devnull, os.O_WRONLY); os.dup2(n, 1); os.dup2(n, 2) if C.cur is None else None
        sys.stdout = open(os.devnull, "w")
def finish():
    signal.setitimer(signal.ITIMER_PROF, 0); _emit({"done": True, "viols": C.nviol, "counters": C.counters, "samples": C.samples}); return 0

# ---------------------------------------------------------------- drawings
class Scene:
    def __init__(s, name, W, H): s.name, s.W, s.H, s.nodes, s.edges = name, W, H, [], []
    def node(s, x, y): s.nodes.append((x, y)); return len(s.nodes) - 1
    def edge(s, a, b, mid=()): s.edges.append((a, b, [s.nodes[a]] + list(mid) + [s.nodes[b]]))
    def square(s, n, d): x, y = s.nodes[n]; s.edge(n, n, [(x + d, y), (x + d, y + d), (x, y + d)])
def chain():
    s = Scene("chain", 10, 9)
    a, b, c, d, e, f = (s.node(*p) for p in ((1.25, 1.25), (5.25, 1.75), (4.75, 5.25), (1.75, 4.75), (7.25, 6.25), (8.25, 3.25)))
    s.edge(a, b, [(3.25, 2.25)]); s.edge(b, c); s.edge(c, d, [(3.5, 6.25)]); s.edge(d, a); s.edge(c, e); s.edge(e, f, [(7.75, 5.0)]); return s
def nest():
    s = Scene("nest", 16, 16)
    A, B, Cc, D, E, F = (s.node(*p) for p in ((1.25, 1.25), (2.25, 2.25), (4.25, 4.25), (6.25, 6.25), (7.75, 6.25), (11.25, 11.25)))
    s.square(A, 13); s.square(B, 11); s.square(Cc, 5); s.square(F, 1.25); s.edge(A, B); s.edge(B, Cc); s.edge(Cc, F, [(3.25, 5.25), (3.25, 11.25)]); s.edge(D, E); return s
def loops():
    s = Scene("loops", 16, 16); O = s.node(8.25, 8.25); Q = s.node(14.25, 12.25); R = s.node(9.75, 6.75)
    s.edge(O, O, [(12.25, 7.25), (12.25, 4.25), (9.25, 4.25)]); s.edge(O, O, [(10.75, 6.75), (9.75, 5.75)]); s.edge(O, O, [(4.25, 9.25), (4.25, 12.25), (7.25, 12.25)])
    s.edge(O, O, [(2.25, 8.5), (2.25, 14.25), (8.5, 14.25)]); s.edge(O, Q); s.edge(O, Q, [(14.25, 9.25)]); s.edge(O, R); return s
def theta():
    s = Scene("theta", 17, 14); U, V, T, X, W = (s.node(*p) for p in ((2.25, 8.25), (13.25, 8.25), (4.25, 7.25), (6.25, 9.25), (15.25, 8.25)))
    s.edge(U, V, [(7.25, 8.5)]); s.edge(U, V, [(4.25, 5.25), (11.25, 5.25)]); s.edge(V, U, [(13.25, 2.25), (2.25, 2.25)]); s.edge(U, V, [(3.25, 11.75), (12.25, 11.75)])
    s.edge(T, U); s.square(X, 1.25); s.edge(V, W); return s
def rings():
    s = Scene("rings", 15, 15); a, b, c, d, i, j = (s.node(*p) for p in ((0.75, 0.75), (13.75, 13.75), (2.25, 2.25), (12.25, 12.25), (6.25, 6.25), (8.25, 8.25)))
    s.edge(a, b, [(13.75, 0.75)]); s.edge(b, a, [(0.75, 13.75)]); s.edge(c, d, [(12.25, 2.25)]); s.edge(c, d, [(2.25, 12.25)]); s.edge(i, j, [(8.25, 6.25)]); s.edge(j, i, [(6.25, 8.25)]); s.edge(i, j); return s
def grid(nx, ny, step=3.0, off=1.25):
    s = Scene("g%dx%d" % (nx, ny), int(2 * off + step * (nx - 1)) + 2, int(2 * off + step * (ny - 1)) + 2)
    for y in range(ny):
        for x in range(nx): s.node(off + step * x, off + step * y)
    for y in range(ny):
        for x in range(nx):
            if x + 1 < nx: s.edge(y * nx + x, y * nx + x + 1)
            if y + 1 < ny: s.edge(y * nx + x, (y + 1) * nx + x)
    return s
def window():         # 2x2 cells of different size in a frame, with an island in one of them (no bridges): few edges, 6 faces
    s = Scene("window", 14, 12); a, b, c, d, m, i = (s.node(*p) for p in ((1.25, 4.25), (5.25, 1.25), (12.25, 6.25), (5.25, 10.25), (5.25, 5.25), (8.25, 7.25)))
    s.edge(a, b, [(1.25, 1.25)]); s.edge(b, c, [(12.25, 1.25)]); s.edge(c, d, [(12.25, 10.25)]); s.edge(d, a, [(1.25, 10.25)])
    s.edge(a, m); s.edge(m, b); s.edge(m, c, [(9.25, 5.25)]); s.edge(d, m); s.square(i, 2); return s

def build(s, mask, dirs=0, li=True, sparse=False, isolated=False, init=True):
    """the map of the edges in mask; labels: 1.. in order (sparse: every second label)"""
    import geomap
    used = set()
    tuples = [None]
    for k, (a, b, p) in enumerate(s.edges):
        if not mask >> k & 1: continue
        used |= {a, b}
        if sparse: tuples.append(None)
        tuples.append((b, a, geomap.Polygon(p[::-1])) if dirs >> k & 1 else (a, b, geomap.Polygon(p)))
    pos = [p if (i in used or isolated) else None for i, p in enumerate(s.nodes)]
    g = geomap.GeoMap(pos, tuples, geomap.Size2D(s.W, s.H))
    if init: g.sortEdgesDirectly(); g.initializeMap(li)
    return g
# ---------------------------------------------------------------- everything observable of a map
def snapshot(g, flagmask=0xffffffff):
    nodes = [(n.label(), tuple(n.position()), n.degree()) for n in g.nodeIter()]
    edges = [(e.label(), e.startNodeLabel(), e.endNodeLabel(), tuple(tuple(p) for p in e), e.flags(), round(e.length(), 9), round(e.partialArea(), 9)) for e in g.edgeIter()]
    sigma = {}
    if g.edgesSorted():
        for e in g.edgeIter():
            for l in (e.label(), -e.label()): sigma[l] = g.dart(l).nextSigma().label()
    faces, img = [], None
    if g.mapInitialized():
        for f in g.faceIter():
            cs = [frozenset(d.label() for d in c.phiOrbit()) for c in f.contours()]
            outer = None if f.label() == 0 else cs.pop(0)
            faces.append((f.label(), outer, frozenset(cs), round(f.area(), 9), f.pixelArea(), f.flags() & flagmask & 0x0fffffff))
        for e in g.edgeIter(): edges.append((e.leftFaceLabel(), e.rightFaceLabel()))
        if g.hasLabelImage():
            import numpy; img = numpy.asarray(g.labelImage()).tobytes()
    return dict(counts=(g.nodeCount, g.edgeCount, g.faceCount), nodes=nodes, edges=edges, sigma=sigma, faces=faces, image=img,
                state=(g.edgesSorted(), g.mapInitialized(), g.hasLabelImage(), tuple(g.imageSize()), g.maxFaceLabel() if g.mapInitialized() else 0))
def differ(a, b, what=None):
    for k in a:
        if (what is None or k in what) and a[k] != b[k]:
            if isinstance(a[k], (list, tuple)):
                x = [p for p in a[k] if p not in b[k]]; y = [p for p in b[k] if p not in a[k]]
                return "%s: %s instead of %s" % (k, str(y)[:300], str(x)[:300])
            return "%s differs" % k if k == "image" else "%s: %s instead of %s" % (k, str(b[k])[:300], str(a[k])[:300])
    return ""
# ---------------------------------------------------------------- operations
def operations(g, split=True, insert=False):
    r = []
    for e in g.edgeIter():
        l = e.label()
        r += [("removeBridge" if e.isBridge() else "mergeFaces", d) for d in (l, -l)]
        if split:
            for i in range(1, len(e) - 1): r.append(("splitEdge", l, i))
        if insert:
            for i in range(len(e) - 1): r.append(("splitInsert", l, i))
    for n in g.nodeIter():
        if n.isIsolated(): r.append(("removeIsolatedNode", n.label()))
        elif n.hasDegree(2):
            a = n.anchor(); b = a.clone().nextSigma()
            if a.edgeLabel() != b.edgeLabel(): r += [("mergeEdges", a.label()), ("mergeEdges", b.label())]
    return r
def perform(g, op):
    n = op[0]
    if n == "splitEdge": r = g.splitEdge(g.edge(op[1]), op[2])
    elif n == "splitInsert": p, q = (g.edge(op[1])[op[2] + k] for k in (0, 1)); r = g.splitEdge(g.edge(op[1]), op[2], ((p[0] + q[0]) / 2, (p[1] + q[1]) / 2))
    elif n == "removeIsolatedNode": return g.removeIsolatedNode(g.node(op[1]))
    else: r = getattr(g, n)(g.dart(op[1]))
    return r.label() if r is not None else None
def show(h): return " ".join("%s(%s)" % (o[0], ",".join(map(str, o[1:]))) for o in h)
# ---------------------------------------------------------------- Python 2 protocol names
def shim(*modules):
    """the extension modules define the Python 2 names of some special methods only"""
    names = {"next": "__next__", "__nonzero__": "__bool__", "__div__": "__truediv__", "__idiv__": "__itruediv__"}
    done = set()
    def visit(o):
        if id(o) in done: return
        done.add(id(o))
        for k, v in list(vars(o).items()):
            if isinstance(v, type) and getattr(v, "__module__", "").split(".")[0] in [m.__name__ for m in modules]: visit(v)
        if isinstance(o, type):
            for a, b in names.items():
                if a in vars(o) and b not in vars(o): setattr(o, b, vars(o)[a])
    for m in modules: visit(m)
