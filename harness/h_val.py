"""P29: sequences, iterators and callbacks as seen from Python; P30: references to cells that have been removed."""
import sys, os, itertools, copy, gc, math
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pycommon as c
from pycommon import *
init(sys.argv)
import vigra, geomap, numpy
shim(geomap)
SCENES = [chain(), nest(), loops(), theta(), rings()]
def full(s): return (1 << len(s.edges)) - 1
def raises(f, *kinds):
    try: r = f()
    except kinds: return None
    except Exception as e: return "raised %s" % type(e).__name__
    return "was accepted and returned %s" % (r,)

# ---------------------------------------------------------------- P29: sequences
PT = [(0.0, 0.0), (2.5, 1.0), (-1.0, 3.0)]
def pts(p): return [tuple(x) for x in p]
def check_seq(p, m, T):
    n = len(m)
    if len(p) != n or pts(p) != m: return "points %s, expected %s" % (pts(p), m)
    for i in range(-n - 2, n + 2):
        if -n <= i < n:
            if tuple(p[i]) != m[i]: return "[%d] is %s, expected %s" % (i, tuple(p[i]), m[i])
        else:
            e = raises(lambda: p[i], IndexError)
            if e: return "[%d] of %d points %s" % (i, n, e)
            if T is not None:
                e = raises(lambda: p.__setitem__(i, PT[0]), IndexError) 
                if e: return "setting [%d] of %d points %s" % (i, n, e)
    if T is None: return ""
    for a in [None] + list(range(-n - 1, n + 2)):
        for b in [None] + list(range(-n - 1, n + 2)):
            if not (n <= 3 or a in (None, 0, 1, -1, n) or b in (None, n, -1)): continue
            q = p[a:b]
            if pts(q) != m[a:b]: return "[%s:%s] gives %s, expected %s" % (a, b, pts(q), m[a:b])
            for st in (2, -1, -2) if a in (None, 0, 1, -1) and b in (None, n, -n - 1) else ():         # (not supported: may be refused)
                try: q = p[a:b:st]
                except IndexError: continue
                if pts(q) != m[a:b:st]: return "[%s:%s:%d] gives %s, expected %s" % (a, b, st, pts(q), m[a:b:st])
            if type(q) != type(p): return "[%s:%s] gives a %s" % (a, b, type(q).__name__)
    q = p[:]
    if n: q[0] = (7.0, 7.0)
    if pts(p) != m: return "changing a slice changes the sequence"
    if isinstance(p, geomap.Polygon):
        L = sum(math.hypot(b[0] - a[0], b[1] - a[1]) for a, b in zip(m, m[1:]))
        if abs(p.length() - L) > 1e-9: return "length() %s, expected %s" % (p.length(), L)
        want, l = [], 0.0
        for i in range(n):
            if i: l += math.hypot(m[i][0] - m[i - 1][0], m[i][1] - m[i - 1][1])
            want.append(l)
        got = p.arcLengthList() if n else []
        if n and len(got) != n or any(abs(x - y) > 1e-9 for x, y in zip(got, want)): return "arcLengthList() %s, expected %s" % (got, want)
        if n:
            b = p.boundingBox(); xs, ys = [q[0] for q in m], [q[1] for q in m]
            if b != geomap.BoundingBox((min(xs), min(ys)), (max(xs), max(ys))): return "boundingBox() %s" % b
            if p.closed() != (m[0] == m[-1]): return "closed() is wrong"
    return ""
def seq_ops(T, n):
    r = [("reverse",)] + [("insert", i, v) for i in range(n + 1) for v in (1, 2)] + [("set", i, 2) for i in range(-n, n)] + [("copy",)]
    if T == "Polygon":
        r += [("del", i) for i in range(-n, n)] + [("baddel", i) for i in (n, n + 1, -n - 1)] + [("append", 0), ("append", 1), ("split", 0), ("self",), ("swap",)] + [("extend", k) for k in range(3)]
        r += [("split", i) for i in range(-n, n)]
    r += [("badinsert", i) for i in (n + 1, n + 5, -n - 3)]
    return [o for o in dict.fromkeys(r) if not (o[0] == "split" and n == 0)]
OTHER = [[], [PT[1]], [PT[2], PT[0]]]
def seq_apply(T, p, m, o):
    """(sequence, points, error)"""
    k = o[0]
    if k == "reverse": p.reverse(); m = m[::-1]
    elif k == "insert": p.insert(o[1], PT[o[2]]); m = m[:o[1]] + [PT[o[2]]] + m[o[1]:]
    elif k == "set": p[o[1]] = PT[o[2]]; m = list(m); m[o[1]] = PT[o[2]]
    elif k == "copy":
        q = type(p)(p); q.insert(0, PT[1])
        if pts(q) != [PT[1]] + m: return p, m, "copy has %s" % pts(q)
    elif k == "del": del p[o[1]]; m = list(m); del m[o[1]]
    elif k == "baddel":
        e = raises(lambda: p.__delitem__(o[1]), IndexError)
        if e: return p, m, "deleting [%d] of %d points %s" % (o[1], len(m), e)
    elif k == "badinsert":
        e = raises(lambda: p.insert(o[1], PT[0]), IndexError)
        if e: return p, m, "inserting at %d into %d points %s" % (o[1], len(m), e)
    elif k == "append": p.append(PT[o[1]]); m = m + [PT[o[1]]]
    elif k in ("extend", "self"):
        x = OTHER[o[1]] if k == "extend" else m
        if k == "self": p.extend(p)
        else: q = geomap.Polygon(x) if x else geomap.Polygon(); p.extend(q)
        m = m + x[1 if m and x and m[-1] == x[0] else 0:]
    elif k == "swap": q = geomap.Polygon([PT[1], PT[2], PT[0]]); p.swap(q); e = check_seq(q, m, True); return p, [PT[1], PT[2], PT[0]], e and "the swapped polygon: " + e
    elif k == "split":
        i = o[1] % len(m); q = p.split(o[1]); e = check_seq(q, m[i:], True); m = m[:i + 1]
        if e: return p, m, "the part split off: " + e
    return p, m, ""
def p29_seq(T, m0, depth):
    kind = getattr(geomap, T)
    def make(h):
        p = kind(list(map(tuple, m0))) if m0 else kind()
        m = list(m0)
        for o in h: p, m, e = seq_apply(T, p, m, o)
        return p, m
    def walk(h, d):
        p, m = make(h); count("states")
        for o in seq_ops(T, len(m)):
            if len(m) > 4 and o[0] in ("insert", "append", "self", "extend"): continue
            count("transitions"); detail(show(h + [o])); p, m = make(h)
            if len(h) % 2: check_seq(p, m, True)           # (attributes queried before)
            p, m, e = seq_apply(T, p, m, o); e = e or check_seq(p, m, True)
            if e: viol("sequence", "%s %s: %s" % (T, show(h + [o]), e)); return False
            if d > 1 and not walk(h + [o], d - 1): return False
            count("traces")
        return True
    e = check_seq(make([])[0], m0, True)
    if e: return viol("sequence", "%s %s: %s" % (T, m0, e))
    walk([], depth)
def p29_mesh(x0, y0):
    for w, h in itertools.product(range(0, 4), repeat=2):
        for r, ox, oy in ((geomap.Rect2D(x0, y0, x0 + w, y0 + h), x0, y0),) + (((geomap.Size2D(w, h), 0, 0),) if (x0, y0) == (0, 0) else ()):
            count("states"); count("transitions"); detail("%s" % r)
            got = [tuple(q) for q in itertools.islice(geomap.meshIter(r), 100)]
            if got != [(x, y) for y in range(oy, oy + h) for x in range(ox, ox + w)]: return viol("mesh", "meshIter(%s) visits %s" % (r, got))
            if isinstance(r, geomap.Rect2D):
                if (r.width(), r.height(), r.area(), r.isEmpty()) != (w, h, w * h, w * h == 0): return viol("mesh", "%s: size" % r)
                for x, y in itertools.product(range(-2, 6), repeat=2):
                    count("traces")
                    if ((x, y) in r) != ((x, y) in got) or r.contains((x, y)) != ((x, y) in got): return viol("mesh", "(%d,%d) in %s is %s" % (x, y, r, (x, y) in r))
def p29_scan(poly):
    """scan lines of closed polygons: indexing, iteration over the points, filling"""
    p = geomap.Polygon(list(poly) + [poly[0]]); W, H = 6, 5
    sl = geomap.scanPoly(p); count("states"); count("transitions")
    rows = {}
    for y in range(sl.startIndex(), sl.endIndex()):
        r = sl[y]; rows[y] = [(s.begin, s.end) for s in (r[i] for i in range(len(r)))]
        if raises(lambda: r[len(r)], IndexError): return viol("scan", "scan line index %d of %d accepted" % (len(r), len(r)))
    if len(sl) != sl.endIndex() - sl.startIndex(): return viol("scan", "%s: %d scan lines from %d to %d" % (poly, len(sl), sl.startIndex(), sl.endIndex()))
    for i in (sl.startIndex() - 1, sl.endIndex()):
        e = raises(lambda: sl[i], IndexError)
        if e: return viol("scan", "%s: scan line %d %s" % (poly, i, e))
    got = [tuple(q) for q in sl.points()] if hasattr(sl, "points") else None
    if got is not None and len(set(got)) != len(got): return viol("scan", "%s: points() visits a pixel twice: %s" % (poly, got))
    for y in rows:
        xs = sorted(x for x, yy in (got or []) if yy == y); cov = sorted(set(x for b, e in rows[y] for x in range(b, e)))
        count("traces")
        if got is not None and not set(xs) <= set(range(min(cov or [0]), max(cov or [0]) + 1)): return viol("scan", "%s: points() visits %s in line %d with segments %s" % (poly, xs, y, rows[y]))

# ---------------------------------------------------------------- P29: cells, darts and iterators of maps
def p29_map(s, mask, isolated=False):
    g = build(s, mask, isolated=isolated); count("states")
    for kind, top, get, it in (("node", g.maxNodeLabel(), g.node, g.nodeIter), ("edge", g.maxEdgeLabel(), g.edge, g.edgeIter), ("face", g.maxFaceLabel(), g.face, g.faceIter)):
        alive = [l for l in range(top) if get(l) is not None]; a, b = it(), it()
        x = [q.label() for q in a]
        count("transitions")
        if x != alive: return viol("iter", "%sIter() visits %s, existing: %s" % (kind, x, alive))
        if [q.label() for q in b] != alive: return viol("iter", "two %sIter() disturb each other" % kind)
        if list(a): return viol("iter", "exhausted %sIter() goes on" % kind)
        if getattr(g, kind + "Count") != len(alive): return viol("iter", "%sCount is %d, existing: %s" % (kind, getattr(g, kind + "Count"), alive))
        if kind == "face" and [q.label() for q in g.faceIter(skipInfinite=True)] != alive[1:]: return viol("iter", "faceIter(skipInfinite = True)")
    for e in g.edgeIter():
        m = pts(e)
        for d, mm in ((g.dart(e.label()), m), (g.dart(-e.label()), m[::-1])):
            count("transitions"); count("traces")
            r = check_seq(d, mm, None) or check_seq(e, m, None)
            if r: return viol("iter", "dart %d: %s" % (d.label(), r))
            for orbit, step in (("phiOrbit", "nextPhi"), ("sigmaOrbit", "nextSigma"), ("alphaOrbit", "nextAlpha")):
                x, k = [], d.clone()
                while True:
                    x.append(k.label()); getattr(k, step)()
                    if k == d: break
                y = [q.label() for q in getattr(d, orbit)()]
                if x != y: return viol("iter", "%s of dart %d visits %s instead of %s" % (orbit, d.label(), y, x))
                y = [q.label() for q in list(getattr(d, orbit)())]
                if x != y: return viol("iter", "list of the %s of dart %d holds %s instead of %s" % (orbit, d.label(), y, x))
            if d.label() not in (e.label(), -e.label()): return viol("iter", "an orbit moved its dart")
    for f in g.faceIter():
        cs = [q.label() for q in f.contours()]; hs = [q.label() for q in f.holeContours()]
        if cs[1 if f.label() else 0:] != hs or len(hs) != f.holeCount(): return viol("iter", "face %d: contours %s, holes %s, holeCount %d" % (f.label(), cs, hs, f.holeCount()))
        if f.label() and f.contour().label() != cs[0]: return viol("iter", "face %d: contour" % f.label())

# ---------------------------------------------------------------- P29: callbacks
def hooks_for(op): return {"removeBridge": "RemoveBridge", "mergeFaces": "MergeFaces", "mergeEdges": "MergeEdges", "splitEdge": "SplitEdge", "splitInsert": "SplitEdge"}.get(op[0])
class Oops(Exception): pass
def p29_hooks(s, mask):
    g0 = build(s, mask)
    for op in operations(g0, insert=True):
        base = build(s, mask); before = snapshot(base); res = perform(base, op); after = snapshot(base)
        name = hooks_for(op)
        for mode in ("accept", "veto", "raise-pre", "raise-post", "only-pre", "only-post", "disconnect", "forget", "twice"):
            count("transitions"); count("states"); detail("%s %s" % (op, mode))
            if name == "SplitEdge" and mode in ("veto",): continue
            g = build(s, mask); log = []
            if name is None:                        # isolated node
                if mode in ("only-pre", "only-post", "raise-post"): continue
                def node(n):
                    log.append("n%d" % n.label())
                    if mode == "raise-pre": raise Oops()
                    return mode != "veto"
                h = [g.addRemoveNodeCallback(node) for k in range(2 if mode == "twice" else 1)]; want = ["n%d" % op[1]] * len(h)
            else:
                def pre(*a):
                    log.append("pre")
                    if len(a) == 1 and (a[0].startNodeLabel() != g.dart(op[1]).startNodeLabel() if name == "MergeEdges" else abs(a[0].label()) != abs(op[1])): log.append("pre-hook got dart %d" % a[0].label())
                    if len(a) == 3:
                        if (a[0].label(), a[1]) != (op[1], op[2]) or (a[2] is not None) != (op[0] == "splitInsert"): log.append("pre-hook got %s" % (a,))
                    if mode == "raise-pre": raise Oops()
                    return mode != "veto"
                def post(*a):
                    log.append("post")
                    if [x.label() for x in a] != ([op[1], res] if name == "SplitEdge" else [res]): log.append("post-hook got %s" % [x.label() for x in a])
                    if mode == "raise-post": raise Oops()
                reg = getattr(g, "add%sCallbacks" % name)
                h = [reg(None if mode == "only-post" else pre, None if mode == "only-pre" else post) for k in range(2 if mode == "twice" else 1)]
                want = {"only-pre": ["pre"], "only-post": ["post"], "veto": ["pre"], "raise-pre": ["pre"], "twice": ["pre", "pre", "post", "post"]}.get(mode, ["pre", "post"])
            if mode == "disconnect":
                if not h[0].connected(): return viol("hooks", "%s: new callback is not connected()" % (op,))
                h[0].disconnect(); want = []
                if h[0].connected(): return viol("hooks", "%s: connected() after disconnect()" % (op,))
            if mode == "forget": del h; gc.collect(); want = []
            try: r = perform(g, op); e = None
            except Oops as x: r, e = None, x
            except Exception as x: return viol("hooks", "%s, %s: %s: %s" % (op, mode, type(x).__name__, x))
            if name == "SplitEdge" and op[0] == "splitEdge": pass
            if mode.startswith("raise") and e is None: return viol("hooks", "%s: the exception of a callback is lost" % (op,))
            if not mode.startswith("raise") and e is not None: return viol("hooks", "%s, %s: exception" % (op, mode))
            if mode == "raise-post" : want = want[:2]
            if log != want: return viol("hooks", "%s, %s: callbacks %s, expected %s" % (op, mode, log, want))
            d = differ(before if mode in ("veto", "raise-pre") else after, snapshot(g)) if mode != "raise-post" else ""
            if d: return viol("hooks", "%s, %s: %s" % (op, mode, d))
            count("traces")

def P29():
    T = thorough()
    for kind in ("Polygon", "Vector2Array"):
        for n in range(0, 4):
            for m in itertools.product(range(2 if n > 2 else 3), repeat=n):
                if mine("seq/%s/%s" % (kind, "".join(map(str, m)))): p29_seq(kind, [PT[k] for k in m], 3 if T or n < 2 else 2)
    for x, y in itertools.product((-2, 0, 1), repeat=2):
        if mine("mesh/%d,%d" % (x, y)): p29_mesh(x, y)
    lat = [(0.25 + 1.25 * x, 0.5 + 1.25 * y) for x in range(4) for y in range(3)]
    for k in lat:
        if mine("scan/%s" % (k,)):
            for q in itertools.product(lat, repeat=2):
                detail(str(q)); p29_scan((k,) + q)
    for s in SCENES + [window()]:
        for mask in range(0, 1 << len(s.edges)):
            nb = bin(mask).count("1")
            if T or nb <= 4 or mask == full(s):
                if mine("map/%s/m%x" % (s.name, mask)): p29_map(s, mask); p29_map(s, mask, True)
            if T or nb <= 2 or mask == full(s):
                if mine("hooks/%s/m%x" % (s.name, mask)): p29_hooks(s, mask)

# ---------------------------------------------------------------- P30
MUST = dict(node=["anchor", "degree", "hasDegree", "hasMinDegree", "setPosition"], edge=["startNode", "endNode", "leftFace", "rightFace", "dart"], face=["contains", "contour", "contours", "holeContours", "scanLines"])
ANY = dict(node=["position", "isIsolated", "__repr__"], edge=["startNodeLabel", "endNodeLabel", "leftFaceLabel", "rightFaceLabel", "isBridge", "isLoop", "flags", "length", "partialArea", "boundingBox", "arcLengthList", "closed", "scanLines", "__repr__", "__len__"], face=["area", "boundingBox", "pixelArea", "holeCount", "flags", "__repr__"])
ARGS = dict(hasDegree=(1,), hasMinDegree=(1,), setPosition=((1.5, 1.5),), contains=((2.5, 2.5),))
def use_dead(kind, x, label):
    if x.initialized(): return "still initialized()"
    if x.label() != label: return "label %d became %d" % (label, x.label())
    for m in MUST[kind]:
        detail("%s %d %s" % (kind, label, m)); count("transitions")
        try: r = getattr(x, m)(*ARGS.get(m, ()))
        except Exception: continue
        return "%s() of a removed cell returned %s" % (m, r)
    for m in ANY[kind]:
        detail("%s %d %s" % (kind, label, m)); count("transitions")
        try: getattr(x, m)()
        except Exception: pass
    return ""
def held(g): return [(k, q.label(), q) for k, it in (("node", g.nodeIter()), ("edge", g.edgeIter()), ("face", g.faceIter())) for q in it]
def touch(refs):
    for k, l, x in refs:
        if k == "edge": x.boundingBox(), x.length(), x.partialArea(), x.scanLines()
        elif k == "face": x.area(), (x.boundingBox() if l else 0)
def same(k, x, y):
    if x.label() != y.label(): return "label"
    if k == "node" and (tuple(x.position()) != tuple(y.position()) or x.degree() != y.degree()): return "node data"
    if k == "edge" and (pts(x) != pts(y) or (x.startNodeLabel(), x.endNodeLabel(), x.leftFaceLabel(), x.rightFaceLabel()) != (y.startNodeLabel(), y.endNodeLabel(), y.leftFaceLabel(), y.rightFaceLabel())): return "edge data"
    if k == "face" and (x.area() != y.area() or x.pixelArea() != y.pixelArea() or sorted(d.label() for d in x.contours()) != sorted(d.label() for d in y.contours())): return "face data"
def p30(s, mask, depth, cached, gone):
    def go(h):
        g = build(s, mask, isolated=not cached); refs = held(g); darts = [(l, g.dart(l)) for e in g.edgeIter() for l in (e.label(), -e.label())]
        for i, op in enumerate(h):
            if cached: touch([r for r in refs if r[2].initialized()])
            perform(g, op)
            new = [r for r in held(g) if not any(a == r[0] and b == r[1] for a, b, q in refs)]
            refs += new
            if new: darts += [(l * sg, g.dart(l * sg)) for k, l, q in new if k == "edge" for sg in (1, -1)]
        return g, refs, darts
    def walk(h, d):
        g, refs, darts = go(h); count("states"); snap = None if not h else snapshot(g)
        ops = operations(g) if d else []
        for k, l, x in refs:
            y = getattr(g, k)(l)
            if y is None: e = use_dead(k, x, l)
            else: e = "not initialized()" if not x.initialized() else "differs from the cell of the map: " + same(k, x, y) if same(k, x, y) else ""
            if e: return viol("reference", "%s: %s %d: %s" % (show(h), k, l, e))
        for l, dd in darts:
            if g.edge(abs(l)) is None:
                if dd.edge() is not None: return viol("reference", "%s: dart %d has an edge" % (show(h), l))
                for m in ("guaranteedEdge", "startNode", "endNode", "leftFace", "rightFace", "leftFaceLabel", "startNodeLabel", "partialArea"):
                    detail("dart %d %s" % (l, m)); count("transitions")
                    e = raises(lambda: getattr(dd, m)(), RuntimeError)
                    if e: return viol("reference", "%s: %s() of removed dart %d %s" % (show(h), m, l, e))
            elif dd.label() != l or dd.edge().label() != abs(l): return viol("reference", "%s: dart %d changed" % (show(h), l))
        if snap is not None and differ(snap, snapshot(g)): return viol("reference", "%s: using removed cells changed the map: %s" % (show(h), differ(snap, snapshot(g))))
        del y, darts
        if h: dd = None
        if gone:
            if not cached: g, refs, darts = go(h); darts = None
            g = None; gc.collect()
            for k, l, x in refs:
                e = use_dead(k, x, l)
                if e: return viol("reference", "%s, map destroyed: %s %d: %s" % (show(h), k, l, e))
        count("traces")
        for op in ops:
            if walk(h + [op], d - 1) is False: return False
    walk([], depth)
def P30():
    T = thorough()
    for s in SCENES + [window()]:
        for mask in range(0, 1 << len(s.edges)):
            nb = bin(mask).count("1")
            for cached in (0, 1):
                d = (2 if nb <= 3 else 1) if not T else (3 if nb <= 3 else 2)
                if T or nb <= 4 or mask == full(s):
                    if mine("refs/%s/m%x/%d/d%d" % (s.name, mask, cached, d)): p30(s, mask, d, cached, True)
{"P29": P29, "P30": P30}[C.prop]()
sys.exit(finish())
