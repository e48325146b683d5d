"""P24: pickling; P25: region merging / labelling algorithms; P26: recording and replaying histories.
Runs the Python layer of /repo (converted by lib2to3) on top of the extension module built from /repo."""
import sys, os, itertools, copy, pickle
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pycommon as c
from pycommon import *
init(sys.argv)
import time
if not hasattr(time, "clock"): time.clock = time.perf_counter
import vigra, geomap
shim(geomap)
class CostQueue:                     # geomap.DynamicCostQueue is not part of the extension modules here
    def __init__(self, n=0): self.d = {}
    def insert(self, i, cost): self.d[i] = cost
    setCost = insert
    def empty(self): return not self.d
    def __bool__(self): return bool(self.d)
    def __len__(self): return len(self.d)
    def top(self): i = min(self.d, key=lambda k: (self.d[k], k)); return i, self.d[i]
    def pop(self): r = self.top(); del self.d[r[0]]; return r
if not hasattr(geomap, "DynamicCostQueue"): geomap.DynamicCostQueue = CostQueue
if not hasattr(vigra, 'Point2D'): vigra.Point2D = lambda x, y: (x, y)
import maputils
SCENES = [chain(), nest(), loops(), theta(), rings()]
PROT = 255                             # GeoMap::Edge::ALL_PROTECTION

def fingerprint(s): return repr(sorted(s.items(), key=lambda k: k[0]))
def distinct(seen, s):
    k = hash(fingerprint(s))
    if k in seen: return False
    seen.add(k); count("states"); return True
def build_flags(s, mask, **kw):
    g = build(s, mask, **kw)
    for e in g.edgeIter(): e.setFlag((e.label() % 3) | (e.label() << 8) | (1 << (20 + e.label() % 8)), True)
    if g.mapInitialized():
        for f in g.faceIter(): f.setFlag(1 << (f.label() * 9 % 28), True)
    return g
def replay(s, mask, h, **kw):
    g = build_flags(s, mask, **kw)
    for op in h: perform(g, op)
    return g
def explore(s, mask, depth, check, split=True, **kw):
    """all histories up to depth; check(history) is called in every state"""
    id = "%s/m%x/%s/D%d" % (s.name, mask, "".join("%s%d" % (k[:2], v) for k, v in sorted(kw.items())), depth)
    if not mine(id): return
    seen = set(); g = replay(s, mask, [], **kw); distinct(seen, snapshot(g))
    todo = [[]]
    while todo and not too_many():
        h = todo.pop(0)
        detail(show(h))
        try: e = check(h, lambda: replay(s, mask, h, **kw))
        except Exception as x: e = "%s: %s" % (type(x).__name__, x)
        if e: viol("state", "%s: %s" % (show(h), e)); continue
        if len(h) >= depth: count("traces"); continue
        g = replay(s, mask, h, **kw)
        for op in operations(g, split):
            count("transitions")
            g2 = replay(s, mask, h + [op], **kw)
            if distinct(seen, snapshot(g2)): todo.append(h + [op])

# ---------------------------------------------------------------- P24
def p24_check(h, mk):
    g = mk(); g.note = ["a", h]
    s = snapshot(g)
    for proto in (0, 2, 5):
        g2 = pickle.loads(pickle.dumps(g, proto)); count("roundtrips")
        e = differ(s, snapshot(g2))
        if e: return "restored map (protocol %d): %s" % (proto, e)
        if g2.note != ["a", h]: return "attributes lost"
        if not g2.checkConsistency(): return "restored map is inconsistent"
        e = differ(s, snapshot(g))
        if e: return "saving changed the map: " + e
    for f in (copy.copy, copy.deepcopy):
        g2 = f(g); count("roundtrips")
        e = differ(s, snapshot(g2))
        if e: return "%s: %s" % (f.__name__, e)
        if g2.note != ["a", h]: return "%s: attributes lost" % f.__name__
    data = pickle.dumps(g, 2)
    for op in operations(g):
        count("transitions")
        a = mk(); b = pickle.loads(data)
        ra = perform(a, op); rb = perform(b, op)
        if op[0] == "splitEdge" and (ra != rb or a.maxNodeLabel() != b.maxNodeLabel()): continue     # new labels depend on labels used before
        if ra != rb: return "%s on the restored map returns %s instead of %s" % (show([op]), rb, ra)
        e = differ(snapshot(a), snapshot(b))
        if e: return "after %s on the restored map: %s" % (show([op]), e)
    return ""
def p24_graph(s, mask, dirs, phase):
    """maps that are not initialized yet"""
    if not mine("%s/m%x/d%x/phase%d" % (s.name, mask, dirs, phase)): return
    for sparse in (False, True):
        count("transitions"); count("states")
        g = build(s, mask, dirs=dirs, init=False, isolated=True, sparse=sparse)
        if phase: g.sortEdgesDirectly()
        if phase == 2: g.initializeMap(False)
        for e in g.edgeIter(): e.setFlag((e.label() << 4) | (1 << (20 + e.label() % 8)), True)
        a = snapshot(g)
        g2 = pickle.loads(pickle.dumps(g, 2))
        e = differ(a, snapshot(g2))
        if e: return viol("graph", "restored: " + e)
        for x in (g, g2):
            if phase < 1: x.sortEdgesDirectly()
            if phase < 2: x.initializeMap(True)
        e = differ(snapshot(g), snapshot(g2)); count("traces")
        if e: return viol("graph", "restored and initialized: " + e)
def p24_value(id, o, show):
    if not mine("value/" + id): return
    count("states"); a = show(o)
    for f in (lambda o: pickle.loads(pickle.dumps(o, 0)), lambda o: pickle.loads(pickle.dumps(o, 2)), copy.copy, copy.deepcopy):
        count("transitions"); count("roundtrips"); b = show(f(o))
        if a != b or show(o) != a: return viol("value", "%s restored as %s (now %s)" % (a, b, show(o)))
    count("traces")
def fed(k, seq):
    st = k()
    for v, l in seq: st(v, l)
    return st
def stats_of(st): return (st.average(), st.min(), st.max()) + (tuple(st.quantile(q) for q in (0, 0.25, 0.5, 0.75, 1)) if hasattr(st, "quantile") and st.average() is not None and st.max() >= st.min() else ())
def p24_values():
    pts = [(x / 2, y / 4) for x in range(3) for y in range(3)]
    for n in range(4):
        for ps in itertools.product(pts, repeat=n):
            for q in (0, 1):
                p = geomap.Polygon(list(ps))
                if q: p.length(), p.partialArea(), p.boundingBox()
                p24_value("poly%d/%s" % (q, "".join("%g,%g;" % x for x in ps)), p, lambda p: ([tuple(x) for x in p], p.length(), p.partialArea(), repr(p.boundingBox()), len(p) and p.closed()))
    for c in itertools.product((-1, 0, 2), repeat=4):
        p24_value("rect%s" % (c,), geomap.Rect2D(*c), lambda r: (r.left(), r.top(), r.right(), r.bottom()))
        p24_value("box%s" % (c,), geomap.BoundingBox(c[:2], c[2:]), repr)
        if c[2:] == (0, 0): p24_value("size%s" % (c,), geomap.Size2D(*c[:2]), tuple)
    p24_value("box", geomap.BoundingBox(), repr)
    for c in itertools.product(range(-2, 3), repeat=3):
        for k in (geomap.DigitalStraightLine8, geomap.DigitalStraightLine4): p24_value("%s%s" % (k.__name__, c), k(*c), lambda d: (type(d).__name__, d.a, d.b, d.pos, d.eightConnected()))
    for n in range(4):
        for seq in itertools.product(itertools.product((-2.0, -1.0, 0.0, 3.0), (1.0, 2.0)), repeat=n):
            for k in (geomap.PolylineStatistics, geomap.QuantileStatistics): p24_value("%s%s" % (k.__name__, seq), fed(k, seq), stats_of)
def p24_protection(s, mask):
    """protection of edges is saved and restored with the map"""
    for pr in range(1 << bin(mask).count("1")):
        g = build(s, mask); ls = [e.label() for e in g.edgeIter()]
        for i, l in enumerate(ls): g.edge(l).setFlag(4, bool(pr >> i & 1))
        ep = geomap.EdgeProtection(g); g2, ep2 = pickle.loads(pickle.dumps((g, ep), 2)); count("roundtrips"); count("states")
        for l in ls:
            a, b = pickle.loads(pickle.dumps((g, ep), 2)); count("transitions"); e = a.edge(l); n = a.edgeCount
            (a.removeBridge if e.isBridge() else a.mergeFaces)(e.dart())
            if (a.edge(l) is not None) != bool(pr >> ls.index(l) & 1): return viol("protection", "protected %s: removing edge %d of the restored map: %s" % (bin(pr), l, a.edge(l)))
    count("traces")
def P24():
    p24_values()
    for s in SCENES:
        for mask in range(1, 1 << len(s.edges)):
            if bin(mask).count("1") <= 3: run("protection", s, mask, p24_protection)
    for s in SCENES:
        n = len(s.edges); full = (1 << n) - 1
        for li in (True, False):
            explore(s, full, 3 if thorough() else 2, p24_check, li=li)
            explore(s, full, 3 if thorough() else 1, p24_check, li=li, sparse=True, isolated=True, dirs=0x55 & full)
        for mask in range(1 << n):
            for phase in range(3): p24_graph(s, mask, 0x33 & mask, phase)
            if mask != full: explore(s, mask, 1 if thorough() or bin(mask).count("1") <= 3 else 0, p24_check, isolated=True)
            if too_many(): return

# ---------------------------------------------------------------- P25
class Plane:
    """which region of the original map became part of which region of the modified one"""
    def __init__(self, g):
        size = g.imageSize(); self.pts = []; seen = {}
        for y in range(-2, 2 * size[1] + 2):
            for x in range(-2, 2 * size[0] + 2):
                p = (x / 2 + 0.125, y / 2 - 0.0625); l = g.faceAt(p).label()
                seen.setdefault(l, []).append(p)
        self.samples = {l: (v[0], v[len(v) // 2], v[-1]) for l, v in seen.items()}
        assert len(self.samples) == g.faceCount, "a face without sample point"
    def image(self, g):
        r = {}
        for l, ps in self.samples.items():
            ls = {g.faceAt(p).label() for p in ps}
            if len(ls) != 1: return None
            r[l] = ls.pop()
        return r
def graph(g):
    """edges as (label, left, right)"""
    return [(e.label(), e.leftFaceLabel(), e.rightFaceLabel()) for e in g.edgeIter()]
def components(faces, pairs):
    p = {f: f for f in faces}
    def find(x):
        while p[x] != x: x = p[x]
        return x
    for a, b in pairs:
        a, b = find(a), find(b)
        if a != b: p[max(a, b)] = min(a, b)
    return {f: find(f) for f in faces}
def same_partition(a, b):
    m, n = {}, {}
    return all(m.setdefault(a[k], b[k]) == b[k] and n.setdefault(b[k], a[k]) == a[k] for k in a)
def faces(g): return [f.label() for f in g.faceIter()]
def costlists(g, values, limit=None):
    ls = [e.label() for e in g.edgeIter()]
    for v in itertools.product(values, repeat=len(ls)):
        r = [None] * g.maxEdgeLabel()
        for l, x in zip(ls, v): r[l] = x
        yield r

def mst_check(g, costs, E, F):
    mst = maputils.minimumSpanningTree(g, costs)
    if len(mst) != len(costs): return None, "length %d" % len(mst)
    for l, x in enumerate(mst):
        if x is not None and x != costs[l]: return None, "edge %d has cost %s instead of %s" % (l, x, costs[l])
    for t in sorted({x for x in costs if x is not None}):
        want = components(F, [(a, b) for l, a, b in E if costs[l] is not None and costs[l] <= t])
        have = components(F, [(a, b) for l, a, b in E if mst[l] is not None and mst[l] <= t])
        if want != have: return None, "not minimal: edges of cost <= %s of the tree %s do not connect what edges of that cost connect" % (t, mst)
        if sum(1 for l, a, b in E if mst[l] is not None and mst[l] <= t) != len(F) - len(set(want.values())): return None, "not a forest: %s" % mst
    return mst, ""
def minima_check(g, mst, E, F):
    lab = maputils.regionalMinima(g, mst)
    inc = {f: [] for f in F}
    for l, a, b in E:
        if mst[l] is not None:
            inc[a].append(l); inc[b].append(l)
    isMin = {l: all(mst[k] >= mst[l] for f in (a, b) for k in inc[f]) for l, a, b in E if mst[l] is not None}
    for f in F:
        cand = {l for l in inc[f] if isMin[l]}
        if (lab[f] is None) != (not cand) or (cand and lab[f] not in cand): return None, "face %d is labelled %s, minimal edges: %s" % (f, lab[f], sorted(cand))
    return lab, ""
def growing_check(g, seeds, costs, E, F):
    before = list(seeds)
    r = maputils.seededRegionGrowingStatic(g, seeds, costs)
    if list(seeds) != before: return None, "the seed labels were modified"
    INF = float("inf")
    # minimal highest cost on a path from a seed to each face
    best = {f: {f: -INF} for f in F if before[f] is not None}
    def spread(src):
        d = {f: INF for f in F}; d[src] = -INF; ch = True
        while ch:
            ch = False
            for l, a, b in E:
                if costs[l] is None: continue
                for u, v in ((a, b), (b, a)):
                    x = max(d[u], costs[l])
                    if d[u] < INF and x < d[v]: d[v] = x; ch = True
        return d
    D = {f: spread(f) for f in best}
    for f in F:
        if before[f] is not None:
            if r[f] != before[f]: return None, "seed %d changed from %s to %s" % (f, before[f], r[f])
            continue
        m = min([D[s][f] for s in D] + [INF])
        allowed = {before[s] for s in D if D[s][f] == m} if m < INF else {None}
        if r[f] not in allowed: return None, "face %d is labelled %s, expected one of %s (seeds %s)" % (f, r[f], allowed, before)
    # every region is connected to a seed of its label
    comp = components(F, [(a, b) for l, a, b in E if costs[l] is not None and r[a] is not None and r[a] == r[b]])
    roots = {comp[s] for s in D}
    for f in F:
        if r[f] is not None and comp[f] not in roots: return None, "face %d is not connected with a seed of its label" % f
    return r, ""
def classification_check(mk, P, classes, E, F, ignoreNone=True):
    g = mk(); maputils.applyFaceClassification(g, classes, *([] if ignoreNone else [False]))
    want = components(F, [(a, b) for l, a, b in E if classes[a] == classes[b] and (classes[a] is not None or not ignoreNone)])
    im = P.image(g)
    if im is None: return None, "a region was divided"
    if not same_partition(want, im): return None, "merged regions %s, expected %s" % (im, want)
    if not g.checkConsistency(): return None, "map inconsistent"
    # no edge is left between or within regions of the same class
    for l, a, b in graph(g):
        if a == b and (ignoreNone is False or any(classes[f] is not None for f in F if im[f] == a)): return None, "bridge %d is left" % l
    return g, ""
def p25_costs(s, mask, values):
    kw = {}
    mk = lambda: build(s, mask)
    g = mk(); E, F = graph(g), faces(g); P = Plane(g); snap = snapshot(g)
    for costs in costlists(g, values):
        count("transitions"); count("states"); detail("costs %s" % costs)
        mst, e = mst_check(g, costs, E, F)
        if e: viol("mst", "minimumSpanningTree(%s): %s" % (costs, e)); return
        lab, e = minima_check(g, mst, E, F)
        if e: viol("minima", "regionalMinima(%s): %s" % (mst, e)); return
        wl = maputils.waterfallLabels(g, costs)
        r, e = growing_check(g, lab, mst, E, F)
        if e: viol("growing", "seededRegionGrowingStatic(%s, %s): %s" % (lab, mst, e)); return
        if not same_partition({f: wl[f] for f in F}, {f: r[f] for f in F}): viol("waterfall", "waterfallLabels(%s): %s instead of %s" % (costs, wl, r)); return
        if len(values) <= 2 or costs.count(None) <= 2:
            m = mk(); maputils.waterfall(m, costs)
            want = components(F, [(a, b) for l, a, b in E if r[a] is not None and r[a] == r[b]]); im = P.image(m)
            if im is None or not same_partition(want, im) or not m.checkConsistency(): viol("waterfall", "waterfall(%s): merged regions %s, expected %s" % (costs, im, want)); return
        count("traces")
    e = differ(snap, snapshot(g))
    if e: viol("changed", "the map was changed: " + e)
def p25_seeds(s, mask, values):
    mk = lambda: build(s, mask)
    g = mk(); E, F = graph(g), faces(g); P = Plane(g)
    fn = lambda v: [dict(zip(F, v)).get(l) for l in range(g.maxFaceLabel())]
    for sv in itertools.product((None, 0, 1, 7), repeat=len(F)):
        if sum(x is not None for x in sv) > 3: continue
        for costs in costlists(g, values):
            count("transitions"); count("states"); detail("seeds %s costs %s" % (sv, costs))
            r, e = growing_check(g, fn(sv), costs, E, F)
            if e: viol("growing", "seededRegionGrowingStatic(%s, %s): %s" % (fn(sv), costs, e)); return
            count("traces")
def p25_classes(s, mask):
    mk = lambda: build(s, mask)
    g = mk(); E, F = graph(g), faces(g); P = Plane(g)
    for cv in itertools.product((None, 0, 1, 2), repeat=len(F)):
        cl = [dict(zip(F, cv)).get(l) for l in range(g.maxFaceLabel())]
        for ign in (True, False):
            count("transitions"); count("states"); detail("classes %s" % cl)
            m, e = classification_check(mk, P, cl, E, F, ign)
            if e: viol("classification", "applyFaceClassification(%s, ignoreNone=%s): %s" % (cl, ign, e)); return
            count("traces")
def segments(e): p = [tuple(x) for x in e]; return {frozenset(x) for x in zip(p, p[1:])}
def keeps(g0, g, prot):
    """protected edges remain (possibly as part of a protected edge)"""
    now = set()
    for e in g.edgeIter(): now |= segments(e) if e.flag(PROT) else set()
    for l in prot:
        if not segments(g0.edge(l)) <= now: return "protected edge %d was removed" % l
    return ""
class Values:
    """a value per face, kept up to date: the survivor of a merge gets combine(a, b)"""
    def __init__(self, g, v, combine):
        self.v, self.combine = dict(v), combine
        self.cb = g.addMergeFacesCallbacks(self.pre, self.post)
    def pre(self, d): self.ab = (d.leftFaceLabel(), d.rightFaceLabel()); return True
    def post(self, f):
        a, b = self.ab; x = self.combine(a, b, self.v[a], self.v[b])
        del self.v[a], self.v[b]; self.v[f.label()] = x
def current(g, V):
    """costs of all merges that are possible now (faces with a protected common edge are never merged)"""
    no = {frozenset((e.leftFaceLabel(), e.rightFaceLabel())) for e in g.edgeIter() if e.flag(PROT)}
    return {e.label(): abs(V.v[e.leftFaceLabel()] - V.v[e.rightFaceLabel()]) for e in g.edgeIter() if not e.isBridge() and frozenset((e.leftFaceLabel(), e.rightFaceLabel())) not in no}
def p25_merger(s, mask, vals):
    g0 = build(s, mask); E, F = graph(g0), faces(g0); P = Plane(g0); fl = [f for f in F if f]
    inner = [l for l, a, b in E if a != b]
    for v in itertools.product(vals, repeat=len(fl)):
        for prot in [()] + [(l,) for l in inner]:
            for update in (True,):
                count("transitions"); detail("values %s protected %s" % (v, prot))
                g = build(s, mask)
                for l in prot: g.edge(l).setFlag(2, True)
                ep = geomap.EdgeProtection(g)
                val = dict(zip(fl, v)); val[0] = 50
                V = Values(g, val, lambda a, b, x, y: (x + y) / 2 if a and b else 50)
                cost = lambda d: abs(V.v[d.leftFaceLabel()] - V.v[d.rightFaceLabel()])
                arm = maputils.AutomaticRegionMerger(g, cost); log = []; arm._costLog = log; n = 0
                err = ""
                while arm._queue and not err:
                    cur = current(g, V); f0 = g.faceCount; k = arm.step(); top = arm.nextCost()
                    sv = arm.mergeStep()
                    if g.faceCount not in (f0, f0 - 1): err = "one step merged %d faces" % (f0 - g.faceCount)
                    if g.faceCount < f0:
                        n += 1
                        if not cur or abs(log[-1] - min(cur.values())) > 1e-9: err = "merged at cost %s, possible costs were %s" % (log[-1] if log else None, cur)
                        if sv is None or arm.step() != k + 1: err = "step() is %d" % arm.step()
                    count("states")
                if not err and current(g, V): err = "unprotected edges are left: %s" % graph(g)
                err = err or keeps(g0, g, prot)
                if not err and not g.checkConsistency(): err = "map inconsistent"
                # stopping at a cost, continued afterwards
                for stop in sorted(set(log)) + [-1]:
                    if err: break
                    g = build(s, mask)
                    for l in prot: g.edge(l).setFlag(2, True)
                    ep = geomap.EdgeProtection(g)
                    V = Values(g, val, lambda a, b, x, y: (x + y) / 2 if a and b else 50)
                    costs = []
                    n, q = maputils.thresholdMergeCost(g, cost, stop, costs)
                    k = next((i for i, x in enumerate(log) if x > stop), len(log))
                    if n != k or costs != log[:k]: err = "thresholdMergeCost(%s) performed %d merges at %s, expected %s" % (stop, n, costs, log[:k])
                    elif len(F) - g.faceCount > n: err = "%d faces are left after %d merges" % (g.faceCount, n)
                    elif [x for x in current(g, V).values() if x <= stop]: err = "merges at cost <= %s are left: %s" % (stop, current(g, V))
                count("traces")
                if err: viol("merger", "values %s, protected %s: %s" % (v, prot, err)); return
def p25_srg(s, mask, vals):
    SEED = maputils.flag_constants.SRG_SEED
    g0 = build(s, mask); E, F = graph(g0), faces(g0); P = Plane(g0); fl = [f for f in F if f]
    for nseed in (1, 2, 3):
        for seeds in itertools.combinations(F, nseed):
            for v in itertools.product(vals, repeat=len(F)):
                for dyn, stupid in ((False, False), (False, True), (True, False)):
                    count("transitions"); detail("seeds %s values %s %s" % (seeds, v, (dyn, stupid)))
                    g = build(s, mask); val = dict(zip(F, v)); err = []
                    for f in seeds: g.face(f).setFlag(SEED, True)
                    seedset = set(seeds); entry = {}      # candidates and the cost they were queued with
                    def enter(t):
                        for f in {p + q - t for l, p, q in graph(g) if t in (p, q) and p != q} - seedset: entry.setdefault(f, abs(val[f] - V.v[t]))
                    def combine(a, b, x, y):        # the seed's value stays
                        return x if a in seedset else y
                    V = Values(g, val, combine)
                    cost = lambda d: abs(V.v[d.leftFaceLabel()] - V.v[d.rightFaceLabel()])
                    done = []
                    def pre(d):
                        a, b = d.leftFaceLabel(), d.rightFaceLabel()
                        if (a in seedset) == (b in seedset):
                            if (a, b) != pre.last: err.append("merges faces %d and %d (seeds %s)" % (a, b, sorted(seedset)))
                            return True
                        f, t = (b, a) if a in seedset else (a, b)
                        best = min(abs(V.v[f] - V.v[x]) for l, p, q in graph(g) for x in (p, q) if f in (p, q) and x in seedset)
                        if cost(d) != best: err.append("merges face %d into seed %d at cost %s instead of %s" % (f, t, cost(d), best))
                        if not dyn and entry and entry.get(f) != min(entry.values()): err.append("merges face %d (cost %s), candidates: %s" % (f, entry.get(f), entry))
                        if limit is not None and entry.get(f, limit) > limit: err.append("merges face %d (cost %s), limit %s" % (f, entry.get(f), limit))
                        entry.pop(f, None)
                        pre.last = None; pre.f = f
                        return True
                    pre.last = None
                    def post(face):
                        seedset.discard(pre.f); 
                        for x in list(seedset):
                            if not g.face(x): seedset.discard(x)
                        seedset.add(face.label()); done.append(face.label())
                        if not dyn: enter(face.label())
                    cb = g.addMergeFacesCallbacks(pre, post); limit = None
                    if not dyn:
                        for t in sorted(seedset): enter(t)
                        if not stupid:
                            for f in entry: entry[f] = min(abs(val[f] - val[x]) for l, p, q in E for x in (p, q) if f in (p, q) and x in seedset)
                    try:
                        if dyn: maputils.seededRegionGrowing(g, cost, dyn, stupid)
                        else:
                            srg = maputils.SeededRegionGrowing(g, cost, dyn, stupid)
                            for limit in sorted(set(vals)) + [0]:
                                n0 = len(done); k = srg.growToCost(limit)
                                if k != len(done) - n0: err.append("growToCost(%s) reports %d merges instead of %d" % (limit, k, len(done) - n0))
                                if entry and min(entry.values()) <= limit: err.append("growToCost(%s) leaves %s" % (limit, entry))
                            limit = None; n0 = len(done); k = srg.step()
                            if srg.growSteps(1) != len(done) - n0 or len(done) - n0 > 1 or srg.step() != k + len(done) - n0: err.append("growSteps(1)")
                            srg.grow()
                            if srg.step() != len(done): err.append("step() is %d after %d merges" % (srg.step(), len(done)))
                    except AssertionError as x:
                        if len(E) and any((a in seeds) != (b in seeds) for l, a, b in E): err.append("no seeds found")
                    except Exception as x: err.append("%s: %s" % (type(x).__name__, x))
                    im = P.image(g)
                    comp = components(F, [(a, b) for l, a, b in E])
                    for f in F:
                        reach = [x for x in seeds if comp[x] == comp[f]]
                        if reach and (im is None or sum(im[x] == im[f] for x in seeds) != 1): err.append("face %d does not belong to exactly one seed: %s" % (f, im))
                    if not err and not g.checkConsistency(): err.append("map inconsistent")
                    count("traces"); count("states")
                    if err: viol("srg", "seeds %s, values %s, dynamic=%s, stupidInit=%s: %s" % (seeds, v, dyn, stupid, err[0])); return
def p25_small(s, mask):
    g0 = build(s, mask); F = faces(g0); P = Plane(g0)
    areas = sorted({round(f.area(), 6) for f in g0.faceIter(skipInfinite=True)}); px = sorted({f.pixelArea() for f in g0.faceIter(skipInfinite=True)})
    E = graph(g0)
    for prot in [()] + [(l,) for l, a, b in E] + list(itertools.combinations([l for l, a, b in E], 2)):
        for what, lim in [("minArea", a) for a in areas + [a + 0.5 for a in areas]] + [("minPixelArea", p + 1) for p in px]:
            for measure in (None, lambda d: d.rightFace().area(), lambda d: -d.rightFace().area()):
                count("transitions"); count("states"); detail("%s %s prot %s" % (what, lim, prot))
                g = build(s, mask)
                for l in prot: g.edge(l).setFlag(2, True)
                ep = geomap.EdgeProtection(g)
                err = ""; log = []
                def pre(d):
                    a, b = d.leftFace(), d.rightFace(); size = (lambda f: f.area()) if what == "minArea" else (lambda f: f.pixelArea())
                    small = [f for f in (a, b) if f.label() and size(f) < lim]
                    if not small: log.append("faces %d and %d are not small" % (a.label(), b.label()))
                    return True
                cb = g.addMergeFacesCallbacks(pre, lambda f: None)
                n = maputils.removeSmallRegions(g, costMeasure=measure, **{what: lim})
                if log: err = log[0]
                if g.faceCount + n != len(F): err = "%d merges reported, %d of %d faces left" % (n, g.faceCount, len(F))
                for f in g.faceIter(skipInfinite=True):
                    size = f.area() if what == "minArea" else f.pixelArea()
                    if size < lim and any(d.rightFaceLabel() != f.label() and not any(x.edge().flag(PROT) for x in [y for y in maputils.contourDarts(f) if y.rightFaceLabel() == d.rightFaceLabel()]) for d in maputils.contourDarts(f)): err = "face %d of size %s is left" % (f.label(), size)
                err = keeps(g0, g, prot) or err
                im = P.image(g)
                if im is None or not g.checkConsistency(): err = "map inconsistent"
                count("traces")
                if err: viol("small", "removeSmallRegions(%s=%s), protected %s: %s" % (what, lim, prot, err)); return
def p25_utils(s, mask):
    g = build(s, mask); F = faces(g); E = graph(g); P = Plane(g)
    count("states")
    for f in g.faceIter():
        l = f.label(); count("transitions")
        ds = [d.label() for d in maputils.contourDarts(f)]
        want = [x for e, a, b in E for x, y in ((e, a), (-e, b)) if y == l]
        if sorted(ds) != sorted(want): return viol("utils", "contourDarts(%d): %s" % (l, ds))
        nb = [d.rightFaceLabel() for d in maputils.neighborFaces(f)]
        if sorted(nb) != sorted({a + b - l for e, a, b in E if l in (a, b) and a != b}): return viol("utils", "neighborFaces(%d): %s" % (l, nb))
        for k in F:
            if k == l: continue
            d = maputils.findCommonDart(f, g.face(k)); adj = any({a, b} == {l, k} for e, a, b in E)
            if (d is not None) != adj or (adj and (d.leftFaceLabel(), d.rightFaceLabel()) != (l, k)): return viol("utils", "findCommonDart(%d, %d): %s" % (l, k, d))
            m = build(s, mask); r = maputils.mergeFacesByLabel(m, l, k); count("transitions")
            im = P.image(m)
            if adj:
                if im is None or not same_partition(components(F, [(l, k)]), im) or r is None or r.label() != im[l] or not m.checkConsistency(): return viol("utils", "mergeFacesByLabel(%d, %d): %s" % (l, k, im))
            elif r is not None or im != {x: x for x in F}: return viol("utils", "mergeFacesByLabel(%d, %d) without common edge: %s" % (l, k, im))
        if l:
            # regions inside a hole contour
            for hc in f.holeContours():
                h = sorted(x.label() for x in maputils.holeComponent(hc)); inside = []
                rest = components(F, [(a, b) for e, a, b in E if l not in (a, b)]); start = {d.rightFaceLabel() for d in hc.phiOrbit()} - {l}
                comp = set()
                todo = list(start)                       # faces of the connected component of the contour (holes of these faces do not belong to it)
                while todo:
                    x = todo.pop()
                    if x in comp: continue
                    comp.add(x)
                    for d in g.face(x).contour().phiOrbit():
                        if d.rightFaceLabel() != l: todo.append(d.rightFaceLabel())
                if h != sorted(comp): return viol("utils", "holeComponent of face %d: %s, expected %s" % (l, h, sorted(comp)))
                h2 = [x.label() for x in maputils.holeComponent(hc, True)]
                if h2[0] != l or sorted(h2[1:]) != h: return viol("utils", "holeComponent(..., True) of face %d: %s" % (l, h2))
    for f in g.faceIter(skipInfinite=True):
        count("transitions")
        try: p = maputils.pointInFace(f)
        except TypeError: continue                  # (needs vector types this vigra does not provide)
        if not f.contains(p) or g.faceAt(p).label() != f.label(): return viol("utils", "pointInFace(%d): %s lies in face %d" % (f.label(), tuple(p), g.faceAt(p).label()))
    for what in range(16):
        for li in (True, False):
            m = build(s, mask, li=li, isolated=True); count("transitions")
            before = (m.nodeCount, m.edgeCount, m.faceCount)
            n = maputils.removeCruft(m, what); err = ""
            after = (m.nodeCount, m.edgeCount, m.faceCount); im = P.image(m)
            if im is None or not m.checkConsistency(): err = "map inconsistent"
            elif what & 8 and after[2] != 1: err = "%d faces are left" % after[2]
            elif not what & 8 and im != {x: x for x in F}: err = "faces were merged: %s" % im
            elif what & 4 and any(a == b for e, a, b in graph(m)): err = "bridges are left"
            elif not what & 12 and any(m.edge(e) is None for e, a, b in E) and not what & 2: err = "edges were removed"
            elif what & 2 and any(x.hasDegree(2) and x.anchor().endNodeLabel() != x.label() for x in m.nodeIter()): err = "nodes of degree 2 are left"
            elif what & 1 and any(x.isIsolated() for x in m.nodeIter()): err = "isolated nodes are left"
            elif not what & 15 and (n != 0 or after != before): err = "map changed"
            elif what in (1, 2, 3) and n != before[0] - after[0]: err = "%d operations reported, %d nodes removed" % (n, before[0] - after[0])
            elif what in (4, 8, 12) and n != before[1] - after[1]: err = "%d operations reported, %d edges removed" % (n, before[1] - after[1])
            if err: return viol("utils", "removeCruft(%d): %s" % (what, err))
    count("traces")
def run(name, s, mask, f, *a):
    if too_many() or not mine("%s/%s/m%x/%s" % (name, s.name, mask, "".join(map(str, a)).replace(" ", ""))): return
    try: f(s, mask, *a)
    except Exception as x:
        import traceback; viol("exception", "%s: %s at %s" % (type(x).__name__, x, traceback.format_exc(limit=-3)))
def full(s): return (1 << len(s.edges)) - 1
def P25():
    W, G = window(), grid(3, 3)
    T = thorough()
    for s in SCENES + [W]:
        for mask in range(1 << len(s.edges)): run("utils", s, mask, p25_utils)
    for mask in range(1 << 12): run("utils", G, mask, p25_utils) if T or bin(mask).count("1") >= 9 else None
    # cost assignments are split by the mask of edges that are missing
    for mask in range(1, 1 << len(W.edges)):
        if bin(mask).count("1") >= 5: run("costs", W, mask, p25_costs, (1, 2)); 
    for s in SCENES:
        for mask in range(1, 1 << len(s.edges)):
            if bin(mask).count("1") <= (7 if T else 4): run("costs", s, mask, p25_costs, (None, 1, 2))
            elif mask == full(s): run("costs", s, mask, p25_costs, (1, 2, 3) if T else (1, 2))
    run("costs", G, full(G), p25_costs, (1, 2))
    for s in SCENES + [W]:
        for mask in range(1, 1 << len(s.edges)):
            if bin(mask).count("1") <= (5 if T else 4) or (mask == full(s) and T): run("seeds", s, mask, p25_seeds, (None, 1, 2) if bin(mask).count("1") <= 3 or T else (1, 2))
            run("classes", s, mask, p25_classes) if bin(mask).count("1") >= 3 and (T or bin(mask).count("1") in (4, 5) or mask == full(s)) else None
            if bin(mask).count("1") >= len(s.edges) - (2 if T else 1):
                run("merger", s, mask, p25_merger, (1, 2, 4) if T else (1, 4)); run("srg", s, mask, p25_srg, (1, 2, 4) if T else (1, 3)); run("small", s, mask, p25_small)

# ---------------------------------------------------------------- P26
def bulk_ops(g):
    E = graph(g); ls = [e for e, a, b in E]
    r = [("removeBridges",), ("removeIsolatedNodes",), ("mergeDegree2Nodes",)] + [("complete", x) for l, a, b in E if a != b for x in (l, -l)]
    r += [("removeEdges",) + t for k in (1, 2) for t in itertools.combinations(ls, k)]
    return r
def bulk(g, op):
    n = op[0]
    if n == "complete": geomap.mergeFacesCompletely(g.dart(op[1]))
    elif n == "removeEdges": geomap.removeEdges(g, list(op[1:]))
    elif n in ("removeBridges", "removeIsolatedNodes", "mergeDegree2Nodes"): getattr(geomap, n)(g)
    else: perform(g, op)
def p26_case(s, mask, li, prot):
    """every operation sequence of length 2 (elementary and bulk), recorded and replayed"""
    def mk():
        g = build_flags(s, mask, li=li)
        for e in g.edgeIter(): e.setFlag(255, False); e.setFlag(4, True) if prot >> e.label() & 1 else None
        return g
    def go(ops):
        g = mk(); ep = geomap.EdgeProtection(g); h = maputils.LiveHistory(g)
        for op in ops: bulk(g, op)
        return g, h, ep
    g0 = mk(); first = operations(g0, False) + bulk_ops(g0); seen = set()
    for a in first:
        ga, ha, ea = go([a]); second = operations(ga, False) + bulk_ops(ga)
        if not distinct(seen, snapshot(ga)): second = []
        for seq in [[a]] + [[a, b] for b in second]:
            count("transitions"); detail(show(seq))
            g, h, ep = go(seq); want = snapshot(g)
            m = mk(); n = maputils.History(list(h)).replay(m, verbose=False)
            geomap.removeIsolatedNodes(m); geomap.removeIsolatedNodes(g)        # (not recorded)
            e = differ(snapshot(g), snapshot(m))
            if n != len(h): e = "%d operations replayed instead of %d" % (n, len(h))
            if e: return viol("replay", "%s, recorded %s: %s" % (show(seq), list(h), e))
            # the commands do the same, and any prefix gives the state at that time
            m = mk(); env = {"map": m}
            for line in maputils.History(list(h)).commands().splitlines(): eval(line, env)
            geomap.removeIsolatedNodes(m)
            e = differ(snapshot(g), snapshot(m))
            if e: return viol("commands", "%s: %s" % (show(seq), e))
            # detached histories do not record any more
            k = len(h); h.detachHooks(); ops = operations(g, False)
            for op in ops[:1]: perform(g, op)
            if len(h) != k: return viol("detach", "%s: detached history still records" % show(seq))
            # contraction kernel
            if li and all(o[0] != "splitEdge" for o in seq):
                g, h, ep = go(seq); kern = maputils.extractContractionKernel(g); P = Plane(mk()); im = P.image(g)
                for f, t in im.items():
                    if kern[f] != (t if t else None): return viol("kernel", "%s: face %d became part of face %d, kernel: %s" % (show(seq), f, t, kern))
            count("traces")
def P26():
    T = thorough()
    for s in SCENES + [window()]:
        n = len(s.edges)
        for mask in range(1, 1 << n):
            nb = bin(mask).count("1")
            for li in (True, False):
                for prot in [0] + [1 << l for l in range(1, nb + 1)]:
                    if T or nb <= 3 or (mask == full(s) and li and prot == 0 and n <= 7) or (nb == 4 and li and prot == 0): run("replay", s, mask, p26_case, li, prot)

# ---------------------------------------------------------------- P27
def img(em, d):                       # image of dart label d under the edge mapping
    e = em[abs(d)]
    return None if e is None else (e.label() if d > 0 else -e.label())
def p27_compare(g, m, nm, em, kept, move, offset=(0, 0, 0)):
    """m contains a copy of the edges `kept` and all nodes of g"""
    nl = [n.label() for n in g.nodeIter()]
    for l, n in enumerate(nm):
        if (n is not None) != (l in nl): return "node %d is mapped to %s" % (l, n)
    if len({nm[l].label() for l in nl}) != len(nl): return "two nodes have the same image"
    for l, e in enumerate(em):
        if (e is not None) != (l in kept): return "edge %d is mapped to %s" % (l, e)
    if m.nodeCount - offset[0] != len(nl) or m.edgeCount - offset[1] != len(kept): return "%d nodes, %d edges instead of %d, %d" % (m.nodeCount - offset[0], m.edgeCount - offset[1], len(nl), len(kept))
    for l in nl:
        if tuple(nm[l].position()) != move(g.node(l).position()): return "node %d at %s" % (l, nm[l].position())
    for l in kept:
        e, f = g.edge(l), em[l]
        if (f.startNodeLabel(), f.endNodeLabel()) != (nm[e.startNodeLabel()].label(), nm[e.endNodeLabel()].label()): return "ends of edge %d" % l
        if [tuple(p) for p in f] != [move(p) for p in e]: return "geometry of edge %d: %s" % (l, [tuple(p) for p in f])
        if f.flags() != e.flags(): return "flags of edge %d: %x" % (l, f.flags())
    if [em[l].label() for l in kept] != list(range(offset[2] + 1, offset[2] + len(kept) + 1)) and not offset[2]: return "labels are not consecutive: %s" % [em[l].label() for l in kept]
    if g.edgesSorted() and m.edgesSorted():
        for l in kept:
            for d in (l, -l):
                n = g.dart(d).nextSigma()
                while n.edgeLabel() not in kept: n.nextSigma()
                if m.dart(img(em, d)).nextSigma().label() != img(em, n.label()): return "dart %d: next is %d instead of %d" % (img(em, d), m.dart(img(em, d)).nextSigma().label(), img(em, n.label()))
    return ""
def p27_check(h, mk):
    g = mk(); s0 = snapshot(g); ls = [e.label() for e in g.edgeIter()]; count("traces")
    same = lambda p: tuple(p); other = lambda p: (2 * p[0] + 1, 2 * p[1] - 1)
    m, nm, em = maputils.copyMapContents(g)
    e = p27_compare(g, m, nm, em, ls, same)
    if e: return "copyMapContents: " + e
    m, nm, em = maputils.copyMapContents(g, None, lambda e: geomap.Polygon([other(p) for p in e]))
    # (isolated nodes keep their position)
    iso = {tuple(n.position()) for n in g.nodeIter() if n.isIsolated()}
    e = p27_compare(g, m, nm, em, ls, lambda p: tuple(p) if tuple(p) in iso else other(p))
    if e: return "copyMapContents(edgeTransform): " + e
    drops = [c for k in range(1, len(ls) + 1) for c in itertools.combinations(ls, k)] if len(ls) <= 5 else [(l,) for l in ls] + list(itertools.combinations(ls, 2))
    for drop in drops:
        count("transitions")
        m, nm, em = maputils.copyMapContents(g, None, lambda e: None if e.label() in drop else e)
        e = p27_compare(g, m, nm, em, [l for l in ls if l not in drop], same)
        if e: return "copyMapContents without edges %s: %s" % (drop, e)
    # into a map that is not empty
    t = build(chain(), 63, init=False); base = snapshot(t); off = (t.nodeCount, t.edgeCount, t.maxEdgeLabel() - 1)
    if g.edgesSorted(): t.sortEdgesDirectly()
    m, nm, em = maputils.copyMapContents(g, t); count("transitions")
    e = p27_compare(g, m, nm, em, ls, same, off)
    if e: return "copyMapContents into another map: " + e
    for x in base["edges"] + base["nodes"]:
        if x not in snapshot(t)["edges"] + snapshot(t)["nodes"]: return "copyMapContents into another map changed %s" % (x,)
    if g.mapInitialized():
        m = maputils.copyMap(g); count("transitions"); em = {l: i + 1 for i, l in enumerate(ls)}
        if not m.mapInitialized() or m.hasLabelImage() != g.hasLabelImage() or m.faceCount != g.faceCount or not m.checkConsistency(): return "copyMap: not consistent"
        fm = {0: 0}
        for l in ls:
            for d in (l, -l):
                a, b = g.dart(d).leftFaceLabel(), m.dart(em[l] if d > 0 else -em[l]).leftFaceLabel()
                if fm.setdefault(a, b) != b: return "copyMap: dart %d is in the wrong face" % d
        if sorted(fm.values()) != sorted(f.label() for f in m.faceIter()): return "copyMap: faces %s" % fm
        for a, b in fm.items():
            if (g.face(a).flags() ^ m.face(b).flags()) & 0x0fffffff: return "copyMap: flags of face %d: %x instead of %x" % (b, m.face(b).flags(), g.face(a).flags())
            if abs(g.face(a).area() - m.face(b).area()) > 1e-9 or (g.hasLabelImage() and g.face(a).pixelArea() != m.face(b).pixelArea()): return "copyMap: areas of face %d" % b
    # dual
    if g.mapInitialized() and ls:
        inner = [l for l, a, b in graph(g) if a and b and a != b]
        for sub in ([inner] + [[l] for l in inner] + [list(t) for t in itertools.combinations(inner, 2)]):
            for mid in (True, False):
                count("transitions")
                d = maputils.dualMap(g, sub, midPoints=mid, initializeMap=False)
                if [(e.label(), e.startNodeLabel(), e.endNodeLabel()) for e in d.edgeIter()] != [(l, a, b) for l, a, b in graph(g) if l in sub]: return "dualMap(%s): edges %s" % (sub, list(d.edgeIter()))
                if {n.label() for n in d.nodeIter()} != {x for l, a, b in graph(g) if l in sub for x in (a, b)}: return "dualMap(%s): nodes %s" % (sub, list(d.nodeIter()))
        mst = [l if l in inner else None for l in range(g.maxEdgeLabel())]
        if inner:
            count("transitions")
            try: m = maputils.mst2map(mst, g)
            except RuntimeError: m = None               # (straight connections may have the same direction)
            if m and [e.label() for e in m.edgeIter()] != inner: return "mst2map(%s): %s" % (mst, list(m.edgeIter()))
    e = differ(s0, snapshot(g))
    if e: return "the source was changed: " + e
    return ""
def p27_graph(s, mask, dirs, phase):
    def mk():
        g = build(s, mask, dirs=dirs, init=False, isolated=True, sparse=True)
        if phase: g.sortEdgesDirectly()
        for e in g.edgeIter(): e.setFlag((e.label() << 4) | (1 << (20 + e.label() % 8)), True)
        return g
    count("states"); e = p27_check([], mk)
    if e: viol("graph", e)
def P27():
    T = thorough()
    for s in SCENES:
        n = len(s.edges)
        for mask in range(1 << n):
            nb = bin(mask).count("1")
            for phase in (0, 1):
                for dirs in (0, 0x55) if nb > 5 and not T else (0, 0x55, 0xff, 0x33): run("graph", s, mask, p27_graph, dirs & mask, phase)
            if mask == full(s): explore(s, mask, 3 if T else 2, p27_check, isolated=True); explore(s, mask, 2 if T else 1, p27_check, li=False, dirs=0x55 & mask)
            else: explore(s, mask, 2 if T and nb <= 4 else 1 if T or nb <= 4 else 0, p27_check, isolated=True)

# ---------------------------------------------------------------- P28
def on(e, p): return tuple(p) in [tuple(q) for q in e]
class Siv:
    def __init__(self, v): self.v = v
    def __getitem__(self, p): return self.v.get(tuple(p), 1000 + 7 * p[0] + p[1])
def p28_indices(s, mask, sad):
    """saddles of every edge (sad: where on the edge) through all histories"""
    import statistics as S
    s2 = Scene(s.name, s.W, s.H); s2.nodes = s.nodes               # (every edge with an inner point)
    s2.edges = [(a, b, p if len(p) > 2 else [p[0], ((3 * p[0][0] + p[1][0]) / 4, (3 * p[0][1] + p[1][1]) / 4), p[1]]) for a, b, p in s.edges]
    split = sad in (1, 8, 9)
    def mk():
        low = mask & -mask
        g = build(s2, mask - low if sad == 8 else mask, init=sad != 8, isolated=sad == 8)
        for e in g.edgeIter(): e.setFlag(1, True) if sad == 9 and e.label() == 1 else None
        pos = {}; fl = [None] * g.maxEdgeLabel(); where = {}
        for e in g.edgeIter():
            i = len(e) // 2 if e.isLoop() or sad in (1, 8, 9) else 0 if sad == 0 else len(e) - 1
            fl[e.label()] = (e.startNodeLabel(), e.endNodeLabel(), [tuple(p) for p in e], i)
            if not (sad == 9 and e.label() == 1):
                where.setdefault(tuple(e[i]), set()).add(e.label()); pos[tuple(e[i])] = (e.label() * 37) % 11
        st = S.WatershedStatistics(g, fl, Siv(pos))
        if sad == 8:              # an edge that is no watershed is added afterwards
            a, b, p = s2.edges[low.bit_length() - 1]
            g.addEdge(g.node(a), g.node(b), p).setFlag(1, True); st.nonWatershedEdgesAdded(); g.sortEdgesDirectly(); g.initializeMap()
        return g, st, where, pos
    # origin of the segments of the initial map
    g0 = mk()[0]; origin = {sg: e.label() for e in g0.edgeIter() for sg in segments(e)}
    first = {e.label(): e for e in g0.edgeIter()}
    def check(g, st, where, pos):
        for e in g.edgeIter():
            pts = [tuple(p) for p in e]; org = {origin.get(frozenset(x)) for x in zip(pts, pts[1:])}
            want = sorted(p for p, ls in where.items() if p in pts and (split or org & ls))
            have = [tuple(p) for p in st.edgeSaddles(e)]
            if sorted(set(have)) != want: return "saddles of edge %d: %s, expected %s" % (e.label(), have, want)
            idx = st.edgeIndices(e)
            if [pts[i] for i in idx] != have: return "indices of edge %d: %s" % (e.label(), idx)
            n = len(pts) - 1
            for d in (e.dart(), e.dart().nextAlpha()):
                q = [tuple(p) for p in d]
                if sorted({q[i] for i in st.dartIndices(d)}) != want: return "indices of dart %d: %s" % (d.label(), st.dartIndices(d))
            if e.flag(1): continue
            pv = st.dartPassValue(e); exp = min(pos[p] for p in want) if want else None
            if want and pv != exp: return "pass value of edge %d is %s instead of %s" % (e.label(), pv, exp)
        return ""
    ops0 = operations(g0)
    depth = 3 if thorough() else 2
    seen = set(); todo = [[]]
    while todo and not too_many():
        h = todo.pop(0); detail(show(h))
        g, st, where, pos = mk()
        for op in h: perform(g, op)
        k = repr(sorted(snapshot(g).items()))
        if k in seen: continue
        seen.add(k); count("states")
        e = check(g, st, where, pos)
        if e: viol("indices", "%s: %s" % (show(h), e)); return
        # watersheds are not merged with the border
        if len(h) < depth:
            for op in operations(g, split, split and len(h) == 0): count("transitions"); todo.append(h + [op])
        else: count("traces")
def p28_edges(s, mask, comb):
    """merged edges, costs and basin depths through all histories of merges and removals"""
    import statistics as S
    def mk():
        g = build(s, mask); c = [None] + [(l * 37) % 11 + 1.0 for l in range(1, g.maxEdgeLabel())]
        me = S.MergedEdges(g)
        if comb == 2:        # costs given by a function, none for border edges
            for e in g.edgeIter():
                if e.label() % 3 == 1: e.setFlag(1, True); c[e.label()] = None
            return g, me, S.StaticEdgeCosts(g, costMeasure=lambda d: (d.edgeLabel() * 37) % 11 + 1.0, combiner=S.mergedEdgeCostWeightedByLength), c
        sc = S.StaticEdgeCosts(g, costs=c, combiner=S.mergedEdgeCostWeightedByLength if comb else None)
        return g, me, sc, c
    g0, _, _, c0 = mk(); origin = {sg: e.label() for e in g0.edgeIter() for sg in segments(e)}; P = Plane(g0); F0 = [f for f in faces(g0) if f]
    length = {e.label(): e.length() for e in g0.edgeIter()}
    depth = 4 if thorough() else 3
    seen = set(); todo = [[]]
    while todo and not too_many():
        h = todo.pop(0); detail(show(h))
        g, me, sc, c = mk()
        minima = [P.samples[f][0] for f in F0]; depthOf = {f: (f * 5) % 7 for f in F0}; siv = Siv({P.samples[f][0]: depthOf[f] for f in F0})
        ws = S.WatershedBasinStatistics(g, minima, siv); ws._basinDepth[0] = -1        # (no depth is known for the infinite face)
        for op in h:
            before = (g.nodeCount, g.edgeCount); bad = not comb or (comb == 2 and op[0] == "mergeEdges" and None in [sc(d) for d in g.dart(op[1]).sigmaOrbit()]); r = perform(g, op)
            if bad and op[0] == "mergeEdges" and (r is not None or (g.nodeCount, g.edgeCount) != before): viol("costs", "%s: edges were merged although costs cannot be combined" % show(h)); return
        k = repr(sorted(snapshot(g).items()))
        if k in seen: continue
        seen.add(k); count("states"); err = ""; allc = []
        for e in g.edgeIter():
            comp = sorted({origin[x] for x in segments(e)}); allc += comp
            if sorted(me[e]) != comp or sorted(me[e.label()]) != comp: err = "edge %d is composed of %s instead of %s" % (e.label(), me[e], comp)
            L = sum(length[x] for x in comp); want = None if None in [c0[x] for x in comp] else sum(c0[x] * length[x] for x in comp) / L
            for d in (e.dart(), e.dart().nextAlpha()):
                if sc(d) != want if None in (want, sc(d)) else abs(sc(d) - want) > 1e-9: err = "cost of edge %d is %s instead of %s" % (e.label(), sc(d), want)
        if sorted(me.level0Labels()) != sorted(allc): err = "level0Labels: %s instead of %s" % (me.level0Labels(), allc)
        im = P.image(g)
        for f in faces(g):
            if f:
                want = min(depthOf[x] for x in F0 if im[x] == f)
                if ws._basinDepth[f] != want: err = "depth of face %d is %s instead of %s" % (f, ws._basinDepth[f], want)
        if c != c0: err = "the caller's costs were changed"
        if not err:         # saved and restored with the map
            g.ws = ws
            g2 = pickle.loads(pickle.dumps(g, 2)); del g.ws
            if list(g2.ws._basinDepth) != list(ws._basinDepth): err = "restored: basin depths %s" % g2.ws._basinDepth
        if err: viol("attributes", "%s: %s" % (show(h), err)); return
        if len(h) < depth:
            for op in operations(g, False):
                if op[0] != "removeIsolatedNode": count("transitions"); todo.append(h + [op])
        else: count("traces")
def p28_polyline(n, cut):
    """statistics of values along edges: sequences of (value, length), divided into two parts that are merged"""
    val = list(itertools.product((-2.0, -1.0, 0.0, 3.0), (1.0, 2.0)))
    for seq in itertools.product(val, repeat=n):
        for early in (False, True):
            count("transitions"); count("states")
            for k in (geomap.PolylineStatistics, geomap.QuantileStatistics):
                a, b = fed(k, seq[:cut]), fed(k, seq[cut:]); L = sum(l for v, l in seq)
                if early: stats_of(a), stats_of(b)
                wb = stats_of(b); a.merge(b)
                if (a.average(), a.min(), a.max()) != (sum(v * l for v, l in seq) / L, min(seq)[0], max(seq)[0]): return viol("polyline", "%s|%s: average, minimum, maximum: %s" % (seq[:cut], seq[cut:], (a.average(), a.min(), a.max())))
                if stats_of(b) != wb: return viol("polyline", "merge() changed its argument")
            for q in (0, 0.125, 0.25, 0.5, 0.75, 0.875, 1):
                want = min(v for v, l in seq if sum(m for w, m in seq if w <= v) >= q * L)
                if a.quantile(q) != want: return viol("polyline", "%s|%s: quantile(%s) = %s instead of %s" % (seq[:cut], seq[cut:], q, a.quantile(q), want))
            count("traces")
def P28():
    T = thorough()
    for n in range(1, 6 if T else 5):
        for cut in range(n + 1):
            if mine("polyline/%d/%d" % (n, cut)): p28_polyline(n, cut)
    for s in SCENES + [window()]:
        n = len(s.edges)
        for mask in range(1, 1 << n):
            nb = bin(mask).count("1")
            for sad in (0, 1, 2, 8, 9):
                if T or nb <= 3 or mask == full(s) and sad in (1, 2): run("indices", s, mask, p28_indices, sad)
            for comb in (0, 1, 2):
                if T or nb <= 3 or mask == full(s): run("edges", s, mask, p28_edges, comb)
{"P24": P24, "P25": P25, "P26": P26, "P27": P27, "P28": P28}[C.prop]()
sys.exit(finish())
