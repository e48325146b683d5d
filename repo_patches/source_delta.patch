From 521a7111c8d0416ef601eaf05aa1407313259f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:46 +0000
Subject: [PATCH 01/53] fix: keep the outer contour first when mergeFaces()
 keeps the enclosed face

If the enclosing face is the smaller one, it is merged into the face it
encloses.  Its outer contour was then appended behind the survivor's
anchors, so that the survivor's first contour was a hole.
---
 src/geomap/cppmap.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index d0b3230..cb1ef16 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -2098,6 +2098,11 @@ GeoMap::FacePtr GeoMap::mergeFaces(const GeoMap::Dart &dart)
         }
     }
 
+    // if survivor is enclosed by mergedFace, the outer contour of the
+    // latter becomes the survivor's outer contour (i.e. first anchor):
+    if(contour2 != mergedFace.contoursBegin() && !survivor.anchors_.empty())
+        std::swap(survivor.anchors_.front(), mergedFace.anchors_.front());
+
     // append all remaining anchors to survivor's list:
     if(mergedFace.anchors_.size() > 1)
     {
-- 
2.43.0


From cabbcf7d63b2957112168763b6d9b943dbc3c39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:49 +0000
Subject: [PATCH 02/53] fix: do not dereference missing scanlines when merging
 edges

Edge::concatenate() used the other edge's scanlines without creating
them first if the other edge had to be reversed (crash when only the
surviving edge's scanlines had been requested before, and there is no
label image).
---
 src/geomap/cppmap.cxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index cb1ef16..da7323e 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -200,9 +200,10 @@ void GeoMap::Edge::concatenate(Edge &other, bool atEnd, bool reverse)
 
     if(scanLines_.get())
     {
-        if(reverse) // FIXME: call other.scanLines() (might be NULL)
-            other.scanLines_->reverse();
-        (*scanLines_) += other.scanLines();
+        vigra::Scanlines otherScanLines(other.scanLines());
+        if(reverse)
+            otherScanLines.reverse();
+        (*scanLines_) += otherScanLines;
     }
 }
 
-- 
2.43.0


From d29db749e775e57063a4d54441ce4e134b72906e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:49 +0000
Subject: [PATCH 03/53] fix: invalidate an edge's scanlines in splitEdge()
 without label image, too

---
 src/geomap/cppmap.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index da7323e..d3a6425 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -1938,9 +1938,9 @@ GeoMap::EdgePtr GeoMap::splitEdge(
             changedNode.anchor_ = -(int)result->label();
     }
 
+    edge.scanLines_.reset();
     if(labelImage_)
     {
-        edge.scanLines_.reset();
         rawAddEdgeToLabelImage(edge.scanLines(), *labelImage_, -1);
         rawAddEdgeToLabelImage(result->scanLines(), *labelImage_, -1);
     }
-- 
2.43.0


From 7facc5b2613f2304024a527b58fa53ca02503b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:49 +0000
Subject: [PATCH 04/53] fix: leave the map alone if changeFaceLabels() rejects
 the new labels

Faces were already relabelled before a later entry was found invalid.
---
 src/geomap/cppmap.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index d3a6425..bde81e2 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -1234,8 +1234,10 @@ void GeoMap::changeFaceLabels(
             !newFaces[newFaceLabels[l]],
             "changeFaceLabels: trying to map multiple faces to the same label");
         newFaces[newFaceLabels[l]] = faces_[l];
-        faces_[l]->label_ = newFaceLabels[l];
     }
+    for(CellLabel l = 0; l < newFaceLabels.size(); ++l)
+        if(faces_[l])
+            faces_[l]->label_ = newFaceLabels[l];
     std::swap(faces_, newFaces);
 
     for(EdgeIterator it = edgesBegin(); it.inRange(); ++it)
-- 
2.43.0


From 81612766b26e681ff29f9eaf7211b08d015833f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:49 +0000
Subject: [PATCH 05/53] fix: reset the infinite face's pixelArea() in
 setHasLabelImage(true)

---
 src/geomap/cppmap.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index bde81e2..4344b86 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -993,13 +993,15 @@ void GeoMap::setHasLabelImage(bool onoff)
             LabelImage::size_type(imageSize().width(), imageSize().height()), 0);
         faceLabelLUT_.initIdentity(faces_.size());
 
+        for(FaceIterator it = facesBegin(); it.inRange(); ++it)
+            (*it)->pixelArea_ = 0;
+
         for(FaceIterator it = finiteFacesBegin(); it.inRange(); ++it)
         {
             std::auto_ptr<vigra::Scanlines> scanlines =
                 (*it)->scanLines();
             fillScannedPoly(*scanlines, (int)(*it)->label(),
                             destMultiArrayRange(*labelImage_));
-            (*it)->pixelArea_ = 0;
         }
 
         for(EdgeIterator it = edgesBegin(); it.inRange(); ++it)
-- 
2.43.0


From 0d4dedcb46f3c2e11839330dd8c615e99ed98341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:49 +0000
Subject: [PATCH 06/53] fix: let setHasLabelImage(true) fill enclosed faces
 after enclosing ones

Filling the faces in label order overwrote faces within holes of faces
with a larger label.
---
 src/geomap/cppmap.cxx | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 4344b86..a764f66 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -980,6 +980,14 @@ typedef vigra::MultiArray<2, int> LabelImage;
 void markEdgeInLabelImage(
     const vigra::Scanlines &scanlines, LabelImage &labelImage);
 
+struct OuterContourAreaCompare
+{
+    bool operator()(GeoMap::FacePtr f1, GeoMap::FacePtr f2) const
+    {
+        return contourArea(f1->contour()) > contourArea(f2->contour());
+    }
+};
+
 void GeoMap::setHasLabelImage(bool onoff)
 {
     if(onoff == hasLabelImage())
@@ -996,11 +1004,18 @@ void GeoMap::setHasLabelImage(bool onoff)
         for(FaceIterator it = facesBegin(); it.inRange(); ++it)
             (*it)->pixelArea_ = 0;
 
+        // enclosing faces must be filled before the ones in their holes:
+        GeoMap::Faces sortedFaces;
         for(FaceIterator it = finiteFacesBegin(); it.inRange(); ++it)
+            sortedFaces.push_back(*it);
+        std::sort(sortedFaces.begin(), sortedFaces.end(),
+                  OuterContourAreaCompare());
+
+        for(unsigned int i = 0; i < sortedFaces.size(); ++i)
         {
             std::auto_ptr<vigra::Scanlines> scanlines =
-                (*it)->scanLines();
-            fillScannedPoly(*scanlines, (int)(*it)->label(),
+                sortedFaces[i]->scanLines();
+            fillScannedPoly(*scanlines, (int)sortedFaces[i]->label(),
                             destMultiArrayRange(*labelImage_));
         }
 
-- 
2.43.0


From 3f4cf33c27d79a5e77c550fd59afde56ee26bde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:16 +0000
Subject: [PATCH 07/53] fix: erase the right entry of the node position index

With several nodes at the same position, removing or moving one of them
erased the index entry of another one, after which nearestNode() returned
nothing instead of the remaining node.
---
 src/geomap/cppmap.cxx | 15 ++++++++++++---
 src/geomap/cppmap.hxx |  5 ++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index a764f66..cfbdc1d 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -1339,6 +1339,17 @@ GeoMap::NodePtr GeoMap::nearestNode(
     return NULL_PTR(GeoMap::Node);
 }
 
+void GeoMap::eraseFromNodeMap(const GeoMap::Node &node)
+{
+    NodeMap::iterator it(
+        nodeMap_.nearest(PositionedNodeLabel(node.position(), node.label()),
+                         vigra::NumericTraits<double>::epsilon()));
+    // several nodes may share the same position (and are found in order):
+    while(it->second.payload != node.label())
+        ++it;
+    nodeMap_.erase(it);
+}
+
 bool GeoMap::checkConsistency()
 {
     //std::cerr << "GeoMap[" << this << "].checkConsistency()\n";
@@ -2191,9 +2202,7 @@ GeoMap::FacePtr GeoMap::mergeFaces(const GeoMap::Dart &dart)
 void GeoMap::Node::setPosition(const Vector2 &p)
 {
     vigra_precondition(initialized(), "setPosition() of uninitialized node!");
-    map_->nodeMap_.erase(
-        map_->nodeMap_.nearest(PositionedNodeLabel(position_, label_),
-                               vigra::NumericTraits<double>::epsilon()));
+    map_->eraseFromNodeMap(*this);
     position_ = p;
 
     if(!isIsolated())
diff --git a/src/geomap/cppmap.hxx b/src/geomap/cppmap.hxx
index 337c426..7e68f06 100644
--- a/src/geomap/cppmap.hxx
+++ b/src/geomap/cppmap.hxx
@@ -363,6 +363,7 @@ class GeoMap
     void resizeSigmaMapping(SigmaMapping::size_type newSize);
     void insertSigmaPredecessor(int successor, int newPredecessor);
     void detachDart(int dartLabel);
+    void eraseFromNodeMap(const Node &node);
 
   public:
     NodePtr nearestNode(
@@ -1316,9 +1317,7 @@ inline void GeoMap::Node::uninitialize()
     GeoMap *map = map_;
     map_ = NULL; // DON'T MESS WITH THIS!
     --map->nodeCount_;
-    map->nodeMap_.erase(
-        map->nodeMap_.nearest(PositionedNodeLabel(position_, label_),
-                              vigra::NumericTraits<double>::epsilon()));
+    map->eraseFromNodeMap(*this);
     RESET_PTR(map->nodes_[label_]); // may have effect like "delete this;"!
 }
 
-- 
2.43.0


From 2d30cc462a334489e3647194f3cc835a9443a254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:16 +0000
Subject: [PATCH 08/53] fix: let DartPosition go back to the previous segment

prevSegmentInternal() ended up on an empty segment, so that gotoArcLength()
could not reach the first segment(s) when going backwards, and it was
impossible to leave the end of a dart again.
---
 src/geomap/cppmap.hxx | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/geomap/cppmap.hxx b/src/geomap/cppmap.hxx
index 7e68f06..9696409 100644
--- a/src/geomap/cppmap.hxx
+++ b/src/geomap/cppmap.hxx
@@ -1643,17 +1643,22 @@ class DartPosition
 
     bool prevSegmentInternal()
     {
-        if(!segmentIndex_)
+        bool wasAtEnd = atEnd(); // then, p1_ is the last point
+        if(!segmentIndex_ && !wasAtEnd)
             return false;
         // now I assume that pointIter_ can step backwards and still
         // is inRange():
         pointIter_.reverse();
         p2_ = p1_;
         ++pointIter_;
+        DartPointIter prevPoint(pointIter_);
+        p1_ = *++prevPoint;
         pointIter_.reverse();
-        p1_ = *pointIter_;
         arcLength_ -= (p2_ - p1_).magnitude();
-        --segmentIndex_;
+        if(!wasAtEnd)
+            --segmentIndex_;
+        if(!segmentIndex_)
+            arcLength_ = 0.0; // prevent accumulation of rounding errors
         return true;
     }
 
-- 
2.43.0


From af0f860518b406208cad85589ab7020c1b8da1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:52 +0000
Subject: [PATCH 09/53] fix: keep the cached partialArea() right in push_back()
 and extend()

partialArea() is half the sum of the cross products, but the terms of
appended segments were added without halving them.
---
 src/geomap/polygon.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index 22cc271..e3a68c3 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -352,7 +352,7 @@ class Polygon : public PointArray<POINT>
                 length_ += (v - this->points_.back()).magnitude();
             if(partialAreaValid_)
                 partialArea_ += (v[0]*this->points_.back()[1] -
-                                      v[1]*this->points_.back()[0]);
+                                      v[1]*this->points_.back()[0]) / 2.0;
         }
         Base::push_back(v);
     }
@@ -380,7 +380,7 @@ class Polygon : public PointArray<POINT>
                 if(partialAreaValid_)
                     partialArea_ +=
                         (other.points_.front()[0]*this->points_.back()[1] -
-                         other.points_.front()[1]*this->points_.back()[0]);
+                         other.points_.front()[1]*this->points_.back()[0]) / 2.0;
             }
         }
         if(lengthValid_)
-- 
2.43.0


From 568016fe3700c26cabf30658e810205bdc74cf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:53 +0000
Subject: [PATCH 10/53] fix: let Polygon::clear() reset the cached measures

---
 src/geomap/polygon.hxx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index e3a68c3..c07e71c 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -344,6 +344,12 @@ class Polygon : public PointArray<POINT>
         return (result % 2) != 0;
     }
 
+    void clear()
+    {
+        invalidateProperties();
+        Base::clear();
+    }
+
     void push_back(const_reference v)
     {
         if(this->size())
@@ -625,6 +631,12 @@ class BBoxPolygon : public Polygon<POINT>
         return boundingBox_;
     }
 
+    void clear()
+    {
+        boundingBoxValid_ = false;
+        Base::clear();
+    }
+
     void push_back(const_reference v)
     {
         if(boundingBoxValid_)
-- 
2.43.0


From e6b45e9c85091e625ab392f34f7d2dd79821d19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:53 +0000
Subject: [PATCH 11/53] fix: let BBoxPolygon::setPoint() extend a valid
 bounding box

---
 src/geomap/polygon.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index c07e71c..f883ab4 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -664,6 +664,8 @@ class BBoxPolygon : public Polygon<POINT>
                ((x[1] > this->points_[pos][1]) &&
                 (this->points_[pos][1] == boundingBox_.begin()[1])))
                 boundingBoxValid_ = false;
+            else
+                boundingBox_ |= x;
         }
         Base::setPoint(pos, x);
     }
-- 
2.43.0


From 0ae5b6734c4cb574000184c363874783cd85f803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:53 +0000
Subject: [PATCH 12/53] fix: let invalidateProperties() invalidate the bounding
 box, too

---
 src/geomap/polygon.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index f883ab4..e383262 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -612,6 +612,12 @@ class BBoxPolygon : public Polygon<POINT>
       boundingBoxValid_(false)
     {}
 
+    void invalidateProperties()
+    {
+        boundingBoxValid_ = false;
+        Base::invalidateProperties();
+    }
+
     bool contains(const_reference point) const
     {
         if(!boundingBox().contains(point))
-- 
2.43.0


From 2ab958f0fe6f010902ae84f2bc5c4e7f5d13a5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:53 +0000
Subject: [PATCH 13/53] fix: let ScanlinesIter cope with scanlines without any
 segment

The scanlines of e.g. a horizontal crack edge are empty; the iterator
read from beyond their end.
---
 src/geomap/polygon.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index e383262..7ca3709 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -1927,8 +1927,10 @@ class ScanlinesIter
         while(y < scanlines.endIndex() && !scanlines[y].size())
             ++y;
         if(y < scanlines.endIndex())
+        {
             x = scanlines[y][0].begin;
-        ensureValid();
+            ensureValid();
+        }
     }
 
     ScanlinesIter & operator++()
-- 
2.43.0


From 37a71f5fe2d35a272f49f07b9e430e25935abf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:53 +0000
Subject: [PATCH 14/53] fix: make convexHull() handle duplicate and collinear
 points

Points coinciding with the start point (every closed polygon has some)
have no angle, which made the sort order inconsistent, and collinear
points on the last hull edge were kept.
---
 src/geomap/polygon.hxx | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index 7ca3709..0acaec1 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -772,7 +772,12 @@ struct CCWCompare
 
     bool operator()(const Point &a, const Point &b) const
     {
-        return (a[1]-p0_[1])*(b[0]-p0_[0]) - (a[0]-p0_[0])*(b[1]-p0_[1]) > 0;
+        double area2 =
+            (a[1]-p0_[1])*(b[0]-p0_[0]) - (a[0]-p0_[0])*(b[1]-p0_[1]);
+        if(area2 != 0)
+            return area2 > 0;
+        // same direction, let the near one come first:
+        return (a - p0_).squaredMagnitude() < (b - p0_).squaredMagnitude();
     }
 };
 }
@@ -800,9 +805,14 @@ void convexHull(
         }
     }
 
-    // sort other points by angle from p0:
-    std::vector<Point> other(poly.begin(), poly.begin() + i0);
-    other.insert(other.end(), poly.begin()+i0+1, poly.end());
+    // sort other points (leaving out duplicates of p0, which have no
+    // angle) by angle from p0:
+    std::vector<Point> other;
+    for(unsigned int i = 0; i < poly.size(); ++i)
+        if(i != i0 && poly[i] != p0)
+            other.push_back(poly[i]);
+    if(!other.size())
+        other.push_back(p0); // all points coincide
     std::sort(other.begin(), other.end(), detail::CCWCompare<Point>(p0));
 
     std::vector<Point> result(poly.size()+1);
-- 
2.43.0


From 1264f866a96b1fead91726967835166390e19321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:53 +0000
Subject: [PATCH 15/53] fix: let nearestPoint() return the only point of a
 one-point polygon

---
 src/geomap/polygon.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index 0acaec1..f73c868 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -524,6 +524,8 @@ POINT Polygon<POINT>::nearestPoint(const_reference p) const
 {
     double dist = NumericTraits<double>::max();
     POINT r;
+    if(this->size() == 1)
+        r = (*this)[0];
     for(unsigned int k=1; k<this->size(); ++k)
     {
         POINT dp = (*this)[k] - (*this)[k-1];
-- 
2.43.0


From 211b51028f4d663501a1b8c09973a30020922517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:16 +0000
Subject: [PATCH 16/53] fix: let LabelLUT::relabel() keep the list of a label
 merged into itself

---
 src/geomap/labellut.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geomap/labellut.hxx b/src/geomap/labellut.hxx
index ee3891a..58adcc2 100644
--- a/src/geomap/labellut.hxx
+++ b/src/geomap/labellut.hxx
@@ -129,6 +129,9 @@ class LabelLUT
 
     void relabel(LabelType from, LabelType to)
     {
+        if(from == to)
+            return; // nothing to be merged
+
         // relabel elements in "from" list:
         LabelType prev;
         for(LabelType fromIt = from; true; fromIt = prev)
-- 
2.43.0


From 2c6f791a25fb4a60b8b9743db12af8b36e765bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:42 +0000
Subject: [PATCH 17/53] fix: clean up after bridges whose removal was vetoed

removeBridges() left its REMOVE_BRIDGE marker on bridges that could not
be removed (which, among others, prevented merging them with other
edges), and accessed an empty list if none of the given bridges existed.
---
 src/geomap/cppmap_utils.cxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/geomap/cppmap_utils.cxx b/src/geomap/cppmap_utils.cxx
index 06459f1..1e839cc 100644
--- a/src/geomap/cppmap_utils.cxx
+++ b/src/geomap/cppmap_utils.cxx
@@ -164,16 +164,20 @@ unsigned int removeBridges(GeoMap &map, std::list<CellLabel> &bridges)
                 bridges.erase(it);
             else if(bridge->flag(UNREMOVABLE_BRIDGE))
             {
-                bridge->setFlag(UNREMOVABLE_BRIDGE, false); // clean up
+                bridge->setFlag(UNREMOVABLE_BRIDGE |
+                                GeoMap::Edge::REMOVE_BRIDGE, false); // clean up
                 bridges.erase(it);
             }
         }
         while(next != bridges.end());
 
-        if(!degree1Found)
+        if(!degree1Found && bridges.size())
         {
             if(map.removeBridge(map.dart(bridges.front())))
                 ++result;
+            else
+                map.edge(bridges.front())->setFlag(
+                    GeoMap::Edge::REMOVE_BRIDGE, false); // clean up
             bridges.erase(bridges.begin());
         }
     }
-- 
2.43.0


From a834d0880418a63778a8eeef3e60095215fd72be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:42 +0000
Subject: [PATCH 18/53] fix: let ~EdgeProtection() detach its hooks

The map may outlive the protection, and would call its hooks.
---
 src/geomap/cppmap_utils.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/geomap/cppmap_utils.hxx b/src/geomap/cppmap_utils.hxx
index d856d9e..856adb9 100644
--- a/src/geomap/cppmap_utils.hxx
+++ b/src/geomap/cppmap_utils.hxx
@@ -49,6 +49,11 @@ class EdgeProtection : boost::noncopyable
             attachHooks(map);
     }
 
+    ~EdgeProtection()
+    {
+        detachHooks();
+    }
+
     const boost::shared_ptr<GeoMap> map() const
     {
         return map_;
-- 
2.43.0


From 12aca33a1551e7ade24967f7002e095c4d8dd019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:13 +0000
Subject: [PATCH 19/53] fix: keep nodes and caches consistent in
 midcracksToThreshold()

---
 src/geomap/crackedgemap.hxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/geomap/crackedgemap.hxx b/src/geomap/crackedgemap.hxx
index 67634a2..37c3897 100644
--- a/src/geomap/crackedgemap.hxx
+++ b/src/geomap/crackedgemap.hxx
@@ -222,6 +222,8 @@ void midcracksToThreshold(GeoMap &geomap,
             int ix = (int)floor(x), iy = (int)floor(y);
             if(ix < 0 || iy < 0)
                 continue;
+            if(x != ix && y != iy)
+                continue; // junctions (pixel corners) stay where they are
 
             // every mid-crack point has exactly one crack coordinate
             // and one pixel grid coordinate; we only want to change
@@ -249,6 +251,11 @@ void midcracksToThreshold(GeoMap &geomap,
                 edge[i][0] = ix + (threshold - v1) / (v2 - v1);
             }
         }
+
+        edge.invalidateProperties();
+        // the node of a closed contour was moved, too:
+        if(edge.startNode()->position() != edge.front())
+            edge.startNode()->setPosition(Vector2(edge.front()));
     }
 
     if(geomap.mapInitialized())
-- 
2.43.0


From 7a5d04380c9fc3993d8fd6b63146397f2b9184bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:37 +0000
Subject: [PATCH 20/53] fix: embed contours that touch other contours at their
 support points

---
 src/geomap/cppmap.cxx | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index cfbdc1d..c1b4cec 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -1128,15 +1128,20 @@ void GeoMap::embedFaces(bool initLabelImage)
         }
         else
         {
-            // contour is a hole, determine parent face
+            // contour is a hole, determine parent face (looking at the
+            // middle of its segments, because contours of 8-connected
+            // regions may touch each other at their support points)
             GeoMap::FacePtr parent = NULL_PTR(GeoMap::Face);
 
             if(initLabelImage)
             {
                 ContourPointIter cpi(anchor);
-                while(cpi.inRange())
+                Vector2 prev(*cpi);
+                while((++cpi).inRange())
                 {
-                    GeoMap::LabelImage::difference_type p(detail::intVPos(*cpi++));
+                    GeoMap::LabelImage::difference_type p(
+                        detail::intVPos((prev + *cpi) * 0.5));
+                    prev = *cpi;
                     if(labelImage_->isInside(p))
                     {
                         int parentLabel = (*labelImage_)[p];
@@ -1151,11 +1156,12 @@ void GeoMap::embedFaces(bool initLabelImage)
 
             if(!parent)
             {
-                for(ContourPointIter cpi(anchor); cpi.inRange(); ++cpi)
+                ContourPointIter cpi(anchor);
+                for(Vector2 prev(*cpi); (++cpi).inRange(); prev = *cpi)
                 {
                     for(FaceIterator it = facesBegin(); it.inRange(); ++it)
                     {
-                        if((*it)->contains(*cpi))
+                        if((*it)->contains((prev + *cpi) * 0.5))
                         {
                             parent = *it;
                             goto parent_found; // double break
-- 
2.43.0


From df94644a3a453b4996bfa730c83813376d99fc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:21 +0000
Subject: [PATCH 21/53] fix: do not merge empty face statistics (0/0)

---
 src/geomap/facestatistics.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geomap/facestatistics.hxx b/src/geomap/facestatistics.hxx
index 5613333..c475991 100644
--- a/src/geomap/facestatistics.hxx
+++ b/src/geomap/facestatistics.hxx
@@ -213,7 +213,8 @@ class FaceColorStatistics
         }
 
         merged_ = *functors_[dart.leftFaceLabel()];
-        merged_(*functors_[dart.rightFaceLabel()]);
+        if(functors_[dart.rightFaceLabel()]->count()) // prevent 0/0
+            merged_(*functors_[dart.rightFaceLabel()]);
         return true;
     }
 
-- 
2.43.0


From 507766e3a580012586e6d222132212afb2ecfb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:59 +0000
Subject: [PATCH 22/53] fix: keep superSampledCount_ right and do not access
 released array in postMergeFaces()

---
 src/geomap/facestatistics.hxx | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/geomap/facestatistics.hxx b/src/geomap/facestatistics.hxx
index c475991..3db2331 100644
--- a/src/geomap/facestatistics.hxx
+++ b/src/geomap/facestatistics.hxx
@@ -230,18 +230,17 @@ class FaceColorStatistics
         *functors_[face.label()] = merged_;
         if(superSampled_.get())
         {
-            if((*superSampled_)[face.label()] && !mergedSS_)
-            {
-                if(!--superSampledCount_)
-                    superSampled_.reset();
-            }
+            // (*superSampled_)[mergedLabel] is cleared, too, such that
+            // the number of non-zero entries is superSampledCount_:
+            superSampledCount_ +=
+                (mergedSS_ ? 1 : 0)
+                - ((*superSampled_)[face.label()] ? 1 : 0)
+                - ((*superSampled_)[mergedLabel] ? 1 : 0);
             (*superSampled_)[face.label()] = mergedSS_;
+            (*superSampled_)[mergedLabel] = 0;
 
-            if((*superSampled_)[mergedLabel])
-            {
-                if(!--superSampledCount_)
-                    superSampled_.reset();
-            }
+            if(!superSampledCount_)
+                superSampled_.reset();
         }
 
         delete functors_[mergedLabel];
-- 
2.43.0


From 734eaa831673660701cddaae0e8fadb18f51f7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:27 +0000
Subject: [PATCH 23/53] fix: let ~FaceColorStatistics() detach its hooks

---
 src/geomap/facestatistics.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geomap/facestatistics.hxx b/src/geomap/facestatistics.hxx
index 3db2331..6117d83 100644
--- a/src/geomap/facestatistics.hxx
+++ b/src/geomap/facestatistics.hxx
@@ -591,6 +591,7 @@ void FaceColorStatistics<OriginalImage>::ensureMinSampleCount(
 template<class OriginalImage>
 FaceColorStatistics<OriginalImage>::~FaceColorStatistics()
 {
+    detachHooks();
     for(unsigned int i = 0; i < functors_.size(); ++i)
         delete functors_[i];
 }
-- 
2.43.0


From 7cd4a77a174e87e43adfb749dd2a314316786112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:27 +0000
Subject: [PATCH 24/53] fix: let copies of FaceColorStatistics own their
 functors

---
 src/geomap/facestatistics.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geomap/facestatistics.hxx b/src/geomap/facestatistics.hxx
index 6117d83..4e61dc5 100644
--- a/src/geomap/facestatistics.hxx
+++ b/src/geomap/facestatistics.hxx
@@ -538,6 +538,9 @@ FaceColorStatistics<OriginalImage>::FaceColorStatistics(
   superSampledCount_(other.superSampledCount_),
   maxDiffNorm_(other.maxDiffNorm_)
 {
+    for(unsigned int i = 0; i < functors_.size(); ++i)
+        if(functors_[i])
+            functors_[i] = new Functor(*functors_[i]);
 }
 
 template<class OriginalImage>
-- 
2.43.0


From 902e922e929f01bbd7a9c7b662d62748ae67a4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:39 +0000
Subject: [PATCH 25/53] fix: release superSampled_ with the last supersampled
 face in associatePixels()

---
 src/geomap/facestatistics.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geomap/facestatistics.hxx b/src/geomap/facestatistics.hxx
index 4e61dc5..e455317 100644
--- a/src/geomap/facestatistics.hxx
+++ b/src/geomap/facestatistics.hxx
@@ -263,7 +263,8 @@ class FaceColorStatistics
            face.pixelArea() >= minSampleCount_)
         {
             (*superSampled_)[face.label()] = 0;
-            --superSampledCount_;
+            if(!--superSampledCount_)
+                superSampled_.reset();
 
             functors_[face.label()]->reset();
 
-- 
2.43.0


From ccdb6b0bb883fc59651c5226c0c0727f3be0f604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:23 +0000
Subject: [PATCH 26/53] fix: do not create loops that enclose no region around
 corners of nodes

---
 src/cellimage/foureightsegmentation.cxx | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/cellimage/foureightsegmentation.cxx b/src/cellimage/foureightsegmentation.cxx
index d89924f..2f517b8 100644
--- a/src/cellimage/foureightsegmentation.cxx
+++ b/src/cellimage/foureightsegmentation.cxx
@@ -717,6 +717,30 @@ void GeoMap::initCellImage(BImage & contourImage, CellType cornerType)
         }
     }
 
+    // a corner between two diagonally adjacent (i.e. connected) node
+    // pixels is no edge (it would be a loop enclosing no region at
+    // all), but belongs to that node
+    cellLine = cellImage.upperLeft() + Diff2D(1, 1);
+    for(int y=-1; y < cellImage.height()-3; ++y, ++cellLine.y)
+    {
+        CellImage::traverser cell = cellLine;
+        for(int x=-1; x < cellImage.width()-3; ++x, ++cell.x)
+        {
+            if(cell->type() != CellTypeLine)
+                continue;
+
+            CellImageEightCirculator neighbor(cell, EightNeighborCode::East);
+            CellImageEightCirculator end = neighbor;
+            do
+            {
+                if(neighbor->type() == CellTypeVertex &&
+                   neighbor[2].type() == CellTypeVertex)
+                    cell->setType(CellTypeVertex, 0);
+            }
+            while((neighbor += 2) != end);
+        }
+    }
+
     // FIXME: this special-handling of the boundary is only necessary
     // because the containment hierarchy is determined in a strange
     // way (faceList_[0].anchor is directly initialized from this
-- 
2.43.0


From 24b00ab6d6fa5cd8235e8d96cfc46b3e9b9296ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:24 +0000
Subject: [PATCH 27/53] fix: reject images in which a node encloses an edge

---
 src/cellimage/foureightsegmentation.cxx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/cellimage/foureightsegmentation.cxx b/src/cellimage/foureightsegmentation.cxx
index 2f517b8..f625b1a 100644
--- a/src/cellimage/foureightsegmentation.cxx
+++ b/src/cellimage/foureightsegmentation.cxx
@@ -871,6 +871,7 @@ void GeoMap::labelSelfLoops(CellLabel & maxNodeLabel, CellLabel & maxEdgeLabel)
 
             CellImageEightCirculator circ(cell);
             CellImageEightCirculator circEnd = circ;
+            bool isCircle = false;
 
             do
             {
@@ -880,8 +881,17 @@ void GeoMap::labelSelfLoops(CellLabel & maxNodeLabel, CellLabel & maxEdgeLabel)
                     continue;
 
                 labelEdge(circ, ++maxEdgeLabel);
+
+                EdgelIterator edgeEnd(circ);
+                while(!edgeEnd.atEnd())
+                    ++edgeEnd;
+                isCircle = (*edgeEnd == *cell);
             }
             while(++circ != circEnd);
+
+            vigra_precondition(isCircle, (boost::format(
+                "GeoMap::init(): Node around (%1%, %2%) must be thinned further "
+                "(it encloses an edge)") % x % y).str());
         }
     }
 }
-- 
2.43.0


From afc8cf913a29df1d45a25171e1067ee33e875837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:29 +0000
Subject: [PATCH 28/53] fix: reject singular darts in mergeFaces() and
 mergeEdges() instead of crashing

---
 src/cellimage/foureightsegmentation.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cellimage/foureightsegmentation.cxx b/src/cellimage/foureightsegmentation.cxx
index f625b1a..9b32c39 100644
--- a/src/cellimage/foureightsegmentation.cxx
+++ b/src/cellimage/foureightsegmentation.cxx
@@ -237,6 +237,8 @@ GeoMap::FaceInfo &GeoMap::mergeFaces(const DartTraverser & dart)
 {
     //std::cerr << "mergeFaces(" << dart << ")\n";
     validateDart(dart);
+    vigra_precondition(!dart.isSingular(),
+        "GeoMap::mergeFaces(): dart is singular or edge is a bridge");
     // merge smaller face into larger one:
     DartTraverser removedDart = dart;
     if(dart.leftFace().bounds.area() < dart.rightFace().bounds.area())
@@ -387,6 +389,8 @@ GeoMap::EdgeInfo &GeoMap::mergeEdges(const DartTraverser & dart)
     //std::cerr << "mergeEdges(" << dart << ")\n";
     // merge smaller edge (mergedEdge) into larger one (survivor):
     validateDart(dart);
+    vigra_precondition(!dart.isSingular(),
+        "GeoMap::mergeEdges(): dart does not point to any edge");
     DartTraverser dart1(dart);
     dart1.nextSigma();
     bool firstIsSmaller =
-- 
2.43.0


From 24c35ed8aa4a18b5fa5675c65c229be04e7a640c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:39 +0000
Subject: [PATCH 29/53] fix: let singular darts of larger nodes name the face
 around them

---
 src/cellimage/foureightsegmentation.hxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cellimage/foureightsegmentation.hxx b/src/cellimage/foureightsegmentation.hxx
index 72980ae..0e3cd05 100644
--- a/src/cellimage/foureightsegmentation.hxx
+++ b/src/cellimage/foureightsegmentation.hxx
@@ -518,6 +518,10 @@ public:
 
         CellLabel leftFaceLabel() const throw ()
         {
+            // singular darts point into the face around their node
+            if(neighborCirc_->type() == CellTypeRegion)
+                return neighborCirc_->label();
+
             // FIXME: will this always work when two points of the same edge are adjacent to this node ???
             return neighborCirc_[1].type() == CellTypeRegion
                       ? neighborCirc_[1].label()
@@ -526,6 +530,10 @@ public:
 
         CellLabel rightFaceLabel() const throw ()
         {
+            // singular darts point into the face around their node
+            if(neighborCirc_->type() == CellTypeRegion)
+                return neighborCirc_->label();
+
             // FIXME: will this always work when two points of the same edge are adjacent to this node ???
             return neighborCirc_[-1].type() == CellTypeRegion
                       ? neighborCirc_[-1].label()
-- 
2.43.0


From 8e1509425dab6758c19a71f0b59bff91729e4f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:28 +0000
Subject: [PATCH 30/53] fix: let the pyramid forget operations that failed

---
 src/cellimage/cellpyramid.hxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cellimage/cellpyramid.hxx b/src/cellimage/cellpyramid.hxx
index 57db2a0..ab563ef 100644
--- a/src/cellimage/cellpyramid.hxx
+++ b/src/cellimage/cellpyramid.hxx
@@ -315,19 +315,19 @@ class CellPyramid
         CellInfo *result = NULL;
         if(!composing_)
         {
+            history_.push_back(Operation(t, p));
             try
             {
-                history_.push_back(Operation(t, p));
                 result = &topLevel_.performOperation(history_.back());
-                ++topLevel_.index_;
-                if(topLevel_.subIndex_ >= nextCheckpointLevelIndex_)
-                    storeCheckpoint(topLevel_);
             }
             catch(...)
             {
-                cutAbove(topLevel_.index());
+                history_.pop_back();
                 throw;
             }
+            ++topLevel_.index_;
+            if(topLevel_.subIndex_ >= nextCheckpointLevelIndex_)
+                storeCheckpoint(topLevel_);
         }
         else
         {
-- 
2.43.0


From 71ea560eeaff9cfcb1d8bf359230c82168466ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:28 +0000
Subject: [PATCH 31/53] fix: do not count a level twice that is changed into a
 composite

---
 src/cellimage/cellpyramid.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cellimage/cellpyramid.hxx b/src/cellimage/cellpyramid.hxx
index ab563ef..58a5d29 100644
--- a/src/cellimage/cellpyramid.hxx
+++ b/src/cellimage/cellpyramid.hxx
@@ -438,6 +438,11 @@ class CellPyramid
             Operation tmp(last);         // copy old
             last = Operation();          // create composite
             last.opList->push_back(tmp); // and re-fill with old
+
+            // the last level is open again until endComposite()
+            --topLevel_.index_;
+            checkpoints_.erase(checkpoints_.upper_bound(topLevel_.index()),
+                               checkpoints_.end());
         }
         ++composing_;
     }
-- 
2.43.0


From 78b239531f0993d4cc9f2f5aeb75c193b7ae3081 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 06:04:47 +0000
Subject: [PATCH 32/53] fix: keep parallel darts together that leave a node to
 the left

---
 src/geomap/cppmap.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index c1b4cec..14b4beb 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -545,8 +545,9 @@ void sortEdgesInternal(const Vector2 &currentPos,
     {
         // first and last dart are less than minAngle apart,..
         DPAI prev(firstGroupStart);
-        while(--firstGroupStart > dpBegin)
+        while(firstGroupStart != dpBegin)
         {
+            --firstGroupStart;
             // ..determine last decision point..
             if(prev->angle - firstGroupStart->angle >= minAngle)
             {
-- 
2.43.0


From d32bb7b3a502109506e26ee0230e108e788e5f2c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 06:06:58 +0000
Subject: [PATCH 33/53] fix: let splitParallelEdges() skip edges that have been
 removed

---
 src/geomap/cppmap.cxx | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 14b4beb..9c03fbb 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -759,6 +759,9 @@ void GeoMap::splitParallelEdges()
     for(detail::PlannedSplits::iterator it = splitInfo_->begin();
         it != splitInfo_->end(); ++it)
     {
+        if(!edge(abs(it->dartLabel)))
+            continue; // edge has been removed since (e.g. unsortable)
+
         CellLabel newEdgeLabel =
             splitEdge(*edge(abs(it->dartLabel)),
                       it->segmentIndex, it->position)->label();
@@ -799,8 +802,8 @@ void GeoMap::splitParallelEdges()
         ++pos;
     }
 
-    vigra_invariant(edgePreferences->size() == edges_.size(),
-                    "edge preferences should be exactly one per edge");
+    vigra_invariant(edgePreferences->size() >= edges_.size(),
+                    "edge preferences should be at least one per edge");
 
     splitInfo_.reset(); // splitting finished, free memory
 
@@ -814,8 +817,11 @@ void GeoMap::splitParallelEdges()
         std::sort(mergeDartsGroupBegin, mergeDartsGroupEnd);
 
         // skip deleted edges (e.g. unsortable)
-        while(mergeDartsGroupBegin->dartLabel == 0)
+        while(mergeDartsGroupBegin != mergeDartsGroupEnd &&
+              mergeDartsGroupBegin->dartLabel == 0)
             ++mergeDartsGroupBegin;
+        if(mergeDartsGroupBegin == mergeDartsGroupEnd)
+            continue;
 
         // now search for the best continuation to choose the survivor
         double bestContinuationValue = 0.0;
-- 
2.43.0


From cfdad87878b8b16d6b83b43f78634b866f394a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:06 +0000
Subject: [PATCH 34/53] fix: keep everything up to date that depends on a
 node's position

Node::setPosition() changed the end points of the incident edges behind
the back of the polygons' caches, so lengths, areas, bounding boxes and
scanlines of edges and faces as well as the label image became stale.
---
 src/geomap/cppmap.cxx | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 9c03fbb..b0253b9 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -2220,20 +2220,27 @@ void GeoMap::Node::setPosition(const Vector2 &p)
 
     if(!isIsolated())
     {
+        // pixels may change between faces, so set it up again afterwards
+        bool hasLabelImage = map_->hasLabelImage();
+        map_->setHasLabelImage(false);
+
         GeoMap::Dart d(map_, anchor_);
         do
         {
-            if(d.label() > 0)
-            {
-                (*map_->edge(d.label()))[ 0] = p;
-            }
-            else
+            GeoMap::Edge &edge(*d.edge());
+            edge.setPoint(d.label() > 0 ? 0 : edge.size()-1, p);
+
+            // reset cached properties of the cells that changed
+            edge.scanLines_.reset();
+            if(map_->mapInitialized())
             {
-                GeoMap::Edge &edge(*map_->edge(-d.label()));
-                edge[edge.size()-1] = p;
+                d.leftFace()->flags_ &= ~GeoMap::Face::INTERNAL_FLAGS;
+                d.rightFace()->flags_ &= ~GeoMap::Face::INTERNAL_FLAGS;
             }
         }
         while(d.nextSigma().label() != anchor_);
+
+        map_->setHasLabelImage(hasLabelImage);
     }
 
     map_->nodeMap_.insert(PositionedNodeLabel(p, label_));
-- 
2.43.0


From abc7a633d2cabdd9fb70ac5773357b171b1a5c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:13 +0000
Subject: [PATCH 35/53] fix: do not move contour anchors when mergeEdges() is
 refused

The anchors of the faces' contours were moved off the merged edge before
the callbacks were asked, so a veto left a changed map.
---
 src/geomap/cppmap.cxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index b0253b9..3f4b300 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -1835,6 +1835,11 @@ GeoMap::EdgePtr GeoMap::mergeEdges(const GeoMap::Dart &dart)
     GeoMap::Node &mergedNode(*d2.startNode());
     GeoMap::Edge &mergedEdge(*d2.edge());
 
+    if(!preMergeEdgesHook(d1))
+        return NULL_PTR(GeoMap::Edge);
+    if(!removeNodeHook(mergedNode))
+        return NULL_PTR(GeoMap::Edge);
+
     if(mapInitialized())
     {
         GeoMap::Face *faces[2];
@@ -1855,11 +1860,6 @@ GeoMap::EdgePtr GeoMap::mergeEdges(const GeoMap::Dart &dart)
         }
     }
 
-    if(!preMergeEdgesHook(d1))
-        return NULL_PTR(GeoMap::Edge);
-    if(!removeNodeHook(mergedNode))
-        return NULL_PTR(GeoMap::Edge);
-
     if(labelImage_)
     {
         rawAddEdgeToLabelImage(mergedEdge.scanLines(), *labelImage_, 1);
-- 
2.43.0


From deabcc7e2496cab641a905e9a2309e598f2f7be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:55 +0000
Subject: [PATCH 36/53] fix: update scanlines and label image in the midcrack
 conversions

crackEdgesToMidcracks() and midcracksToThreshold() replaced the geometry
of the edges, but left their cached scanlines and the map's label image
as they were.
---
 src/geomap/cppmap.hxx       | 6 ++++++
 src/geomap/crackedgemap.cxx | 8 +++++++-
 src/geomap/crackedgemap.hxx | 6 ++++++
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/geomap/cppmap.hxx b/src/geomap/cppmap.hxx
index 9696409..b91a8db 100644
--- a/src/geomap/cppmap.hxx
+++ b/src/geomap/cppmap.hxx
@@ -691,6 +691,12 @@ class GeoMap::Edge
             scanLines_ = scanPoly(*this);
         return *scanLines_;
     }
+
+    void invalidateProperties()
+    {
+        Base::invalidateProperties();
+        scanLines_.reset();
+    }
 };
 
 std::string description(GeoMap::Edge const &edge);
diff --git a/src/geomap/crackedgemap.cxx b/src/geomap/crackedgemap.cxx
index 1db99d6..c38f112 100644
--- a/src/geomap/crackedgemap.cxx
+++ b/src/geomap/crackedgemap.cxx
@@ -251,6 +251,10 @@ void CrackEdgeMapGenerator::initializeMap(bool initLabelImage)
 
 void crackEdgesToMidcracks(GeoMap &geomap)
 {
+    // has to be set up again for the new geometry
+    bool hasLabelImage = geomap.hasLabelImage();
+    geomap.setHasLabelImage(false);
+
     for(GeoMap::EdgeIterator it = geomap.edgesBegin(); it.inRange(); ++it)
     {
         GeoMap::Edge &edge(**it);
@@ -279,6 +283,7 @@ void crackEdgesToMidcracks(GeoMap &geomap)
 
         // FIXME: introduce Edge::setGeometry and invalidate face properties!
         edge.swap(midCrackPoints);
+        edge.invalidateProperties();
     }
 
     if(geomap.mapInitialized())
@@ -289,5 +294,6 @@ void crackEdgesToMidcracks(GeoMap &geomap)
             (*it)->setFlag(0xC0000000U, false);
         }
     }
-}
 
+    geomap.setHasLabelImage(hasLabelImage);
+}
diff --git a/src/geomap/crackedgemap.hxx b/src/geomap/crackedgemap.hxx
index 37c3897..9923c83 100644
--- a/src/geomap/crackedgemap.hxx
+++ b/src/geomap/crackedgemap.hxx
@@ -210,6 +210,10 @@ void midcracksToThreshold(GeoMap &geomap,
 {
     vigra::Size2D size(geomap.imageSize());
 
+    // has to be set up again for the new geometry
+    bool hasLabelImage = geomap.hasLabelImage();
+    geomap.setHasLabelImage(false);
+
     for(GeoMap::EdgeIterator it = geomap.edgesBegin(); it.inRange(); ++it)
     {
         GeoMap::Edge &edge(**it);
@@ -266,6 +270,8 @@ void midcracksToThreshold(GeoMap &geomap,
             (*it)->setFlag(0xC0000000U, false);
         }
     }
+
+    geomap.setHasLabelImage(hasLabelImage);
 }
 
 #endif // CRACKEDGEMAP_HXX
-- 
2.43.0


From e52c839b679340937c304e848e82c33b8966a04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:30 +0000
Subject: [PATCH 37/53] fix: compare contour areas relative to the size of the
 map when embedding contours

AbsAreaCompare regarded anti-contours whose areas differed by less than 0.01
as equal to their exteriors, so contours of nearly equal area, or any contours
of a map with small coordinates, could be embedded into the infinite face.
---
 src/geomap/cppmap.cxx | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 3f4b300..bdda11d 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -1068,12 +1068,21 @@ void GeoMap::initContours()
 
 struct AbsAreaCompare
 {
+        // upper bound for the rounding errors in the contour's area
+    static double tolerance(GeoMap::FacePtr f)
+    {
+        GeoMap::Face::BoundingBox const &b(f->boundingBox());
+        return 1e-10 * std::max(b.begin().squaredMagnitude(),
+                                b.end().squaredMagnitude());
+    }
+
         // FIXME: actually, const pointers would suffice:
     bool operator()(GeoMap::FacePtr f1, GeoMap::FacePtr f2) const
     {
         double a1 = f1->area(), a2 = f2->area();
         double absdiff = std::fabs(a1) - std::fabs(a2);
-        if(std::fabs(absdiff) < 1e-2 && ((a1 < 0) != (a2 < 0)))
+        if(((a1 < 0) != (a2 < 0)) &&
+           std::fabs(absdiff) < std::max(tolerance(f1), tolerance(f2)))
             return (a1 < 0); // for faces with equal area, prefer the exterior one
         return absdiff > 0; // else, prefer face with larger absolute area
     }
-- 
2.43.0


From 8af7a044e03868a97acd99a70547d89d0b0d3e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:44 +0000
Subject: [PATCH 38/53] fix: wrap around more than once in cyclic Gaussian
 polygon smoothing

If the filter radius exceeded the arc length of the last vertex, the cyclic
convolution read before the beginning of the arc length list or never
terminated.
---
 src/geomap/polygon.hxx | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index f73c868..d839b0d 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -1418,16 +1418,13 @@ singleGaussianConvolvePolygonCyclic(
     ValueType sum(vigra::NumericTraits<ValueType>::zero());
     double norm = 0.0;
 
-    int size = arcLengthList.size() - 1,
-        lastIndex = size - 1;
+    int size = arcLengthList.size() - 1;
     double totalLength = arcLengthList[size];
 
     for(int j = i; true; ++j)
     {
         int k = j % size;
-        double pos = j > lastIndex
-                        ? arcLengthList[k] + totalLength
-                        : arcLengthList[k];
+        double pos = arcLengthList[k] + (j / size) * totalLength;
         ValueType point = pointList[k];
         double diff = pos - arcLengthPos;
         if(diff > g.radius())
@@ -1437,12 +1434,12 @@ singleGaussianConvolvePolygonCyclic(
         norm += w;
     }
 
-    for(int j = i - 1; true; --j)
+    for(int j = i - 1, turns = 0; true; --j)
     {
-        int k = (j + size) % size;
-        double pos = j < 0
-                       ? arcLengthList[k] - totalLength
-                       : arcLengthList[k];
+        if(j < -turns * size)
+            ++turns;
+        int k = j + turns * size;
+        double pos = arcLengthList[k] - turns * totalLength;
         ValueType point = pointList[k];
         double diff = pos - arcLengthPos;
         if(diff < -g.radius())
-- 
2.43.0


From 10216633f6a0ca1d8748af96e6b83f40f7b07fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:57 +0000
Subject: [PATCH 39/53] fix: pickle maps without edges

---
 src/python_bindings/cppmapmodule.cxx | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/python_bindings/cppmapmodule.cxx b/src/python_bindings/cppmapmodule.cxx
index 84608fa..69ef359 100644
--- a/src/python_bindings/cppmapmodule.cxx
+++ b/src/python_bindings/cppmapmodule.cxx
@@ -651,7 +651,9 @@ struct GeoMapPickleSuite : bp::pickle_suite
         for(GeoMap::FaceIterator it = map.facesBegin(); it.inRange(); ++it)
         {
             faceFlags.append((*it)->flags() & ~0xf0000000U);
-            faceAnchors.append((*it)->contour().label());
+            // (the infinite face of a map without edges has no contour)
+            faceAnchors.append((*it)->contoursBegin() == (*it)->contoursEnd()
+                               ? 0 : (*it)->contour().label());
             faceLabels.append((*it)->label());
         }
 
@@ -702,12 +704,13 @@ struct GeoMapPickleSuite : bp::pickle_suite
         std::vector<CellLabel> newFaceLabels(map.maxFaceLabel());
         for(i = 0; i < map.faceCount(); ++i)
         {
-            GeoMap::Dart anchor =
-                map.dart(bp::extract<int>(faceAnchors[i])());
-            anchor.leftFace()->setFlag(
+            int anchorLabel = bp::extract<int>(faceAnchors[i])();
+            GeoMap::FacePtr face(
+                anchorLabel ? map.dart(anchorLabel).leftFace() : map.face(0));
+            face->setFlag(
                 bp::extract<CellFlags>(faceFlags[i])() & ~(CellFlags)0xf0000000);
             if(hasLabels)
-                newFaceLabels[anchor.leftFaceLabel()] =
+                newFaceLabels[face->label()] =
                     bp::extract<CellLabel>(faceLabels[i])();
         }
 
-- 
2.43.0


From 6614fa91fd3065c2b8c9612697d5c429fa435e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:42 +0000
Subject: [PATCH 40/53] fix: treat label 0 as a label in
 seededRegionGrowingStatic

---
 python/maputils/maputils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/maputils/maputils.py b/python/maputils/maputils.py
index 35162c6..722668a 100644
--- a/python/maputils/maputils.py
+++ b/python/maputils/maputils.py
@@ -1971,21 +1971,21 @@ def seededRegionGrowingStatic(map, faceLabels, edgeCosts):
 
     heap = []
     for face in map.faceIter():
-        if not faceLabels[face.label()]:
+        if faceLabels[face.label()] is None:
             continue
         for dart in contourDarts(face):
-            if not faceLabels[dart.rightFaceLabel()]:
+            if faceLabels[dart.rightFaceLabel()] is None:
                 cost = edgeCosts[dart.edgeLabel()]
                 if cost != None:
                     heappush(heap, (cost, dart.label()))
     while heap:
         _, dartLabel = heappop(heap)
         dart = map.dart(dartLabel)
-        if faceLabels[dart.rightFaceLabel()]:
+        if faceLabels[dart.rightFaceLabel()] is not None:
             continue # labeled in the meantime
         faceLabels[dart.rightFaceLabel()] = faceLabels[dart.leftFaceLabel()]
         for dart in contourDarts(dart.rightFace()):
-            if not faceLabels[dart.rightFaceLabel()]:
+            if faceLabels[dart.rightFaceLabel()] is None:
                 cost = edgeCosts[dart.edgeLabel()]
                 if cost != None:
                     heappush(heap, (cost, dart.label()))
-- 
2.43.0


From f4545923aa43e595130185585aabff197cb6c625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:42 +0000
Subject: [PATCH 41/53] fix: skip obsolete queue entries in SeededRegionGrowing

---
 python/maputils/maputils.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/python/maputils/maputils.py b/python/maputils/maputils.py
index 722668a..c3e84c9 100644
--- a/python/maputils/maputils.py
+++ b/python/maputils/maputils.py
@@ -1440,7 +1440,7 @@ class AutomaticMethodBase(object):
         edge at the front of the internal priority queue might have
         been removed already); see `ensureValidNext()`."""
 
-        self._ensureValidNext()
+        self.ensureValidNext()
         return self._queue.top()[0]
 
     def step(self):
@@ -1464,8 +1464,10 @@ class AutomaticMethodBase(object):
 
     def mergeToCost(self, maxCost):
         oldStep = self._step
+        self.ensureValidNext()
         while self._queue and self.nextCost() <= maxCost:
             self.mergeStep()
+            self.ensureValidNext()
         return self._step - oldStep
 
 class AutomaticRegionMerger(AutomaticMethodBase):
@@ -2064,15 +2066,25 @@ class SeededRegionGrowing(AutomaticMethodBase):
                 self._queue.setCost(neighbor.label(), cost)
                 neighbor.setFlag(flag_constants.SRG_BORDER)
 
-    def mergeStep(self):
-        # fetch candidate Face from queue:
-        while True:
-            faceLabel, mergeCost = self._queue.pop()
-            face = self._map.face(faceLabel)
+    def ensureValidNext(self):
+        """Ensure that the next `growStep()` really tries to grow a
+        region, i.e. drop queue entries of faces that already became
+        part of a seed region."""
+
+        q = self._queue
+        while q:
+            face = self._map.face(q.top()[0])
             if face and not face.flag(flag_constants.SRG_SEED):
                 break
+            q.pop()
 
-        assert face, "no more candidate faces found"
+    def mergeStep(self):
+        # fetch candidate Face from queue:
+        self.ensureValidNext()
+        if not self._queue:
+            return None
+        faceLabel, mergeCost = self._queue.pop()
+        face = self._map.face(faceLabel)
 
         # look for neighbor with lowest merge cost:
         best = None
-- 
2.43.0


From d60b9836d27d249c9773eb46e05ee34fb5cb568d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:08 +0000
Subject: [PATCH 42/53] fix: keep the sigma order of self-loops in
 copyMapContents

---
 python/maputils/maputils.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/python/maputils/maputils.py b/python/maputils/maputils.py
index c3e84c9..8b4ee06 100644
--- a/python/maputils/maputils.py
+++ b/python/maputils/maputils.py
@@ -890,6 +890,26 @@ def copyMapContents(sourceMap, destMap = None, edgeTransform = None):
         if not nodes[node.label()]:
             nodes[node.label()] = destMap.addNode(node.position())
 
+    # addEdge() has to guess the order of the two ends of a self-loop
+    # that share the same neighbor, so transfer the sigma order of loops:
+    if destMap.edgesSorted():
+        sigma = destMap.sigmaMapping()
+        middle = len(sigma) // 2
+        for edge in sourceMap.edgeIter():
+            if not edge.isLoop() or edges[edge.label()] is None:
+                continue
+            for dart in edge.dart().sigmaOrbit():
+                if edges[dart.edgeLabel()] is None:
+                    continue # thrown away by edgeTransform
+                successor = dart.clone().nextSigma()
+                while edges[successor.edgeLabel()] is None:
+                    successor.nextSigma()
+                source, target = [
+                    edges[d.edgeLabel()].label() * (d.label() < 0 and -1 or 1)
+                    for d in (dart, successor)]
+                sigma[middle + source] = target
+        destMap.setSigmaMapping(sigma)
+
     return destMap, nodes, edges
 
 def copyMap(sourceMap, edgeTransform = None):
-- 
2.43.0


From 53f2fa362c1f4f3bb55bf33e619d64492f928e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:08 +0000
Subject: [PATCH 43/53] fix: copyMap of maps without edges

---
 python/maputils/maputils.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/python/maputils/maputils.py b/python/maputils/maputils.py
index 8b4ee06..2acba3a 100644
--- a/python/maputils/maputils.py
+++ b/python/maputils/maputils.py
@@ -938,11 +938,14 @@ def copyMap(sourceMap, edgeTransform = None):
 
     # transfer Face flags using 'em':
     for face in sourceMap.faceIter():
-        anchor = face.contour()
-        newAnchor = em[abs(anchor.label())].dart()
-        if anchor.label() < 0:
-            newAnchor.nextAlpha()
-        newAnchor.leftFace().setFlag(face.flags() & 0x0fffffff)
+        newFace = result.face(0) # (also valid without any contour)
+        if face.label():
+            anchor = face.contour()
+            newAnchor = em[abs(anchor.label())].dart()
+            if anchor.label() < 0:
+                newAnchor.nextAlpha()
+            newFace = newAnchor.leftFace()
+        newFace.setFlag(face.flags() & 0x0fffffff)
 
     return result
 
-- 
2.43.0


From 9c61f8ab1c74f2d3c4f8797c0d763d6158b31d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:27 +0000
Subject: [PATCH 44/53] fix: keep an index at the common node when merging
 edges

---
 python/maputils/statistics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/maputils/statistics.py b/python/maputils/statistics.py
index 2a14490..dbed831 100644
--- a/python/maputils/statistics.py
+++ b/python/maputils/statistics.py
@@ -723,14 +723,15 @@ class DynamicEdgeIndices(DetachableStatistics):
             self._mergedIndices = self.dartIndices(dart.clone().nextAlpha())
             self._mergedIndices.extend([
                 el1 + i for i in self.dartIndices(dart.clone().nextSigma())
-                if i])
+                if not el1 + i in self._mergedIndices])
         else:
             # edge2 will be inserted before dart.edge():
             el2 = len(edge2) - 1
             self._mergedIndices = self.dartIndices(
                 dart.clone().nextSigma().nextAlpha())
             self._mergedIndices.extend([
-                el2 + i for i in self.dartIndices(dart) if i])
+                el2 + i for i in self.dartIndices(dart)
+                if not el2 + i in self._mergedIndices])
 
         return True
 
-- 
2.43.0


From 58d5c36a47d3aceda1b2c468437bbceb8a2943b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:27 +0000
Subject: [PATCH 45/53] fix: extend the indices in nonWatershedEdgesAdded

---
 python/maputils/statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/maputils/statistics.py b/python/maputils/statistics.py
index dbed831..5516ffd 100644
--- a/python/maputils/statistics.py
+++ b/python/maputils/statistics.py
@@ -815,7 +815,7 @@ class WatershedStatistics(DynamicEdgeIndices):
         if len(self._passValues) < mel:
             self._passValues.extend([None] * (mel - len(self._passValues)))
             self._indices.extend([[] for i in
-                                  range(mel - len(self._passValues))])
+                                  range(mel - len(self._indices))])
 
     def preMergeEdges(self, dart):
         if not self.__base.preMergeEdges(self, dart):
-- 
2.43.0


From 6d1b47e5f674b0490be973f12bf6f7409a373a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:15 +0000
Subject: [PATCH 46/53] fix: pickle Rect2D objects unambiguously

---
 src/python_bindings/pythondiff2d.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python_bindings/pythondiff2d.cxx b/src/python_bindings/pythondiff2d.cxx
index 8d84419..3d48eec 100644
--- a/src/python_bindings/pythondiff2d.cxx
+++ b/src/python_bindings/pythondiff2d.cxx
@@ -84,7 +84,8 @@ struct Rect2DPickleSuite : python::pickle_suite
 {
     static python::tuple getinitargs(Rect2D const& r)
     {
-        return python::make_tuple(r.upperLeft(), r.lowerRight());
+        // (points could be mistaken for an upper left corner and a size)
+        return python::make_tuple(r.left(), r.top(), r.right(), r.bottom());
     }
 };
 
-- 
2.43.0


From e2cfee23de72095174b5178464aaa1e3eb034fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:50 +0000
Subject: [PATCH 47/53] fix: initialize the ordering flag of QuantileStatistics

---
 src/python_bindings/statistics.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python_bindings/statistics.cxx b/src/python_bindings/statistics.cxx
index 12f6b33..224ad58 100644
--- a/src/python_bindings/statistics.cxx
+++ b/src/python_bindings/statistics.cxx
@@ -152,10 +152,12 @@ class QuantileStatistics : public PolylineStatistics
 
   public:
     QuantileStatistics()
+    : sorted_(false)
     {}
 
     QuantileStatistics(const PointArray<Vector2> &poly,
                        const SplineImageView<5, GrayValue> &siv)
+    : sorted_(false)
     {
         for(unsigned int i = 0; i < poly.size() - 1; ++i)
         {
@@ -241,6 +243,7 @@ class QuantileStatisticsPickleSuite : public boost::python::pickle_suite
             w.segments_[i].first = extract<double>(segments[i][0])();
             w.segments_[i].second = extract<double>(segments[i][1])();
         }
+        w.sorted_ = false;
     }
 };
 
-- 
2.43.0


From e81ce2a1aa4cd7f0be663dbcb28e3edcf3e2156d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:50 +0000
Subject: [PATCH 48/53] fix: maximum of negative values in PolylineStatistics

---
 src/python_bindings/statistics.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python_bindings/statistics.cxx b/src/python_bindings/statistics.cxx
index 224ad58..ca7c0d2 100644
--- a/src/python_bindings/statistics.cxx
+++ b/src/python_bindings/statistics.cxx
@@ -51,14 +51,14 @@ class PolylineStatistics
     : weightedSum_(0),
       length_(0),
       min_(vigra::NumericTraits<double>::max()),
-      max_(vigra::NumericTraits<double>::min())
+      max_(-vigra::NumericTraits<double>::max())
     {}
 
 //     PolylineStatistics(const PointArray<Vector2> &poly, object siv)
 //     : weightedSum_(0),
 //       length_(0),
 //       min_(vigra::NumericTraits<double>::max()),
-//       max_(vigra::NumericTraits<double>::min())
+//       max_(-vigra::NumericTraits<double>::max())
 //     {
 //         for(unsigned int i = 0; i < poly.size() - 1; ++i)
 //         {
@@ -73,7 +73,7 @@ class PolylineStatistics
     : weightedSum_(0),
       length_(0),
       min_(vigra::NumericTraits<double>::max()),
-      max_(vigra::NumericTraits<double>::min())
+      max_(-vigra::NumericTraits<double>::max())
     {
         for(unsigned int i = 0; i < poly.size() - 1; ++i)
         {
-- 
2.43.0


From 0f562e5f114300dbb97f63dd2ecdb47ca9b4eb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:39 +0000
Subject: [PATCH 49/53] fix: drawLabelImage with enclosed faces and edges
 within faces

Faces were filled in label order, so that a face could overwrite those
within its holes, and pixels crossed by edges which are part of hole
contours only (e.g. isolated edges) were not marked.
---
 src/geomap/cppmap_utils.hxx | 53 +++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/src/geomap/cppmap_utils.hxx b/src/geomap/cppmap_utils.hxx
index 856adb9..7c6b9f6 100644
--- a/src/geomap/cppmap_utils.hxx
+++ b/src/geomap/cppmap_utils.hxx
@@ -33,8 +33,10 @@
 #include "polygon.hxx"
 #include <boost/utility.hpp>
 #include <boost/bind.hpp>
-#include <vector>
+#include <algorithm>
 #include <list>
+#include <utility>
+#include <vector>
 
 class EdgeProtection : boost::noncopyable
 {
@@ -151,37 +153,42 @@ void drawLabelImage(const GeoMap &geomap,
                     DestIterator dul, SizeType ds, DestAccessor a,
                     bool negativeEdgeLabels = true)
 {
+    // enclosing faces must be filled before the ones in their holes:
+    typedef std::pair<double, CellLabel> AreaAndLabel;
+    std::vector<AreaAndLabel> sortedFaces;
     for(GeoMap::ConstFaceIterator
             it = geomap.finiteFacesBegin(); it.inRange(); ++it)
+        sortedFaces.push_back(AreaAndLabel(-contourArea((*it)->contour()),
+                                           (*it)->label()));
+    std::sort(sortedFaces.begin(), sortedFaces.end());
+
+    for(unsigned int i = 0; i < sortedFaces.size(); ++i)
     {
         std::auto_ptr<vigra::Scanlines> scanlines =
-            (*it)->scanLines();
-        fillScannedPoly(*scanlines, (int)(*it)->label(),
+            geomap.face(sortedFaces[i].second)->scanLines();
+        fillScannedPoly(*scanlines, (int)sortedFaces[i].second,
                         dul, ds, a);
-        if(negativeEdgeLabels)
-            vigra::drawScannedPoly(*(*it)->scanLines(), -1,
-                                   dul, ds, a);
     }
 
-    if(!negativeEdgeLabels)
-    {
-        vigra::Rect2D imageROI(vigra::Size2D(ds[0], ds[1]));
+    vigra::Rect2D imageROI(vigra::Size2D(ds[0], ds[1]));
 
-        for(GeoMap::ConstEdgeIterator
-                it = geomap.edgesBegin(); it.inRange(); ++it)
+    // now handle the pixels crossed by edges (including those which
+    // are part of hole contours only):
+    for(GeoMap::ConstEdgeIterator
+            it = geomap.edgesBegin(); it.inRange(); ++it)
+    {
+        for(vigra::ScanlinesIter sit((*it)->scanLines());
+            sit.inRange(); ++sit)
         {
-            for(vigra::ScanlinesIter sit((*it)->scanLines());
-                sit.inRange(); ++sit)
-            {
-                vigra::Point2D p(*sit);
-                if(!imageROI.contains(p))
-                    continue;
-
-                // TODO: unconditionally write negative labels above
-                // and only call faceAt for these?
-                a.set(geomap.faceAt(Vector2(p.x, p.y))->label(),
-                      dul, SizeType(p.x, p.y));
-            }
+            vigra::Point2D p(*sit);
+            if(!imageROI.contains(p))
+                continue;
+
+            // TODO: unconditionally write negative labels above
+            // and only call faceAt for these?
+            a.set(negativeEdgeLabels
+                  ? -1 : (int)geomap.faceAt(Vector2(p.x, p.y))->label(),
+                  dul, SizeType(p.x, p.y));
         }
     }
 }
-- 
2.43.0


From 1e3ad748e49a202bd322aeba17c22073b4ccb3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:28 +0000
Subject: [PATCH 50/53] fix: reject the use of removed cells instead of
 accessing their former map

---
 src/geomap/cppmap.hxx                | 9 +++++++++
 src/python_bindings/cppmapmodule.cxx | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/src/geomap/cppmap.hxx b/src/geomap/cppmap.hxx
index b91a8db..648e382 100644
--- a/src/geomap/cppmap.hxx
+++ b/src/geomap/cppmap.hxx
@@ -1158,6 +1158,7 @@ class GeoMap::Face : boost::noncopyable
 
         if(!flag(BOUNDING_BOX_VALID))
         {
+            vigra_precondition(initialized(), "boundingBox() of uninitialized face!");
             boundingBox_ = BoundingBox();
             Dart anchor(*anchors_.begin()), dart(anchor);
             do
@@ -1202,6 +1203,7 @@ class GeoMap::Face : boost::noncopyable
     {
         if(!flag(AREA_VALID))
         {
+            vigra_precondition(initialized(), "area() of uninitialized face!");
             area_ = 0.0;
             for(ContourIterator it = contoursBegin();
                 it != contoursEnd(); ++it)
@@ -1215,6 +1217,7 @@ class GeoMap::Face : boost::noncopyable
 
     std::auto_ptr<vigra::Scanlines> scanLines() const
     {
+        vigra_precondition(initialized(), "scanLines() of uninitialized face!");
         int startIndex = (int)floor(boundingBox().begin()[1] + 0.5);
         int endIndex = (int)floor(boundingBox_.end()[1] + 0.5);
 
@@ -1249,6 +1252,8 @@ class GeoMap::Face : boost::noncopyable
 
     const Dart &contour()
     {
+        vigra_precondition(initialized(), "contour() of uninitialized face!");
+        vigra_precondition(!anchors_.empty(), "contour() of face without contours!");
         return *contoursBegin();
     }
 
@@ -1352,6 +1357,7 @@ inline GeoMap::Dart GeoMap::Node::anchor() const
 
 inline unsigned int GeoMap::Node::degree() const
 {
+    vigra_precondition(initialized(), "degree() of uninitialized node!");
     if(!anchor_)
         return 0;
 
@@ -1368,6 +1374,7 @@ inline unsigned int GeoMap::Node::degree() const
 
 inline bool GeoMap::Node::hasMinDegree(unsigned int minDegree) const
 {
+    vigra_precondition(initialized(), "hasMinDegree() of uninitialized node!");
     if(!anchor_)
         return minDegree == 0;
 
@@ -1387,6 +1394,7 @@ inline bool GeoMap::Node::hasMinDegree(unsigned int minDegree) const
 
 inline bool GeoMap::Node::hasDegree(unsigned int exactDegree) const
 {
+    vigra_precondition(initialized(), "hasDegree() of uninitialized node!");
     if(!anchor_)
         return exactDegree == 0;
 
@@ -1405,6 +1413,7 @@ inline bool GeoMap::Node::hasDegree(unsigned int exactDegree) const
 
 inline GeoMap::Dart GeoMap::Edge::dart() const
 {
+    vigra_precondition(initialized(), "dart() of uninitialized edge!");
     return map_->dart(label());
 }
 
diff --git a/src/python_bindings/cppmapmodule.cxx b/src/python_bindings/cppmapmodule.cxx
index 69ef359..e089048 100644
--- a/src/python_bindings/cppmapmodule.cxx
+++ b/src/python_bindings/cppmapmodule.cxx
@@ -524,12 +524,14 @@ typedef RangeIterAdapter<GeoMap::Face::ContourIterator> ContourRangeIterator;
 ContourRangeIterator
 faceContours(const GeoMap::Face &face)
 {
+    vigra_precondition(face.initialized(), "contours() of uninitialized face!");
     return ContourRangeIterator(face.contoursBegin(), face.contoursEnd());
 }
 
 ContourRangeIterator
 faceHoleContours(const GeoMap::Face &face)
 {
+    vigra_precondition(face.initialized(), "holeContours() of uninitialized face!");
     return ContourRangeIterator(face.holesBegin(), face.contoursEnd());
 }
 
-- 
2.43.0


From b2c7ca0bf6f7ac5d63742ff24770d4912c506909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:28 +0000
Subject: [PATCH 51/53] fix: deleting the last point of a polygon by a negative
 index

---
 src/python_bindings/polygon.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index bbb0bca..d660e7d 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -188,7 +188,7 @@ void insert(Polygon & p, int pos, typename Polygon::const_reference x)
 template<class Polygon>
 void erase(Polygon & p, int pos)
 {
-    checkPythonIndex(pos, p.size() + 1);
+    checkPythonIndex(pos, p.size());
     p.erase(p.begin() + pos);
 }
 
-- 
2.43.0


From 5937cbb5340659814d5f81de1e44cdf172632038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:40 +0000
Subject: [PATCH 52/53] fix: let polygons be extended by themselves

---
 src/geomap/polygon.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index d839b0d..5f21444 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -370,6 +370,12 @@ class Polygon : public PointArray<POINT>
         if(!other.size())
             return;
 
+        if(&other == this)
+        {
+            extend(Polygon(other)); // other must not change meanwhile
+            return;
+        }
+
         const_iterator otherBegin(other.begin());
         if(this->size())
         {
-- 
2.43.0


From 8390279ae266a0855a991c1408353c6a94107b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:32 +0000
Subject: [PATCH 53/53] fix: iterating over rectangles of zero width

---
 src/python_bindings/pythondiff2d.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python_bindings/pythondiff2d.cxx b/src/python_bindings/pythondiff2d.cxx
index 3d48eec..aecb970 100644
--- a/src/python_bindings/pythondiff2d.cxx
+++ b/src/python_bindings/pythondiff2d.cxx
@@ -192,7 +192,7 @@ class MeshGridIterator
             point_.x = rect_.left();
             point_.y += stride_.y;
          }
-         if(point_.y >= rect_.bottom())
+         if(point_.y >= rect_.bottom() || point_.x >= rect_.right())
          {
             PyErr_SetString(PyExc_StopIteration, "MeshGridIterator.next(): iterator exhausted.");
             python::throw_error_already_set();
-- 
2.43.0

