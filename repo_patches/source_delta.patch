From 202aad9cf10f834a5c225379d829c170865cc9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 01/32] fix: return the conforming Delaunay triangulation by
 value

The reference returned was to a local, so any use of the result was undefined (a crash in practice).
---
 delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h | 2 +-
 delynoi/src/voronoi/TriangleDelaunayGenerator.cpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h b/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
index ab53d6c..6dd44f9 100644
--- a/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
+++ b/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
@@ -62,7 +62,7 @@ public:
      * segments, are Delaunay through the inclusion of additional points)
      * @return the conforming Delaunay triangulation
      */
-    Mesh<Triangle>& getConformingDelaunayTriangulation();
+    Mesh<Triangle> getConformingDelaunayTriangulation();
 
     /* Returns the constrained Delaunay triangulation (triangles next to constrained segments are not necessarily
      * delaunay)
diff --git a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
index 4352961..1860fdd 100644
--- a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
+++ b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
@@ -141,7 +141,7 @@ void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, cha
     free(out.edgemarkerlist);
 }
 
-Mesh<Triangle>& TriangleDelaunayGenerator::getConformingDelaunayTriangulation()  {
+Mesh<Triangle> TriangleDelaunayGenerator::getConformingDelaunayTriangulation()  {
     if(!this->empty){
         char switches[] = "pzejDQ";
         callTriangle(seedPoints, switches);
-- 
2.43.0


From 0e996de81dfd6d94e7ef9c9a1c52cab48675e224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 02/32] fix: compute the triangulation that is asked for on
 every request

The first triangulation computed was returned for every later request, whatever its kind
(constrained, conforming, with restricted segments).
---
 .../voronoi/TriangleDelaunayGenerator.h       |  1 -
 .../src/voronoi/TriangleDelaunayGenerator.cpp | 37 ++++++++++---------
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h b/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
index 6dd44f9..1ea2246 100644
--- a/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
+++ b/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
@@ -38,7 +38,6 @@ private:
     std::vector<EdgeData> edges;
     UniqueList<Point> circumcenters;
     std::unordered_map<Key, int, KeyHasher> edgeMap;
-    bool empty = false;
 
     /* Calls the Triangle library, filling the class members with the result
      * @param point_list points which Delaunay triangulation must be computed
diff --git a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
index 1860fdd..1bd4ae8 100644
--- a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
+++ b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
@@ -7,14 +7,23 @@ TriangleDelaunayGenerator::TriangleDelaunayGenerator(const std::vector<Point>& p
 }
 
 void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, char *switches) {
-    this->empty = true;
     this->callTriangle(point_list, switches, std::vector<PointSegment>());
 }
 
 void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, char *switches,
                                              std::vector<PointSegment> restrictedSegments) {
 
-    this->empty = true;
+    //Every request starts from the input: nothing of a previous triangulation can be left, and the edges of the meshes
+    //already handed out must not change
+    this->triangles.clear();
+    this->meshPoints.clear();
+    this->points.clear();
+    this->realPoints.clear();
+    this->edges.clear();
+    this->circumcenters.clear();
+    this->edgeMap.clear();
+    this->delaunayEdges = new SegmentMap;
+
     struct triangulateio in, out;
 
     std::vector<Point> regionPoints = region.getRegionPoints();
@@ -142,10 +151,8 @@ void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, cha
 }
 
 Mesh<Triangle> TriangleDelaunayGenerator::getConformingDelaunayTriangulation()  {
-    if(!this->empty){
-        char switches[] = "pzejDQ";
-        callTriangle(seedPoints, switches);
-    }
+    char switches[] = "pzejDQ";
+    callTriangle(seedPoints, switches);
 
     Mesh<Triangle> mesh = initializeMesh<Triangle>();
     return mesh;
@@ -184,29 +191,23 @@ TriangleDelaunayGenerator::writeTriangleInputFile(UniqueList<Point> &point_list,
 }
 
 DelaunayInfo TriangleDelaunayGenerator::getConformingDelaunay() {
-    if(!this->empty){
-        char switches[] = "pzejDQ";
-        callTriangle(seedPoints, switches);
-    }
+    char switches[] = "pzejDQ";
+    callTriangle(seedPoints, switches);
 
     return DelaunayInfo(triangles, meshPoints, delaunayEdges, points, realPoints, edges, edgeMap, circumcenters);
 }
 
 Mesh<Triangle> TriangleDelaunayGenerator::getConstrainedDelaunayTriangulation() {
-    if(!this->empty){
-        char switches[] = "pzejQ";
-        callTriangle(seedPoints, switches);
-    }
+    char switches[] = "pzejQ";
+    callTriangle(seedPoints, switches);
 
     return initializeMesh<Triangle>();
 }
 
 Mesh<Triangle>
 TriangleDelaunayGenerator::getConstrainedDelaunayTriangulation(std::vector<PointSegment> restrictedSegments) {
-    if(!this->empty){
-        char switches[] = "pzejQ";
-        callTriangle(seedPoints, switches, restrictedSegments);
-    }
+    char switches[] = "pzejQ";
+    callTriangle(seedPoints, switches, restrictedSegments);
 
     return initializeMesh<Triangle>();
 }
-- 
2.43.0


From 2d9eaea9b6c2d56bdec955e6639fdd6b8b05f11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 03/32] fix: a point is valid when it has been initialized

The test was inverted, so Polygon::getCentroid always gave (0,0) and the center of every polygonal
hole was the origin: such holes were not carved out of the meshes.
---
 delynoi/src/models/basic/Point.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/src/models/basic/Point.cpp b/delynoi/src/models/basic/Point.cpp
index 6b14fe4..0bea35e 100644
--- a/delynoi/src/models/basic/Point.cpp
+++ b/delynoi/src/models/basic/Point.cpp
@@ -14,7 +14,7 @@ Point::Point() {
 }
 
 bool Point::isValid() {
-    return this->isEmpty;
+    return !this->isEmpty;
 }
 
 double Point::getX() const{
-- 
2.43.0


From 165a36820f5e77ff67236f59a4c9b8d0e5b04e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 04/32] fix: discretize a circle with the configured number of
 points

The integer division gave another number of points whenever the grade does not divide 360, and
never finished for grades over 360.
---
 delynoi/src/models/polygon/Circle.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/delynoi/src/models/polygon/Circle.cpp b/delynoi/src/models/polygon/Circle.cpp
index b4ba79f..2844a49 100644
--- a/delynoi/src/models/polygon/Circle.cpp
+++ b/delynoi/src/models/polygon/Circle.cpp
@@ -11,16 +11,15 @@ std::vector<Point> Circle::discretizeCircle() {
     DelynoiConfig* config = DelynoiConfig::instance();
 
     std::vector<Point> points;
-    double delta = 360 / config->getDiscretizationGrade();
+    int steps = config->getDiscretizationGrade();
+    double delta = 360.0 / steps;
 
-    double angle = 0;
-    while (angle < 360) {
+    for (int i = 0; i < steps; ++i) {
+        double angle = delta * i;
         double x = center.getX() + radius * cos(utilities::radian(angle));
         double y = center.getY() + radius * sin(utilities::radian(angle));
 
         points.push_back(Point(x, y));
-
-        angle += delta;
     }
 
     return points;
-- 
2.43.0


From 4ba8324109d1f776564bb7d1c2b5d7faddf23c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 05/32] fix: reject self intersecting polygons given by their
 points

The check ran before the polygon had its points, and built the exception without throwing it.
---
 delynoi/src/models/polygon/Polygon.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/delynoi/src/models/polygon/Polygon.cpp b/delynoi/src/models/polygon/Polygon.cpp
index 5e8e16d..940d25f 100644
--- a/delynoi/src/models/polygon/Polygon.cpp
+++ b/delynoi/src/models/polygon/Polygon.cpp
@@ -33,12 +33,12 @@ void Polygon::mutate(std::vector<Point> &p) {
 }
 
 Polygon::Polygon(std::vector<Point> &p) {
+    delynoi_utilities::TrivialIndexVector(this->points,p.size());
+
     if(isSelfIntersecting(p)){
-        std::invalid_argument("Self intersecting polygons are not supported");
+        throw std::invalid_argument("Self intersecting polygons are not supported");
     }
 
-    delynoi_utilities::TrivialIndexVector(this->points,p.size());
-
     std::vector<Point> this_points;
     for(int i=0;i<points.size();i++){
         this_points.push_back(p[points[i]]);
-- 
2.43.0


From c447a1a2ee6421405efd877415b02c3f2ad59f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 06/32] fix: isConvex when the first three vertices are
 collinear

The reference turn was then 0 and every polygon was reported as convex.
---
 delynoi/src/models/polygon/Polygon.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/delynoi/src/models/polygon/Polygon.cpp b/delynoi/src/models/polygon/Polygon.cpp
index 940d25f..ef4b1ae 100644
--- a/delynoi/src/models/polygon/Polygon.cpp
+++ b/delynoi/src/models/polygon/Polygon.cpp
@@ -200,6 +200,10 @@ bool Polygon::isConvex(std::vector<Point>& p) {
     for(int i=1;i<n; i++){
         double newResult = delynoi_utilities::orientation(p[this->points[i]],p[this->points[(i+1)%n]],p[this->points[(i+2)%n]]);
 
+        if(determinant==0){
+            determinant = newResult;
+        }
+
         if(determinant*newResult<0){
             return false;
         }
-- 
2.43.0


From c45e76ee087178c84e3124a9d7389b76911fe560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:45 +0000
Subject: [PATCH 07/32] fix: the ears of a polygon lie inside it

Every triangle is convex, so reflex vertices were cut as well and the triangles did not tile the
polygon. An ear turns in the same direction as the polygon.
---
 delynoi/src/triangulation/EarTriangulationGenerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/src/triangulation/EarTriangulationGenerator.cpp b/delynoi/src/triangulation/EarTriangulationGenerator.cpp
index fc73a4e..34d6c3f 100644
--- a/delynoi/src/triangulation/EarTriangulationGenerator.cpp
+++ b/delynoi/src/triangulation/EarTriangulationGenerator.cpp
@@ -18,7 +18,7 @@ Triangle EarTriangulationGenerator::getEar(std::vector<Point>& points, std::vect
         bool test = false;
         Triangle t ({pointList[(size+i-1)%size], pointList[i%size], pointList[(size+i+1)%size]}, points);
 
-        if(t.isConvex(points)){
+        if(t.signedArea(points)*Polygon(pointList, points).signedArea(points)>0){
             for(int j=0;j<size;j++){
                 if(!t.isVertex(pointList[j]) && t.containsPoint(points, points[pointList[j]])){
                     test = true;
-- 
2.43.0


From 6a3302c394a909985adc7617b8a3c58c3d2f938a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:45 +0000
Subject: [PATCH 08/32] fix: triangulate a polygon of a mesh with its own
 vertices

The Delaunay triangulation of a polygon used every point of the mesh as a seed, and returned indexes
that did not refer to the points given.
---
 .../DelaunayTriangulationGenerator.cpp        | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/delynoi/src/triangulation/DelaunayTriangulationGenerator.cpp b/delynoi/src/triangulation/DelaunayTriangulationGenerator.cpp
index 0c75bb6..d54dd55 100644
--- a/delynoi/src/triangulation/DelaunayTriangulationGenerator.cpp
+++ b/delynoi/src/triangulation/DelaunayTriangulationGenerator.cpp
@@ -3,8 +3,23 @@
 std::vector<Triangle> DelaunayTriangulationGenerator::triangulate(Polygon p, std::vector<Point>& points) {
     Region r (p, points);
 
-    TriangleDelaunayGenerator generator(points,r);
+    std::vector<Point> polygonPoints = p.getPoints(points);
+    TriangleDelaunayGenerator generator(polygonPoints,r);
     Mesh<Triangle> triangulation = generator.getConstrainedDelaunayTriangulation();
 
-    return triangulation.getPolygons();
+    //The triangles refer to the points of their own mesh, which are the ones of the polygon
+    std::vector<int> polygonIndexes = p.getPoints();
+    std::vector<Triangle> triangles;
+
+    for (Triangle& t: triangulation.getPolygons()) {
+        std::vector<int> indexes;
+
+        for (int i: t.getPoints()) {
+            indexes.push_back(polygonIndexes[utilities::indexOf(polygonPoints, triangulation.getPoint(i))]);
+        }
+
+        triangles.push_back(Triangle(indexes, points));
+    }
+
+    return triangles;
 }
-- 
2.43.0


From 0356bc9354982dfd859afdc82d9c2236ad4935b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:45 +0000
Subject: [PATCH 09/32] fix: define the integer noise function that is declared

The definition had other parameter types, so no program using it could be linked.
---
 delynoi/src/models/generator/noise/noise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/src/models/generator/noise/noise.cpp b/delynoi/src/models/generator/noise/noise.cpp
index ecdcb56..72623fd 100644
--- a/delynoi/src/models/generator/noise/noise.cpp
+++ b/delynoi/src/models/generator/noise/noise.cpp
@@ -7,7 +7,7 @@ namespace noise{
         return new RandomDoubleNoise(f, min, max);
     }
 
-    Functor* random_integer_noise(Functor* f, int min, int max){
+    Functor* random_integer_noise(Functor* f, double min, double max){
         return new RandomIntegerNoise(f, min, max);
     }
 }
-- 
2.43.0


From 27e75c5f24e2f7632dac9a3039cb6ac2426fee2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:45 +0000
Subject: [PATCH 10/32] fix: keep the first element of every batch in
 constantAlternating

The element that starts a batch was forgotten, so from the second batch on the change of batch was
detected one element late, and then drifted.
---
 delynoi/src/models/generator/functions/FunctorClasses.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/delynoi/src/models/generator/functions/FunctorClasses.cpp b/delynoi/src/models/generator/functions/FunctorClasses.cpp
index 7c7b12b..fc9697a 100644
--- a/delynoi/src/models/generator/functions/FunctorClasses.cpp
+++ b/delynoi/src/models/generator/functions/FunctorClasses.cpp
@@ -89,6 +89,7 @@ public:
         if(index<visitedPlaces.size()-1){
             alternating = !alternating;
             visitedPlaces.clear();
+            visitedPlaces.push_back(x);
         }
 
         if(alternating){
-- 
2.43.0


From 8e266a47ef2ce2477ae050c4c0a56d56493fdc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:45 +0000
Subject: [PATCH 11/32] fix: keep the positions of a UniqueList right after
 pop_front and force_push_back

After pop_front every stored position was one too high (push_back of a present element gave a wrong
index, delete_element erased another element), and a forced element was not found by contains.
---
 lib/utilities/include/utilities/UniqueList.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/utilities/include/utilities/UniqueList.h b/lib/utilities/include/utilities/UniqueList.h
index 4488837..d68f652 100644
--- a/lib/utilities/include/utilities/UniqueList.h
+++ b/lib/utilities/include/utilities/UniqueList.h
@@ -59,6 +59,7 @@ int UniqueList<T>::push_back(T& item) {
 
 template <class T>
 int UniqueList<T>::force_push_back(T &item) {
+    map.insert(std::make_pair(item, list.size()));
     list.push_back(item);
 
     return (int) list.size()-1;
@@ -66,10 +67,13 @@ int UniqueList<T>::force_push_back(T &item) {
 
 template <class T>
 void UniqueList<T>::pop_front() {
-    T elem = this->list[0];
-
     this->list.erase(this->list.begin());
-    this->map.erase(elem);
+    this->map.clear();
+
+    for (int i=0;i<this->list.size();i++){
+        T e = this->list[i];
+        map.insert(std::make_pair(e, i));
+    }
 }
 
 template <class T>
-- 
2.43.0


From 195fd9205fab831ff8fbdf30cc6f11b8a7ed2ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:45 +0000
Subject: [PATCH 12/32] fix: copy the seed points of a region

The copy constructor lost them.
---
 delynoi/src/models/Region.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index b10a28e..d2d6e33 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -25,6 +25,7 @@ Region::Region(const Polygon &other, std::vector<Point>& points) : Polygon() {
 Region::Region(const Region &other) : Polygon(other){
     this->p = other.p;
     this->holes.assign(other.holes.begin(), other.holes.end());
+    this->seedPoints = other.seedPoints;
 }
 
 std::vector<Hole>& Region::getHoles() {
-- 
2.43.0


From aa946460d5ce6f243dbb38858e3d62dc27f9c09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:45 +0000
Subject: [PATCH 13/32] fix: add seed points to the ones of the region

addSeedPoints replaced the list, unlike its documentation and the other two ways of adding seeds.
---
 delynoi/src/models/Region.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index d2d6e33..60ded86 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -91,7 +91,7 @@ void Region::generateSeedPoints(PointGenerator p, int nX, int nY){
 }
 
 void Region::addSeedPoints(std::vector<Point>& seeds) {
-    this->seedPoints.assign(seeds.begin(), seeds.end());
+    this->seedPoints.insert(this->seedPoints.end(), seeds.begin(), seeds.end());
     this->clean();
 }
 
-- 
2.43.0


From 3005252c1d32517295fe787f827f948eebe0d7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 14/32] fix: scale the coordinates given to Clipper in its own
 integer type

The conversion to int overflowed for coordinates over 21474, which ruined the domain.
---
 delynoi/src/models/Region.cpp                      | 8 ++++----
 delynoi/src/models/hole/clipper/ClipperWrapper.cpp | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index 60ded86..6b7389e 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -44,14 +44,14 @@ void Region::addHole(Hole h) {
     ClipperLib::Paths solution;
 
     for(int i=0;i<this->p.size(); i++){
-        region << ClipperLib::IntPoint((int)(config->getScale()*this->p[i].getX()),
-                                       (int)(config->getScale()*this->p[i].getY()));
+        region << ClipperLib::IntPoint((ClipperLib::cInt)(config->getScale()*this->p[i].getX()),
+                                       (ClipperLib::cInt)(config->getScale()*this->p[i].getY()));
     }
 
     std::vector<Point> holePoints = h.getPoints();
     for(int i=0;i<holePoints.size();i++){
-        hole << ClipperLib::IntPoint((int)(config->getScale()*holePoints[i].getX()),
-                                     (int)(config->getScale()*holePoints[i].getY()));
+        hole << ClipperLib::IntPoint((ClipperLib::cInt)(config->getScale()*holePoints[i].getX()),
+                                     (ClipperLib::cInt)(config->getScale()*holePoints[i].getY()));
     }
 
     ClipperLib::Clipper clipper;
diff --git a/delynoi/src/models/hole/clipper/ClipperWrapper.cpp b/delynoi/src/models/hole/clipper/ClipperWrapper.cpp
index 76f31b8..d1db946 100644
--- a/delynoi/src/models/hole/clipper/ClipperWrapper.cpp
+++ b/delynoi/src/models/hole/clipper/ClipperWrapper.cpp
@@ -21,7 +21,7 @@ ClipperLib::Paths ClipperWrapper::polyIntersection(std::vector<Point> parent, st
 }
 
 ClipperLib::IntPoint ClipperWrapper::scalePoint(Point point, int maxScale) {
-    return ClipperLib::IntPoint((int)(maxScale*point.getX()), (int)(maxScale*point.getY()));
+    return ClipperLib::IntPoint((ClipperLib::cInt)(maxScale*point.getX()), (ClipperLib::cInt)(maxScale*point.getY()));
 }
 
 
-- 
2.43.0


From 53fb183e2bfcd748f25617c269693a3ba606315d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 15/32] fix: a hole that splits or covers the region is not a
 hole inside it

Any hole that left more than one path (or none) was kept as an internal hole whenever its center was
inside the region.
---
 delynoi/src/models/Region.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index 6b7389e..b780237 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -69,14 +69,12 @@ void Region::addHole(Hole h) {
         }
 
         this->mutate(newPoints);
+    }else if(solution.size()==2 && ClipperLib::Orientation(solution[0])!=ClipperLib::Orientation(solution[1])){
+        //An outer path and an inner one, so the hole is completely inside
+        this->holes.push_back(h);
     }else{
-        //Two cases, hole is completely inside or completely outside, just ignore holes outside
-
-        if(Polygon::containsPoint(this->p, h.getCenter())){
-            this->holes.push_back(h);
-        }else{
-            throw std::invalid_argument("Hole lies completely outside of domain region");
-        }
+        //Nothing is left of the region, or more than one piece, which a region can not represent
+        throw std::invalid_argument("Hole covers the domain region or splits it");
     }
 }
 
-- 
2.43.0


From 0cd602ad05b52b76bf439658c632831f385727ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 16/32] fix: the center of a polygonal hole is inside the hole

The centroid of a non convex hole can be outside of it; the triangulations then carved the domain out
instead of the hole.
---
 delynoi/src/models/hole/PolygonalHole.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/delynoi/src/models/hole/PolygonalHole.cpp b/delynoi/src/models/hole/PolygonalHole.cpp
index 2020647..dc08669 100644
--- a/delynoi/src/models/hole/PolygonalHole.cpp
+++ b/delynoi/src/models/hole/PolygonalHole.cpp
@@ -5,6 +5,14 @@ PolygonalHole::PolygonalHole(std::vector<Point>& p) : Polygon(p) {
         this->HolePoints.push_back(p.at(i));
     }
     this->center = this->getCentroid(p);
+
+    //The center marks the inside of the hole, which the centroid of a non convex hole may be out of. There is always a
+    //triangle of consecutive vertices whose centroid is inside
+    int n = (int) p.size();
+    for(int i=0;i<n && (!Polygon::containsPoint(p, this->center) || Polygon::inEdges(p, this->center));i++){
+        Point a = p[i], b = p[(i+1)%n], c = p[(i+2)%n];
+        this->center = Point((a.getX() + b.getX() + c.getX())/3, (a.getY() + b.getY() + c.getY())/3);
+    }
     Polygon::getSegments(this->segments);
 }
 
-- 
2.43.0


From f0efef2fe8810b93f43ad5f09517d11ec7e69f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 17/32] fix: flag the boundary vertices of the Voronoi diagram
 that coincide with a circumcenter

The list keeps the point it already had, which was not flagged.
---
 delynoi/src/voronoi/DelaunayToVoronoi.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/delynoi/src/voronoi/DelaunayToVoronoi.cpp b/delynoi/src/voronoi/DelaunayToVoronoi.cpp
index 89c199e..210bcc8 100644
--- a/delynoi/src/voronoi/DelaunayToVoronoi.cpp
+++ b/delynoi/src/voronoi/DelaunayToVoronoi.cpp
@@ -75,6 +75,7 @@ DelaunayToVoronoi::DelaunayToVoronoi(DelaunayInfo& del) {
             } else{
                 regionCenter.setBoundary();
                 int regionIndex = del.circumcenters.push_back(regionCenter);
+                del.circumcenters[regionIndex].setBoundary();
 
                 cellPoints.push_back(regionIndex);
                 pointMap->insert(del.circumcenters[regionIndex], cellIndex);
@@ -113,6 +114,7 @@ int DelaunayToVoronoi::getCircumcenter(DelaunayInfo& del, int triangle, int edge
         middlePoint.setBoundary();
 
         int circumcenterIndex = del.circumcenters.push_back(middlePoint);
+        del.circumcenters[circumcenterIndex].setBoundary();
 
         return circumcenterIndex;
     }
-- 
2.43.0


From 1556a9f89a587db0b9f9b8bc1a23d39d8d1b3511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 18/32] fix: write indexes as integers

From 1000000 on they were written as rounded doubles (1e+06).
---
 delynoi/src/models/basic/IndexSegment.cpp                | 2 +-
 delynoi/src/models/neighbourhood/EdgeData.cpp            | 2 +-
 delynoi/src/models/neighbourhood/NeighboursBySegment.cpp | 2 +-
 delynoi/src/models/polygon/Polygon.cpp                   | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/delynoi/src/models/basic/IndexSegment.cpp b/delynoi/src/models/basic/IndexSegment.cpp
index dfbadcd..d2cd37f 100644
--- a/delynoi/src/models/basic/IndexSegment.cpp
+++ b/delynoi/src/models/basic/IndexSegment.cpp
@@ -53,7 +53,7 @@ bool IndexSegment::isCCW(const std::vector<Point>& points, Point center) {
 }
 
 std::string IndexSegment::getString() const {
-    return utilities::toString<double>(this->getFirst()) + " " + utilities::toString<double>(this->getSecond());
+    return utilities::toString<int>(this->getFirst()) + " " + utilities::toString<int>(this->getSecond());
 }
 
 bool IndexSegment::operator==(const IndexSegment& other) const {
diff --git a/delynoi/src/models/neighbourhood/EdgeData.cpp b/delynoi/src/models/neighbourhood/EdgeData.cpp
index a52a3f3..45a86a9 100644
--- a/delynoi/src/models/neighbourhood/EdgeData.cpp
+++ b/delynoi/src/models/neighbourhood/EdgeData.cpp
@@ -17,7 +17,7 @@ void EdgeData::setTriangle(int t) {
 }
 
 std::string EdgeData::getString() {
-    return utilities::toString<double>(this->p1) + " " + utilities::toString<double>(this->p2);
+    return utilities::toString<int>(this->p1) + " " + utilities::toString<int>(this->p2);
 }
 
 bool EdgeData::operator==(const EdgeData &other) const {
diff --git a/delynoi/src/models/neighbourhood/NeighboursBySegment.cpp b/delynoi/src/models/neighbourhood/NeighboursBySegment.cpp
index b9ada00..dcd4275 100644
--- a/delynoi/src/models/neighbourhood/NeighboursBySegment.cpp
+++ b/delynoi/src/models/neighbourhood/NeighboursBySegment.cpp
@@ -29,7 +29,7 @@ int NeighboursBySegment::getSecond() const{
 }
 
 std::string NeighboursBySegment::getString() const {
-    return utilities::toString<double>(this->n1) + " " + utilities::toString<double>(this->n2);
+    return utilities::toString<int>(this->n1) + " " + utilities::toString<int>(this->n2);
 }
 
 bool NeighboursBySegment::operator==(const NeighboursBySegment &other) const{
diff --git a/delynoi/src/models/polygon/Polygon.cpp b/delynoi/src/models/polygon/Polygon.cpp
index ef4b1ae..7cce207 100644
--- a/delynoi/src/models/polygon/Polygon.cpp
+++ b/delynoi/src/models/polygon/Polygon.cpp
@@ -248,10 +248,10 @@ bool Polygon::operator==(const Polygon &other) const{
 }
 
 std::string Polygon::getString() {
-    std::string base = utilities::toString<double>(this->points.size());
+    std::string base = utilities::toString<int>(this->points.size());
 
     for(int i=0;i<this->points.size();i++){
-        base += " " + utilities::toString<double>(this->points[i]);
+        base += " " + utilities::toString<int>(this->points[i]);
     }
 
     return base;
-- 
2.43.0


From a142b3eab9ebaa94c6bebbe80887780e17fb81c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 19/32] fix: write the points of a mesh with the precision of
 the stream

The configured precision was set on the stream and then not used: coordinates had six significant
digits, so different points could be written alike.
---
 delynoi/include/delynoi/models/Mesh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/include/delynoi/models/Mesh.h b/delynoi/include/delynoi/models/Mesh.h
index 4bd46dd..fdd784b 100644
--- a/delynoi/include/delynoi/models/Mesh.h
+++ b/delynoi/include/delynoi/models/Mesh.h
@@ -232,7 +232,7 @@ template <typename T>
 void Mesh<T>::printInStream(std::ofstream &file) {
     file << points.size() << std::endl;
     for(int i=0;i<points.size();i++){
-        file << points[i].getString() << std::endl;
+        file << points[i].getX() << " " << points[i].getY() << std::endl;
     }
 
     file << this->edges->size() << std::endl;
-- 
2.43.0


From 1b15d2e7e2ddd4495689c2480d5d9202f210d9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 20/32] fix: generate a single row or column of points

The spacing was infinite, which gave NaN coordinates.
---
 delynoi/src/models/generator/PointGenerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/delynoi/src/models/generator/PointGenerator.cpp b/delynoi/src/models/generator/PointGenerator.cpp
index 1ec7cc2..765084f 100644
--- a/delynoi/src/models/generator/PointGenerator.cpp
+++ b/delynoi/src/models/generator/PointGenerator.cpp
@@ -25,8 +25,8 @@ PointGenerator::PointGenerator(Functor *l, functions::independent_variable varia
 }
 
 void PointGenerator::generate(std::vector <Point> &vector, BoundingBox box, int nX, int nY) {
-    double dX = box.getWidth()/(nX-1);
-    double dY = box.getHeight()/(nY-1);
+    double dX = nX>1? box.getWidth()/(nX-1) : 0;
+    double dY = nY>1? box.getHeight()/(nY-1) : 0;
 
     for(int i = 0; i<nY; i++){
         for(int j = 0; j<nX; j++){
-- 
2.43.0


From 4afef6e5d43a4c987222c8675dce48df4299818e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 21/32] fix: follow the points of a mesh file that are merged

A repeated point shifted the index of every later one, so the polygons got other vertices.
---
 delynoi/include/delynoi/models/Mesh.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/delynoi/include/delynoi/models/Mesh.h b/delynoi/include/delynoi/models/Mesh.h
index fdd784b..f535b40 100644
--- a/delynoi/include/delynoi/models/Mesh.h
+++ b/delynoi/include/delynoi/models/Mesh.h
@@ -169,12 +169,13 @@ void Mesh<T>::createFromStream(std::ifstream &infile, int startIndex) {
     std::string line;
     std::getline(infile, line);
     int numberMeshPoints = std::atoi(line.c_str());
+    std::vector<int> pointIndexes;
     for (int i = 0; i < numberMeshPoints; ++i) {
         std::getline(infile, line);
         std::vector<std::string> splittedLine = utilities::splitBySpaces(line);
 
         Point newPoint(std::atof(splittedLine[0].c_str()), std::atof(splittedLine[1].c_str()));
-        this->points.push_back(newPoint);
+        pointIndexes.push_back(this->points.push_back(newPoint));
     }
 
     std::getline(infile, line);
@@ -186,7 +187,7 @@ void Mesh<T>::createFromStream(std::ifstream &infile, int startIndex) {
 
         std::vector<int> polygonPoints;
         for (int j = 1; j < splittedLine.size(); ++j) {
-            polygonPoints.push_back(std::atoi(splittedLine[j].c_str()) - startIndex);
+            polygonPoints.push_back(pointIndexes[std::atoi(splittedLine[j].c_str()) - startIndex]);
         }
 
         T newPolygon(polygonPoints, this->points.getList());
-- 
2.43.0


From 0afaeb1857ad8736930e45bd6d7b3bb1d9e82676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 22/32] fix: fill the point map of a mesh read from a file

---
 delynoi/include/delynoi/models/Mesh.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/delynoi/include/delynoi/models/Mesh.h b/delynoi/include/delynoi/models/Mesh.h
index f535b40..fe74778 100644
--- a/delynoi/include/delynoi/models/Mesh.h
+++ b/delynoi/include/delynoi/models/Mesh.h
@@ -198,6 +198,10 @@ void Mesh<T>::createFromStream(std::ifstream &infile, int startIndex) {
         for (IndexSegment s: segments){
             this->edges->insert(s, i);
         }
+
+        for (int p: polygonPoints){
+            this->pointMap->insert(this->points[p], i);
+        }
     }
 }
 
-- 
2.43.0


From e49faf89d56703730b44c69b582ad2bc525b9533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 23/32] fix: asking for the neighbours of a segment does not
 add it to the mesh

---
 delynoi/include/delynoi/models/Mesh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/include/delynoi/models/Mesh.h b/delynoi/include/delynoi/models/Mesh.h
index fe74778..05c61d1 100644
--- a/delynoi/include/delynoi/models/Mesh.h
+++ b/delynoi/include/delynoi/models/Mesh.h
@@ -279,7 +279,7 @@ Point Mesh<T>::getPoint(int i) {
 
 template <typename T>
 NeighboursBySegment Mesh<T>::getNeighbours(IndexSegment s) {
-    return this->edges->get(s);
+    return this->edges->containsSegment(s)? this->edges->get(s) : NeighboursBySegment(-1, -1);
 }
 
 #endif
\ No newline at end of file
-- 
2.43.0


From 25540a79cc13f1611f0c618e2693b949cae2a2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 24/32] fix: include the ends of the restricted segments in the
 triangulation

An end that was not a seed or a vertex of the domain got index -1, out of the points given to Triangle.
---
 delynoi/src/voronoi/TriangleDelaunayGenerator.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
index 1bd4ae8..073fd63 100644
--- a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
+++ b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
@@ -31,6 +31,13 @@ void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, cha
     pointList.push_list(point_list);
     std::vector<int> regionIndex = pointList.push_list(regionPoints);
 
+    std::vector<int> restrictedIndex;
+    for(PointSegment& s: restrictedSegments){
+        Point first = s.getFirst(), second = s.getSecond();
+        restrictedIndex.push_back(pointList.push_back(first));
+        restrictedIndex.push_back(pointList.push_back(second));
+    }
+
     in.numberofpoints = pointList.size();
     in.pointlist = (REAL*)malloc(in.numberofpoints*2*sizeof(REAL));
     in.numberofpointattributes = 1;
@@ -59,10 +66,8 @@ void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, cha
     }
 
     for (int j=0; j<restrictedSegments.size(); j++){
-        PointSegment s = restrictedSegments[j];
-
-        in.segmentlist[2*k] = pointList.indexOf(s.getFirst());
-        in.segmentlist[2*k+1] = pointList.indexOf(s.getSecond());
+        in.segmentlist[2*k] = restrictedIndex[2*j];
+        in.segmentlist[2*k+1] = restrictedIndex[2*j+1];
         k++;
     }
 
-- 
2.43.0


From ec5661a373f409f95fcc4355b2d1c005b5bc1ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 25/32] fix: bring negative angles to the interval between 0
 and 180 too

---
 delynoi/include/delynoi/models/basic/Angle.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delynoi/include/delynoi/models/basic/Angle.h b/delynoi/include/delynoi/models/basic/Angle.h
index 4ce110f..39bdf09 100644
--- a/delynoi/include/delynoi/models/basic/Angle.h
+++ b/delynoi/include/delynoi/models/basic/Angle.h
@@ -18,6 +18,9 @@ struct Angle{
      */
     Angle(double a){
         a = a - 360.0*int(a/360);
+        if(a<0) {
+            a = a + 360;
+        }
         if(a>=0 && a<180) {
             angle = a;
         }else{
-- 
2.43.0


From 141252095903f841d5daddab89828e41c8cf6882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:48 +0000
Subject: [PATCH 26/32] fix: a vertex repeated in a row is not a self
 intersection

The sides around it share that vertex, but were not taken as consecutive.
---
 delynoi/src/models/polygon/Polygon.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/delynoi/src/models/polygon/Polygon.cpp b/delynoi/src/models/polygon/Polygon.cpp
index 7cce207..f37884d 100644
--- a/delynoi/src/models/polygon/Polygon.cpp
+++ b/delynoi/src/models/polygon/Polygon.cpp
@@ -293,8 +293,16 @@ bool Polygon::operator<(const Polygon &other) const {
 }
 
 bool Polygon::isSelfIntersecting(std::vector<Point>& points) {
-    std::vector<IndexSegment> segments;
-    this->getSegments(segments);
+    std::vector<IndexSegment> sides, segments;
+    this->getSegments(sides);
+
+    //A vertex that is repeated in a row gives a side without length, which does not count
+    for (IndexSegment& s : sides) {
+        if(!(points[s.getFirst()]==points[s.getSecond()])){
+            segments.push_back(s);
+        }
+    }
+
     int n = segments.size();
     Point intersection;
 
-- 
2.43.0


From 6ee2daf2a488d2b7883b8006d46b418045fb072f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:06 +0000
Subject: [PATCH 27/32] fix: random integers stay within bounds that are not
 integers

---
 delynoi/src/models/generator/functions/RandomInteger.cpp  | 3 ++-
 delynoi/src/models/generator/noise/RandomIntegerNoise.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/delynoi/src/models/generator/functions/RandomInteger.cpp b/delynoi/src/models/generator/functions/RandomInteger.cpp
index 50d8c73..abc449c 100644
--- a/delynoi/src/models/generator/functions/RandomInteger.cpp
+++ b/delynoi/src/models/generator/functions/RandomInteger.cpp
@@ -1,4 +1,5 @@
 #include <delynoi/models/generator/functions/RandomInteger.h>
+#include <cmath>
 
 std::default_random_engine Random_Integer::rd;
 std::mt19937 Random_Integer::rng(rd());
@@ -6,7 +7,7 @@ std::mt19937 Random_Integer::rng(rd());
 Random_Integer::Random_Integer(double min, double max) {
     this->min = min;
     this->max = max;
-    this->uni = std::uniform_int_distribution<int>(min,max);
+    this->uni = std::uniform_int_distribution<int>((int) std::ceil(min), (int) std::floor(max));
 }
 
 double Random_Integer::apply(double x) {
diff --git a/delynoi/src/models/generator/noise/RandomIntegerNoise.cpp b/delynoi/src/models/generator/noise/RandomIntegerNoise.cpp
index 278ddb8..353c0f3 100644
--- a/delynoi/src/models/generator/noise/RandomIntegerNoise.cpp
+++ b/delynoi/src/models/generator/noise/RandomIntegerNoise.cpp
@@ -1,4 +1,5 @@
 #include <delynoi/models/generator/noise/RandomIntegerNoise.h>
+#include <cmath>
 
 std::default_random_engine RandomIntegerNoise::rd;
 std::mt19937 RandomIntegerNoise::rng(rd());
@@ -7,7 +8,7 @@ RandomIntegerNoise::RandomIntegerNoise(Functor *f, double min, double max) {
     this->min = min;
     this->max = max;
     this->f = f;
-    this->uni = std::uniform_int_distribution<int>(min,max);
+    this->uni = std::uniform_int_distribution<int>((int) std::ceil(min), (int) std::floor(max));
 }
 
 double RandomIntegerNoise::apply(double x) {
-- 
2.43.0


From 95bfe88048bb9feea1935a89ed11ffc07ffafc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:06 +0000
Subject: [PATCH 28/32] fix: integer noise goes both ways whatever its bounds

---
 delynoi/src/models/generator/noise/RandomIntegerNoise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/src/models/generator/noise/RandomIntegerNoise.cpp b/delynoi/src/models/generator/noise/RandomIntegerNoise.cpp
index 353c0f3..ec517b0 100644
--- a/delynoi/src/models/generator/noise/RandomIntegerNoise.cpp
+++ b/delynoi/src/models/generator/noise/RandomIntegerNoise.cpp
@@ -12,5 +12,5 @@ RandomIntegerNoise::RandomIntegerNoise(Functor *f, double min, double max) {
 }
 
 double RandomIntegerNoise::apply(double x) {
-    return f->apply(x) + (uni)(this->rng) * ((uni)(this->rng)%2? 1 : -1);
+    return f->apply(x) + (uni)(this->rng) * (std::uniform_int_distribution<int>(0,1)(this->rng)? 1 : -1);
 }
-- 
2.43.0


From a67749eca0c7cebec7700004ba19ad80f74d46f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:14 +0000
Subject: [PATCH 29/32] fix: restricted segments that cross others and pass
 through vertices

Triangle rounds the point where two segments cross, so that the rest of a segment no longer passes through the vertices
behind it, and gives up with an internal error. Each segment is given to it in pieces between those vertices.
---
 .../src/voronoi/TriangleDelaunayGenerator.cpp | 32 +++++++++++++++----
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
index 073fd63..e8995fe 100644
--- a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
+++ b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
@@ -31,11 +31,29 @@ void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, cha
     pointList.push_list(point_list);
     std::vector<int> regionIndex = pointList.push_list(regionPoints);
 
-    std::vector<int> restrictedIndex;
+    std::vector<IndexSegment> restricted;
     for(PointSegment& s: restrictedSegments){
         Point first = s.getFirst(), second = s.getSecond();
-        restrictedIndex.push_back(pointList.push_back(first));
-        restrictedIndex.push_back(pointList.push_back(second));
+        int firstIndex = pointList.push_back(first);
+        restricted.push_back(IndexSegment(firstIndex, pointList.push_back(second)));
+    }
+
+    //Triangle gets each restricted segment in pieces between the points that it passes through: where it crosses another
+    //one it bends a little, and the rest of it would then pass by those points instead of through them
+    std::vector<IndexSegment> pieces;
+    for(IndexSegment& s: restricted){
+        std::vector<std::pair<double,int>> stops;
+        for(int i=0;i<pointList.size();i++){
+            if(i!=s.getSecond() && s.contains(pointList.getList(), pointList[i])){
+                stops.push_back(std::make_pair(IndexSegment(s.getFirst(), i).length(pointList.getList()), i));
+            }
+        }
+        std::sort(stops.begin(), stops.end());
+        stops.push_back(std::make_pair(s.length(pointList.getList()), s.getSecond()));
+
+        for(int i=1;i<stops.size();i++){
+            pieces.push_back(IndexSegment(stops[i-1].second, stops[i].second));
+        }
     }
 
     in.numberofpoints = pointList.size();
@@ -56,7 +74,7 @@ void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, cha
     std::vector<IndexSegment> segments;
     region.getSegments(segments);
 
-    in.numberofsegments = (int) (segments.size() + restrictedSegments.size());
+    in.numberofsegments = (int) (segments.size() + pieces.size());
     in.segmentlist = (int*)malloc(in.numberofsegments*2*sizeof(int));
     in.segmentmarkerlist = (int*) NULL;
     int k;
@@ -65,9 +83,9 @@ void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, cha
         in.segmentlist[2*k+1] = regionIndex[segments[k].getSecond()];
     }
 
-    for (int j=0; j<restrictedSegments.size(); j++){
-        in.segmentlist[2*k] = restrictedIndex[2*j];
-        in.segmentlist[2*k+1] = restrictedIndex[2*j+1];
+    for (int j=0; j<pieces.size(); j++){
+        in.segmentlist[2*k] = pieces[j].getFirst();
+        in.segmentlist[2*k+1] = pieces[j].getSecond();
         k++;
     }
 
-- 
2.43.0


From d28381dc0cf6ac472a7cc0e1c750f10ac57530e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:01 +0000
Subject: [PATCH 30/32] fix: the declaration of collinear for segments matches
 its definition

---
 delynoi/include/delynoi/utilities/geometryFunctions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/include/delynoi/utilities/geometryFunctions.h b/delynoi/include/delynoi/utilities/geometryFunctions.h
index 1c820be..9527508 100644
--- a/delynoi/include/delynoi/utilities/geometryFunctions.h
+++ b/delynoi/include/delynoi/utilities/geometryFunctions.h
@@ -25,7 +25,7 @@ namespace geometry_functions{
      * @param seg1 seg2 segments to test
      * @return are the segments collinear or not
      */
-    extern bool collinear(PointSegment& seg1, PointSegment& seg2);
+    extern bool collinear(PointSegment seg1, PointSegment seg2);
 
     /* Calculates the area of a triangle defined by three points
      * @param p1 p2 origin points that define an area
-- 
2.43.0


From 2a34e8fc1b5af2ebe6c66c069d0a6652eee65a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 31/32] fix: polygons with other vertices but the same hash are
 not equal

---
 delynoi/src/models/polygon/Polygon.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/delynoi/src/models/polygon/Polygon.cpp b/delynoi/src/models/polygon/Polygon.cpp
index f37884d..8892386 100644
--- a/delynoi/src/models/polygon/Polygon.cpp
+++ b/delynoi/src/models/polygon/Polygon.cpp
@@ -244,7 +244,9 @@ bool Polygon::isClockwise(std::vector<Point> &p) {
 }
 
 bool Polygon::operator==(const Polygon &other) const{
-    return this->hash==other.hash;
+    //Different vertices can have the same hash
+    return this->hash==other.hash && this->points.size()==other.points.size() &&
+           std::is_permutation(this->points.begin(), this->points.end(), other.points.begin());
 }
 
 std::string Polygon::getString() {
@@ -289,7 +291,15 @@ std::vector<Point> Polygon::getPoints(std::vector<Point> &p) {
 }
 
 bool Polygon::operator<(const Polygon &other) const {
-    return this->hash<other.hash;
+    if(this->hash!=other.hash){
+        return this->hash<other.hash;
+    }
+
+    std::vector<int> vertices = this->points, otherVertices = other.points;
+    std::sort(vertices.begin(), vertices.end());
+    std::sort(otherVertices.begin(), otherVertices.end());
+
+    return vertices<otherVertices;
 }
 
 bool Polygon::isSelfIntersecting(std::vector<Point>& points) {
-- 
2.43.0


From 1b5ef616010904e34aece24b23c321cf9da2166e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:52 +0000
Subject: [PATCH 32/32] fix: the values of a map have the type of its values

---
 lib/utilities/include/utilities/maputils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/utilities/include/utilities/maputils.h b/lib/utilities/include/utilities/maputils.h
index 2ddc121..0cf9236 100644
--- a/lib/utilities/include/utilities/maputils.h
+++ b/lib/utilities/include/utilities/maputils.h
@@ -11,7 +11,7 @@ namespace map_utils{
 
     struct GetValues {
         template <typename T>
-        typename T::first_type operator()(T keyValuePair) const {
+        typename T::second_type operator()(T keyValuePair) const {
             return keyValuePair.second;
         }
     };
-- 
2.43.0

