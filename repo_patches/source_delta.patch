From 05f625c734f48d723cf1cd90d65231a535da18d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:40 +0000
Subject: [PATCH 01/86] fix: Array2D assignment leaked its storage and
 corrupted the array on self assignment

---
 src/utility/array2D.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utility/array2D.hpp b/src/utility/array2D.hpp
index 3425f69..f6c6a27 100644
--- a/src/utility/array2D.hpp
+++ b/src/utility/array2D.hpp
@@ -204,9 +204,12 @@ public:
     ///Copy-assignment operator
     Array2D& operator=(const Array2D& other)
     {
+        if(this == &other)
+            return *this;
         blocks_no_side = other.blocks_no_side;
         size_t array_len = blocks_no_side*blocks_no_side*BLOCK_SIDE*BLOCK_SIDE;
         array_len *= sizeof(T);
+        free(data);
         data = (T*)malloc(array_len);
         memcpy(data, other.data, array_len);
         return *this;
-- 
2.43.0


From 3ffee3d3796b65f4618a7cc7662400eaa40d2746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:24 +0000
Subject: [PATCH 02/86] fix: Matrix4::inverse reported every matrix with a
 determinant below 1e-5 as singular (models scaled below 0.02)

---
 src/geometry/matrix4.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/matrix4.cpp b/src/geometry/matrix4.cpp
index 0ed5f94..25468b6 100644
--- a/src/geometry/matrix4.cpp
+++ b/src/geometry/matrix4.cpp
@@ -409,7 +409,7 @@ bool Matrix4::inverse(Matrix4* output) const
     det = Matrix4::m00*inv[0]+Matrix4::m01*inv[4]
           +Matrix4::m02*inv[8]+Matrix4::m03*inv[12];
 
-    if(flt_equal(det, 0.0f))
+    if(det == 0.0f)
         return false;
 
     det = 1.0f/det;
-- 
2.43.0


From ca621631145d6531ba7ef4627045a8c2f4af00a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:22 +0000
Subject: [PATCH 03/86] fix: a ray whose first hit on a sphere is masked out
 could report a second hit beyond the allowed distance

---
 src/primitives/sphere.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/primitives/sphere.cpp b/src/primitives/sphere.cpp
index 6a60ac3..6582488 100644
--- a/src/primitives/sphere.cpp
+++ b/src/primitives/sphere.cpp
@@ -119,6 +119,8 @@ bool Sphere::intersect(const Ray* r, float* distance, HitPoint* hit,
         else if(!std::isnan(sol2))
         {
             //repeat the procedure with second hit, first was invalidated
+            if(*distance<sol2)//better intersection already found
+                return false;
             hitp = r->apply(sol2);
             tmp.point_h = hitp;
             if(tmp.point_h.x == 0 && tmp.point_h.y == 0)
-- 
2.43.0


From 08fe9ac528a73e05df19d15789d9101ef0929e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:22 +0000
Subject: [PATCH 04/86] fix: masked triangle tested the mask with a wrong
 texture footprint (dv copied from du)

---
 src/primitives/triangle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/triangle.cpp b/src/primitives/triangle.cpp
index 9416495..f25d693 100644
--- a/src/primitives/triangle.cpp
+++ b/src/primitives/triangle.cpp
@@ -101,7 +101,7 @@ bool Triangle::intersect(const Ray* r, float* distance, HitPoint* h,
     tmp.uv.x = w*a.t.x+u*b.t.x+v*c.t.x;
     tmp.uv.y = w*a.t.y+u*b.t.y+v*c.t.y;
     tmp.du = h->du;
-    tmp.dv = h->du;
+    tmp.dv = h->dv;
     tmp.differentials = h->differentials;
     if(!mask->is_masked(&tmp))
     {
-- 
2.43.0


From 82ec2a483db1ace29d09f3c26224f6f4aa6e2d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:47 +0000
Subject: [PATCH 05/86] fix: points sampled on a mesh were taken from the wrong
 triangle

---
 src/primitives/mesh.cpp | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/src/primitives/mesh.cpp b/src/primitives/mesh.cpp
index 6f250c8..73a7968 100644
--- a/src/primitives/mesh.cpp
+++ b/src/primitives/mesh.cpp
@@ -180,38 +180,26 @@ void Mesh::sample_point(float r0, float r1, const float* densities, Point3* p,
     //the sample in the interval [0,1]. After processing the lerp step
     float sample01;
 
-    //limit cases, they generate infinite loops
-    //first triangle of the array
-    if(extSample<densities[0])
+    //limit case: first triangle of the array
+    if(count == 1 || extSample<densities[0])
     {
         sample01 = inverse_lerp(extSample, 0, densities[0]);
         tris[0].sample_point(sample01, r1, NULL, p, n);
         return;
     }
-    //last triangle of the array
-    if(extSample>densities[end-1])
-    {
-        sample01 = inverse_lerp(extSample-densities[end-1], 0,
-                                densities[end]-densities[end-1]);
-        tris[end].sample_point(sample01, r1, NULL, p, n);
-        return;
-    }
 
-    //find the sampled triangle by using cumulative areas (cdf)
-    while(true)
+    //find the first triangle with a cumulative area (cdf) above the sample
+    while(start<end)
     {
         mid = (start+end)/2;
-        //mid contains the value
-        if(densities[mid]<=extSample && densities[mid+1]>extSample)
-            break;
-        else if(densities[mid]>extSample)
+        if(densities[mid]>extSample)
             end = mid;
         else
-            start = mid;
+            start = mid+1;
     }
 
     //sample the triangle
-    sample01 = inverse_lerp(extSample-densities[mid], 0,
-                            densities[mid+1]-densities[mid]);
-    tris[mid].sample_point(sample01, r1, NULL, p, n);
+    sample01 = inverse_lerp(extSample-densities[end-1], 0,
+                            densities[end]-densities[end-1]);
+    tris[end].sample_point(sample01, r1, NULL, p, n);
 }
-- 
2.43.0


From b0d15ea9ae77003a6253830667a89b9ef878719b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:29 +0000
Subject: [PATCH 06/86] fix: rays leaving a box got the normal of the entry
 face

---
 src/primitives/box.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/primitives/box.cpp b/src/primitives/box.cpp
index 04e5efd..248a357 100644
--- a/src/primitives/box.cpp
+++ b/src/primitives/box.cpp
@@ -62,6 +62,7 @@ bool Box::intersect(const Ray* r, float* distance, HitPoint* h,
     float mint;
     float maxt;
     char axis = 0; //used for normal identification
+    char exit_axis = 0; //as above, if the origin is inside the box
 
     //x plane
     float invr = 1.0f/r->direction.x;
@@ -83,7 +84,11 @@ bool Box::intersect(const Ray* r, float* distance, HitPoint* h,
         mint = near;
         axis = 1;
     }
-    maxt = far<maxt?far:maxt;
+    if(far<maxt)
+    {
+        maxt = far;
+        exit_axis = 1;
+    }
     if(mint>maxt)
         return false;
 
@@ -98,7 +103,11 @@ bool Box::intersect(const Ray* r, float* distance, HitPoint* h,
         mint = near;
         axis = 2;
     }
-    maxt = far<maxt?far:maxt;
+    if(far<maxt)
+    {
+        maxt = far;
+        exit_axis = 2;
+    }
     if(mint>maxt)
         return false;
     float tmpdistance;
@@ -107,6 +116,7 @@ bool Box::intersect(const Ray* r, float* distance, HitPoint* h,
     else if(maxt>SELF_INTERSECT_ERROR)
     {
         inside = true;
+        axis = exit_axis;
         tmpdistance = maxt;
     }
     else
-- 
2.43.0


From d75d1a25d50e1e551c7d9ddf29bfb55668291ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:39 +0000
Subject: [PATCH 07/86] fix: the hit record of a box had an uninitialised dpdv

---
 src/primitives/box.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primitives/box.cpp b/src/primitives/box.cpp
index 248a357..8c9f58b 100644
--- a/src/primitives/box.cpp
+++ b/src/primitives/box.cpp
@@ -135,6 +135,7 @@ bool Box::intersect(const Ray* r, float* distance, HitPoint* h,
             h->dpdu = Vec3(h->normal_h.z, 0, 0);
         else
             h->dpdu = Vec3(-h->normal_h.y, h->normal_h.x, 0);
+        h->dpdv = Vec3(h->normal_h).cross(h->dpdu);
         h->index = 0;
         return true;
         //TODO: missing uv generation, and masking should be done after uvs
-- 
2.43.0


From 1658de885469c0214ecbcbf352710cbe3531e338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:05 +0000
Subject: [PATCH 08/86] fix: triangles whose texture coordinates coincide
 produced a NaN shading frame

---
 src/primitives/triangle.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/primitives/triangle.cpp b/src/primitives/triangle.cpp
index f25d693..3c2c7c1 100644
--- a/src/primitives/triangle.cpp
+++ b/src/primitives/triangle.cpp
@@ -89,15 +89,22 @@ bool Triangle::intersect(const Ray* r, float* distance, HitPoint* h,
     const float delta[2][2] = {{a.t[0]-c.t[0], b.t[0]-c.t[0]},
                                {a.t[1]-c.t[1], b.t[1]-c.t[1]}};
     const float uvdet = delta[0][0]*delta[1][1]-delta[0][1]*delta[1][0];
-    //TODO: handle degenerate UVs (uvdet == 0)
-    const float invuvdet = 1.f/uvdet;
     const Vec3 ac = a.p-c.p;
     const Vec3 bc = b.p-c.p;
     //tmp is necessary because I cannot overwrite original "h" if there's not
     //intersection. (here intersection could be invalidated by mask)
     HitPoint tmp;
-    tmp.dpdu = (ac*delta[1][1]-bc*delta[1][0])*invuvdet;
-    tmp.dpdv = (bc*delta[0][0]-ac*delta[0][1])*invuvdet;
+    if(uvdet != 0)
+    {
+        const float invuvdet = 1.f/uvdet;
+        tmp.dpdu = (ac*delta[1][1]-bc*delta[1][0])*invuvdet;
+        tmp.dpdv = (bc*delta[0][0]-ac*delta[0][1])*invuvdet;
+    }
+    else //degenerate UVs, any two tangents will do
+    {
+        tmp.dpdu = ba;
+        tmp.dpdv = ba.cross(ca).cross(ba);
+    }
     tmp.uv.x = w*a.t.x+u*b.t.x+v*c.t.x;
     tmp.uv.y = w*a.t.y+u*b.t.y+v*c.t.y;
     tmp.du = h->du;
-- 
2.43.0


From d4dfd23e7f1763e011dc9804a9ed8553e4c0d438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:30 +0000
Subject: [PATCH 09/86] fix: the shading frame was skewed wherever the
 interpolated normal is not the face normal

---
 src/materials/shading_space.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/materials/shading_space.cpp b/src/materials/shading_space.cpp
index 1babbe9..2107f69 100644
--- a/src/materials/shading_space.cpp
+++ b/src/materials/shading_space.cpp
@@ -4,8 +4,10 @@
 #include "shading_space.hpp"
 
 ShadingSpace::ShadingSpace(const HitPoint* hp)
-        :s(hp->dpdu), n(hp->normal_h)
+        :n(hp->normal_h)
 {
+    //the interpolated normal is not always orthogonal to the surface
+    s = (hp->dpdu-(Vec3)(n*dot(n, hp->dpdu))).normalize();
     t = cross(Vec3(n), s).normalize();
 }
 
-- 
2.43.0


From f563ace18079af5f1a360881520fa36c8f9a8601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:30 +0000
Subject: [PATCH 10/86] fix: texture footprints ignored the size of the surface
 in texture space

---
 src/primitives/asset.cpp        | 2 --
 src/textures/texture_height.cpp | 8 ++++++--
 src/textures/texture_normal.cpp | 1 +
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/primitives/asset.cpp b/src/primitives/asset.cpp
index b64b3fe..da6b9d3 100644
--- a/src/primitives/asset.cpp
+++ b/src/primitives/asset.cpp
@@ -43,8 +43,6 @@ Asset::intersect(const Ray* ray_world, float* distance, HitPoint* hit) const
         hit->dpdu = objToWorld*hit->dpdu;
         hit->dpdv = objToWorld*hit->dpdv;
         hit->normal_h.normalize();
-        hit->dpdu.normalize();
-        hit->dpdv.normalize();
     }
     return res;
 }
diff --git a/src/textures/texture_height.cpp b/src/textures/texture_height.cpp
index 74113b0..d178ca7 100644
--- a/src/textures/texture_height.cpp
+++ b/src/textures/texture_height.cpp
@@ -66,8 +66,12 @@ TextureHeight::bump(const HitPoint* hp, ShadingSpace* matrix,
     float u, v;
     gradient(hp, &u, &v);
 
-    Vec3 dpdu = hp->dpdu+(Vec3)(hp->normal_h*(u-dot(hp->normal_h, hp->dpdu)));
-    Vec3 dpdv = hp->dpdv+(Vec3)(hp->normal_h*(v-dot(hp->normal_h, hp->dpdv)));
+    Vec3 dpdu = hp->dpdu;
+    Vec3 dpdv = hp->dpdv;
+    dpdu.normalize();
+    dpdv.normalize();
+    dpdu += (Vec3)(hp->normal_h*(u-dot(hp->normal_h, dpdu)));
+    dpdv += (Vec3)(hp->normal_h*(v-dot(hp->normal_h, dpdv)));
     matrix->n = (Normal)cross(dpdu, dpdv).normalize();
     matrix->s = (dpdu-(Vec3)(matrix->n)*dot(dpdu, matrix->n)).normalize();
     matrix->t = cross(Vec3(matrix->n), matrix->s).normalize();
diff --git a/src/textures/texture_normal.cpp b/src/textures/texture_normal.cpp
index 0a85d36..6273fb7 100644
--- a/src/textures/texture_normal.cpp
+++ b/src/textures/texture_normal.cpp
@@ -31,6 +31,7 @@ TextureNormal::bump(const HitPoint* hp, ShadingSpace* matrix,
 
     ShadingSpace old;
     old.s = hp->dpdu;
+    old.s.normalize();
     old.n = (Normal)cross(hp->dpdu, hp->dpdv).normalize();
     old.t = cross(old.s, (Vec3)old.n).normalize();
 
-- 
2.43.0


From fdc0f25b8fde07645d17ecc1b33f72f3eaec68ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:57 +0000
Subject: [PATCH 11/86] fix: AABB::intersect missed boxes for rays with a
 negative zero direction component

---
 src/geometry/AABB.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/geometry/AABB.cpp b/src/geometry/AABB.cpp
index 8eddea5..1b9b070 100644
--- a/src/geometry/AABB.cpp
+++ b/src/geometry/AABB.cpp
@@ -100,7 +100,7 @@ bool AABB::intersect(const Ray* r, float* p1, float* p2) const
     float invx = 1.f/r->direction.x;
     float invy = 1.f/r->direction.y;
     float invz = 1.f/r->direction.z;
-    if(r->direction.x>=0)
+    if(invx>=0)
     {
         minxt = (bounds[0].x-r->origin.x)*invx;
         maxxt = (bounds[1].x-r->origin.x)*invx;
@@ -110,7 +110,7 @@ bool AABB::intersect(const Ray* r, float* p1, float* p2) const
         minxt = (bounds[1].x-r->origin.x)*invx;
         maxxt = (bounds[0].x-r->origin.x)*invx;
     }
-    if(r->direction.y>=0)
+    if(invy>=0)
     {
         minyt = (bounds[0].y-r->origin.y)*invy;
         maxyt = (bounds[1].y-r->origin.y)*invy;
@@ -128,7 +128,7 @@ bool AABB::intersect(const Ray* r, float* p1, float* p2) const
     if(maxyt<maxxt)
         maxxt = maxyt;
 
-    if(r->direction.z>=0)
+    if(invz>=0)
     {
         minzt = (bounds[0].z-r->origin.z)*invz;
         maxzt = (bounds[1].z-r->origin.z)*invz;
-- 
2.43.0


From 336c88b45b52c72e76d1e76bf47adf066f000582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:35 +0000
Subject: [PATCH 12/86] fix: rays passing well outside a large sphere were
 reported as hitting it

---
 src/utility/utility.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utility/utility.hpp b/src/utility/utility.hpp
index 9f33cc0..430a5e7 100644
--- a/src/utility/utility.hpp
+++ b/src/utility/utility.hpp
@@ -290,8 +290,8 @@ inline bool equation2(const float a, const float b, const float c,
                       float* sol1, float* sol2)
 {
     float delta = b*b-4.0f*a*c;
-    if(delta<=0 && delta+1e-4f>=0) //tanget but with float error
-    {                            //happens in area lights
+    if(delta<=0 && delta+1e-6f*b*b>=0) //tanget but with float error
+    {                                //happens in area lights
         *sol1 = -b/(a*2);
         *sol2 = *sol1;
         return true;
-- 
2.43.0


From c6f9912ab14e45f7df9ad50b2e84ad781170c770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:16 +0000
Subject: [PATCH 13/86] fix: meshes with several materials showed them on the
 wrong faces

---
 src/accelerators/bvh.cpp | 6 +++++-
 src/accelerators/bvh.hpp | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/accelerators/bvh.cpp b/src/accelerators/bvh.cpp
index b0c61dd..02f1412 100644
--- a/src/accelerators/bvh.cpp
+++ b/src/accelerators/bvh.cpp
@@ -369,6 +369,9 @@ void Bvh::buildTree(Triangle* tris, int len)
         tris[i].b = tmp[prims[i].index].b;
         tris[i].c = tmp[prims[i].index].c;
     }
+    original_index.resize(len);
+    for(int i = 0; i<len; i++)
+        original_index[i] = (uint32_t)prims[i].index;
     free(tmp);
     free(prims);
 }
@@ -428,7 +431,8 @@ bool Bvh::intersect(const Ray* r, float* distance, HitPoint* h,
                     unsigned int tmp_index = node->offset+i;
                     if(Bvh::tris[tmp_index].intersect(r, distance, h, mask))
                     {
-                        h->index = tmp_index;
+                        h->index = original_index.empty()?
+                                   tmp_index:original_index[tmp_index];
                         found = true;
                     }
                 }
diff --git a/src/accelerators/bvh.hpp b/src/accelerators/bvh.hpp
index 9c092f1..d9db61d 100644
--- a/src/accelerators/bvh.hpp
+++ b/src/accelerators/bvh.hpp
@@ -114,6 +114,9 @@ private:
 
     //A pointer to the array of triangles around which the bvh is built
     Triangle* tris;
+
+    //Position every triangle had before the construction reordered them
+    std::vector<uint32_t> original_index;
 };
 
 #endif
-- 
2.43.0


From ffad7d17f41c55efdf5ae12392146ab786b7bf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:32 +0000
Subject: [PATCH 14/86] fix: intersecting a mesh could overflow the traversal
 stack

---
 src/accelerators/bvh.cpp | 27 +++++++++++++++++++--------
 src/accelerators/bvh.hpp |  6 +++++-
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/accelerators/bvh.cpp b/src/accelerators/bvh.cpp
index 02f1412..25c4ca8 100644
--- a/src/accelerators/bvh.cpp
+++ b/src/accelerators/bvh.cpp
@@ -355,7 +355,7 @@ void Bvh::buildTree(Triangle* tris, int len)
     }
     uint32_t index = 0;
 
-    flatten(clusters.at(0), &index);
+    height = flatten(clusters.at(0), &index);
 
     //reorder the Triangle* array
     //this is actually horrible but I don't want to deallocate array under
@@ -376,8 +376,9 @@ void Bvh::buildTree(Triangle* tris, int len)
     free(prims);
 }
 
-void Bvh::flatten(void* n, uint32_t* index)
+unsigned int Bvh::flatten(void* n, uint32_t* index)
 {
+    unsigned int subtree_height = 0;
     BvhBuildNode* node = (BvhBuildNode*)n;
     if(node->left == NULL) //leaf
     {
@@ -393,20 +394,22 @@ void Bvh::flatten(void* n, uint32_t* index)
         uint32_t myindex = (*index)++;
 
         //left node is right after the parent, right node is somewhere else
-        flatten(node->left, index);
+        unsigned int left_height = flatten(node->left, index);
 
         //I processed all the left nodes, so now I know the right node position
         nodesList[myindex].bounding = node->bounding;
         nodesList[myindex].sibling = *index;
         nodesList[myindex].len = 0;
         nodesList[myindex].axis = (uint8_t)(node->split);
-        flatten(node->right, index);
+        unsigned int right_height = flatten(node->right, index);
+        subtree_height = 1+std::max(left_height, right_height);
     }
     delete (node);
+    return subtree_height;
 }
 
-///Max depth of the Bvh tree
-#define BVH_MAX_DEPTH 32
+///Nodes waiting to be visited that do not require an allocation
+#define BVH_SMALL_STACK 32
 
 bool Bvh::intersect(const Ray* r, float* distance, HitPoint* h,
                     const MaskBoolean* mask) const
@@ -416,8 +419,16 @@ bool Bvh::intersect(const Ray* r, float* distance, HitPoint* h,
     float dmax;
     bool found = false;
 
-    BvhNode* jobs[BVH_MAX_DEPTH];
-    unsigned char jobs_stack_top = 0;
+    //each level of the tree leaves at most one node waiting
+    BvhNode* small_stack[BVH_SMALL_STACK];
+    std::vector<BvhNode*> large_stack;
+    BvhNode** jobs = small_stack;
+    if(height>BVH_SMALL_STACK)
+    {
+        large_stack.resize(height);
+        jobs = large_stack.data();
+    }
+    unsigned int jobs_stack_top = 0;
     BvhNode* node = Bvh::nodesList;
     while(node != NULL)
     {
diff --git a/src/accelerators/bvh.hpp b/src/accelerators/bvh.hpp
index d9db61d..c5d811b 100644
--- a/src/accelerators/bvh.hpp
+++ b/src/accelerators/bvh.hpp
@@ -107,7 +107,8 @@ public:
 private:
 
     //transform the temp build structure in the flattened one
-    void flatten(void*, uint32_t*);
+    //returns the height of the flattened subtree
+    unsigned int flatten(void*, uint32_t*);
 
     //The flattened tree
     BvhNode* nodesList;
@@ -115,6 +116,9 @@ private:
     //A pointer to the array of triangles around which the bvh is built
     Triangle* tris;
 
+    //The height of the tree, 0 if it is a single leaf
+    unsigned int height = 0;
+
     //Position every triangle had before the construction reordered them
     std::vector<uint32_t> original_index;
 };
-- 
2.43.0


From 312996033aad13c973707aafa3336f0835dd9d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:28 +0000
Subject: [PATCH 15/86] fix: flat instances could vanish from the scene when
 their two sides were sorted in the wrong order

---
 src/accelerators/kdtree.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/accelerators/kdtree.cpp b/src/accelerators/kdtree.cpp
index 968e24b..799418b 100644
--- a/src/accelerators/kdtree.cpp
+++ b/src/accelerators/kdtree.cpp
@@ -110,6 +110,10 @@ namespace KdHelpers
     //used to sort the splicandidate in the kdtree build
     bool compare_sc(const SplitCandidate s1, const SplitCandidate s2)
     {
+        //left sides first, otherwise a flat asset could find its right side
+        //before its left one and be assigned to none of the children
+        if(s1.pos == s2.pos)
+            return s1.isLeftSide && !s2.isLeftSide;
         return s1.pos<s2.pos;
     }
 
-- 
2.43.0


From 4939d7c20fb93dd79d16a1528c407f83d2243993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:12 +0000
Subject: [PATCH 16/86] fix: heap overflow while building scenes whose
 instances overlap

---
 src/accelerators/kdtree.cpp | 14 +++++++++++---
 src/accelerators/kdtree.hpp |  4 ++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/accelerators/kdtree.cpp b/src/accelerators/kdtree.cpp
index 799418b..fd52f08 100644
--- a/src/accelerators/kdtree.cpp
+++ b/src/accelerators/kdtree.cpp
@@ -155,10 +155,18 @@ KdTree::~KdTree()
 void KdTree::addAsset(const Asset* addme)
 {
     if(assets_number == _MAX_ASSETS_)
+    {
         Console.severe(MESSAGE_MAXASSETNUMBER);
+        return;
+    }
+    add_reference(addme);
+}
+
+void KdTree::add_reference(const Asset* addme)
+{
     if(assets_number == assets_allocated)
     {
-        int allocNo = min(assets_allocated << 1, _MAX_ASSETS_);
+        int allocNo = assets_allocated << 1;
         const Asset** tmp = (const Asset**)malloc(sizeof(Asset*)*(allocNo));
         if(tmp)
         {
@@ -276,7 +284,7 @@ void KdTree::build(void* n, char depth, void* s_c, Asset** a_l,
         //now i can reference them with a pointer to the first and the number
         //of assets for the leaf
         for(unsigned int i = 0; i<a_n; i++)
-            KdTree::addAsset(a_l[i]);
+            KdTree::add_reference(a_l[i]);
         node->isLeaf = true;
         node->left = NULL;
         node->right = NULL;
@@ -371,7 +379,7 @@ void KdTree::build(void* n, char depth, void* s_c, Asset** a_l,
         node->offset_start = KdTree::assets_number;
         node->assets_number = a_n;
         for(unsigned int i = 0; i<a_n; i++)
-            KdTree::addAsset(a_l[i]);
+            KdTree::add_reference(a_l[i]);
         node->isLeaf = true;
         node->left = NULL;
         node->right = NULL;
diff --git a/src/accelerators/kdtree.hpp b/src/accelerators/kdtree.hpp
index 00831f8..24ebf9c 100644
--- a/src/accelerators/kdtree.hpp
+++ b/src/accelerators/kdtree.hpp
@@ -231,6 +231,10 @@ private:
     void build(void* node, char depth, void* split_candidates,
                Asset** assets_list, unsigned int assets_number, AABB area);
 
+    //append to the assetsList. During the build the same asset can be
+    //referenced by several leaves, so this is not bound by _MAX_ASSETS_
+    void add_reference(const Asset* addme);
+
     //flatten out the tree into an array
     void finalize(void* node);
 
-- 
2.43.0


From 972cebab1c118d6da4d30afc1d57ce421efd553d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:18 +0000
Subject: [PATCH 17/86] fix: rays lying on a split plane skipped part of the
 scene

---
 src/accelerators/kdtree.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/accelerators/kdtree.cpp b/src/accelerators/kdtree.cpp
index fd52f08..4fb2a05 100644
--- a/src/accelerators/kdtree.cpp
+++ b/src/accelerators/kdtree.cpp
@@ -2,6 +2,7 @@
 //license: GNU GPLv3
 
 #include "kdtree.hpp"
+#include <cmath> //isnan
 
 #define KDNODE_ALLOC 1 //AT LEAST 1!!! otherwise when doubling the array size
 //0 * 2 = guess what :^)
@@ -471,8 +472,16 @@ bool KdTree::intersect(const Ray* r, HitPoint* h) const
                 right = n+1;
             }
 
+            //the ray lies on the split plane, both nodes span the same interval
+            if(std::isnan(planet))
+            {
+                jobs[jobs_stack_top].node = right;
+                jobs[jobs_stack_top].mint = mint;
+                jobs[jobs_stack_top++].maxt = maxt;
+                n = left;
+            }
             //special cases, only 1 node needs to be processed
-            if(planet>maxt || planet<=0)
+            else if(planet>maxt || planet<=0)
                 n = left;
             else if(planet<mint)
                 n = right;
-- 
2.43.0


From cbe22e3617f62f17139bc6230b224d7113e78448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:21 +0000
Subject: [PATCH 18/86] fix: tangent tolerance of the quadratic solver grew
 with the distance

---
 src/utility/utility.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utility/utility.hpp b/src/utility/utility.hpp
index 430a5e7..fcae0b7 100644
--- a/src/utility/utility.hpp
+++ b/src/utility/utility.hpp
@@ -290,8 +290,9 @@ inline bool equation2(const float a, const float b, const float c,
                       float* sol1, float* sol2)
 {
     float delta = b*b-4.0f*a*c;
-    if(delta<=0 && delta+1e-6f*b*b>=0) //tanget but with float error
-    {                                //happens in area lights
+    const float error = 1e-6f*b*b<1e-4f?1e-6f*b*b:1e-4f;
+    if(delta<=0 && delta+error>=0) //tanget but with float error
+    {                              //happens in area lights
         *sol1 = -b/(a*2);
         *sol2 = *sol1;
         return true;
-- 
2.43.0


From 45652a797ffdc7e24cab4ee154d414f0f3928baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 19/86] fix: textures did not repeat towards negative
 coordinates

---
 src/textures/texture_image.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/textures/texture_image.cpp b/src/textures/texture_image.cpp
index e3b03b5..b333e45 100644
--- a/src/textures/texture_image.cpp
+++ b/src/textures/texture_image.cpp
@@ -62,10 +62,10 @@ TexelUnion TextureImage::map_value(const HitPoint* hit) const
     float v = hit->uv.y*scale.y+shift.y;
 
     //apply repeating if uv are outside 0-1 range
-    if(u>1.f)
-        u = u-(int)u;
-    if(v>1.f)
-        v = v-(int)v;
+    if(u<0.f || u>1.f)
+        u = u-floorf(u);
+    if(v<0.f || v>1.f)
+        v = v-floorf(v);
 
     TexelUnion res;
     if(unfiltered)
-- 
2.43.0


From dabb6d066ed01f19c1b0da084fb468e049a6d594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 20/86] fix: unfiltered textures were shifted by half a texel

---
 src/textures/image_map.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/textures/image_map.cpp b/src/textures/image_map.cpp
index 1c41184..18dbe74 100644
--- a/src/textures/image_map.cpp
+++ b/src/textures/image_map.cpp
@@ -106,8 +106,8 @@ ImageMap::~ImageMap()
 TexelUnion ImageMapUnfiltered::filter(float u, float v, float, float,
                                       float, float) const
 {
-    uint16_t x = (uint16_t)(u*side[0]-0.5f);
-    uint16_t y = (uint16_t)(v*side[0]-0.5f);
+    uint16_t x = (uint16_t)max((int)ceilf(u*side[0])-1, 0);
+    uint16_t y = (uint16_t)max((int)ceilf(v*side[0])-1, 0);
     return MIPmap[0]->get(x, y);
 }
 
-- 
2.43.0


From 791df4c31f5e9050e3ef99f79324edca71a8c06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 21/86] fix: footprints as large as the texture read past the
 last mipmap level

---
 src/textures/image_map.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/textures/image_map.cpp b/src/textures/image_map.cpp
index 18dbe74..d4f1aff 100644
--- a/src/textures/image_map.cpp
+++ b/src/textures/image_map.cpp
@@ -124,7 +124,7 @@ TexelUnion ImageMapTrilinear::filter(float u, float v, float dudx, float dvdx,
     TexelUnion p0; //retval
     if(chosen<=0.f) //use full size map
         p0 = bilinear(u, v, 0);
-    else if(chosen>maps_no-1) //return the single, most distant pixel
+    else if(chosen>=maps_no-1) //return the single, most distant pixel
         p0 = MIPmap[maps_no-1]->get(0, 0);
     else //perform trilinear interpolation
     {
@@ -179,7 +179,7 @@ TexelUnion ImageMapEWA::filter(float u, float v, float dudx, float dvdx,
     // shorter axis 0 previously catched in an if
     float chosen = max(0.f, maps_no-1+log2f(shorter_axis));
     TexelUnion p0; //retval
-    if(chosen>maps_no-1) //return the single, most distant pixel
+    if(chosen>=maps_no-1) //return the single, most distant pixel
         p0 = MIPmap[maps_no-1]->get(0, 0);
     else
     {
-- 
2.43.0


From 307a0a9299d5761fe454773c3e95433144325bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 22/86] fix: bilinear filtering mirrored the texture in its
 first half texel instead of repeating it

---
 src/textures/image_map.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/textures/image_map.cpp b/src/textures/image_map.cpp
index d4f1aff..501b2d1 100644
--- a/src/textures/image_map.cpp
+++ b/src/textures/image_map.cpp
@@ -208,15 +208,17 @@ TexelUnion ImageMap::bilinear(float u, float v, uint8_t level) const
 {
     u = u*side[level]-0.5f;
     v = v*side[level]-0.5f;
-    int x = (int)u;
-    int y = (int)v;
-    float decimal_u = fabsf(u-x); //to avoid corner case where this can be -0.5f
-    float decimal_v = fabsf(v-y);
+    int x = (int)floorf(u);
+    int y = (int)floorf(v);
+    float decimal_u = u-x;
+    float decimal_v = v-y;
     float int_u = 1.f-decimal_u;
     float int_v = 1.f-decimal_v;
     //wraps texture if filtering happens outside bounds (val+1) = out of texture
     int next_x = (x+1)<=side[level]-1?(x+1):0;
     int next_y = (y+1)<=side[level]-1?(y+1):0;
+    x = x<0?side[level]-1:x;
+    y = y<0?side[level]-1:y;
     const Texel T0 = MIPmap[level]->get(x, y).bgra_texel;
     const Texel T1 = MIPmap[level]->get(next_x, y).bgra_texel;
     const Texel T2 = MIPmap[level]->get(x, next_y).bgra_texel;
-- 
2.43.0


From 66e9a5814c9d85f03f197c49b7cae1e279d1f3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 23/86] fix: EWA filter multiplied two terms of the ellipse
 instead of adding them

---
 src/textures/image_map.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/textures/image_map.cpp b/src/textures/image_map.cpp
index 501b2d1..16f2036 100644
--- a/src/textures/image_map.cpp
+++ b/src/textures/image_map.cpp
@@ -249,7 +249,7 @@ ImageMapEWA::ewa(float u, float v, float dudx, float dvdx, float dudy,
     dvdy *= side[level];
 
     //calulate ellipse coefficients
-    float a = dvdx*dvdx*+dvdy*dvdy+1.f;
+    float a = dvdx*dvdx+dvdy*dvdy+1.f;
     float b = -2.f*(dudx*dvdx+dudy*dvdy);
     float c = dudx*dudx+dudy*dudy+1.f;
     const float invf = 1.f/(a*c-b*b*.25f);
-- 
2.43.0


From 01cc37c72efd1193e1690200f76923e999d42ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 24/86] fix: EWA filter ignored or misplaced texels across the
 texture border

---
 src/textures/image_map.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/textures/image_map.cpp b/src/textures/image_map.cpp
index 16f2036..4f23e9d 100644
--- a/src/textures/image_map.cpp
+++ b/src/textures/image_map.cpp
@@ -276,13 +276,15 @@ ImageMapEWA::ewa(float u, float v, float dudx, float dvdx, float dudy,
     for(int y = v0; y<=v1; y++)
     {
         //wraps texture if ellipse is outside bounds
-        int newy = y<0?side[level]+y:y>side[level]-1?y%side[level]:y;
-        const float voff = newy-v;
+        int newy = y%side[level];
+        newy = newy<0?newy+side[level]:newy;
+        const float voff = y-v;
         for(int x = u0; x<=u1; x++)
         {
             //wraps texture if ellipse is outside bounds
-            int newx = x<0?side[level]+x:x>side[level]-1?x%side[level]:x;
-            const float uoff = newx-u;
+            int newx = x%side[level];
+            newx = newx<0?newx+side[level]:newx;
+            const float uoff = x-u;
             const float radius2 = a*uoff*uoff+b*voff*uoff+c*voff*voff;
             if(radius2<1.f)
             {
-- 
2.43.0


From a10b4f614543fa51eed4a9f649bc3b29fdcf5358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:22 +0000
Subject: [PATCH 25/86] fix: textures were built from uninitialised memory when
 the image could not be decoded

---
 src/textures/texture_image.cpp | 43 +++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/textures/texture_image.cpp b/src/textures/texture_image.cpp
index b333e45..0511c19 100644
--- a/src/textures/texture_image.cpp
+++ b/src/textures/texture_image.cpp
@@ -12,28 +12,39 @@ TextureImage::TextureImage(const File& src, Vec2& shift, Vec2& scale,
     {
         if(src.readable())
         {
-            int width;
-            int height;
+            int width = 0;
+            int height = 0;
             img_dimensions(src.absolute_path(), src.extension(),
                            &width, &height);
-            if(width == height && (height & (height-1)) == 0) //power of 2
+            if(width>0 && width == height &&
+               (height & (height-1)) == 0) //power of 2
             {
-                uint32_t* bgra_data = (uint32_t*)malloc(width*height*sizeof
-                        (uint32_t));
-                img_read8(src.absolute_path(), src.extension(), bgra_data);
-                switch(filter)
+                uint32_t* bgra_data = (uint32_t*)malloc((size_t)width*height*
+                                                        sizeof(uint32_t));
+                if(bgra_data != NULL &&
+                   img_read8(src.absolute_path(), src.extension(), bgra_data))
                 {
-                    case UNFILTERED:
-                        imagemap = new ImageMapUnfiltered(bgra_data, width);
-                        break;
-                    case TRILINEAR:
-                        imagemap = new ImageMapTrilinear(bgra_data, width);
-                        break;
-                    case EWA:imagemap = new ImageMapEWA(bgra_data, width);
-                        break;
+                    switch(filter)
+                    {
+                        case UNFILTERED:
+                            imagemap = new ImageMapUnfiltered(bgra_data, width);
+                            break;
+                        case TRILINEAR:
+                            imagemap = new ImageMapTrilinear(bgra_data, width);
+                            break;
+                        case EWA:
+                            imagemap = new ImageMapEWA(bgra_data, width);
+                            break;
+                    }
+                    TexLib.inherit_map(src.absolute_path(), imagemap);
+                }
+                else
+                {
+                    Console.warning(MESSAGE_TEXTURE_ERROR,
+                                    src.absolute_path());
+                    imagemap = TexLib.get_dflt_map();
                 }
                 free(bgra_data);
-                TexLib.inherit_map(src.absolute_path(), imagemap);
             }
             else
             {
-- 
2.43.0


From 996ac38bfe0c56e6282298cb8b46d8c101fc1819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:20 +0000
Subject: [PATCH 26/86] fix: footprints of textures scaled differently in u and
 v mixed up the two scales

---
 src/textures/texture_image.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/textures/texture_image.cpp b/src/textures/texture_image.cpp
index 0511c19..308baa9 100644
--- a/src/textures/texture_image.cpp
+++ b/src/textures/texture_image.cpp
@@ -89,8 +89,8 @@ TexelUnion TextureImage::map_value(const HitPoint* hit) const
         {
             //scale dudx dvdx dudy dvdy
             float dudx = hit->du.x*scale.x;
-            float dudy = hit->du.y*scale.y;
-            float dvdx = hit->dv.x*scale.x;
+            float dudy = hit->du.y*scale.x;
+            float dvdx = hit->dv.x*scale.y;
             float dvdy = hit->dv.y*scale.y;
             res = imagemap->filter(u, v, dudx, dvdx, dudy, dvdy);
         }
-- 
2.43.0


From 3c24f14b6eb2d612ff18982c2c5c5ff13479334b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:21 +0000
Subject: [PATCH 27/86] fix: opacity masks were filtered with an uninitialised
 or outdated texture footprint

---
 src/primitives/hit_point.hpp | 2 +-
 src/renderer.cpp             | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primitives/hit_point.hpp b/src/primitives/hit_point.hpp
index 1f97c3a..0971e55 100644
--- a/src/primitives/hit_point.hpp
+++ b/src/primitives/hit_point.hpp
@@ -54,7 +54,7 @@ struct HitPoint
     Vec2 dv;
 
     //true if the values du and dv are set
-    bool differentials;
+    bool differentials = false;
 };
 
 void calculate_differentials(HitPoint* hp, Ray* rx, Ray* ry);
diff --git a/src/renderer.cpp b/src/renderer.cpp
index b683157..0171a4f 100644
--- a/src/renderer.cpp
+++ b/src/renderer.cpp
@@ -225,6 +225,7 @@ void executor(Camera* camera, ImageFilm* film, std::mutex* lock, int spp,
             for(int i = 0; i<spp; i++)
             {
                 camera->create_ray(&(samples[i]), &r, &rx, &ry);
+                h.differentials = false; //of the previous sample
                 if(scene->k.intersect(&r, &h))
                 {
                     calculate_differentials(&h, &rx, &ry);
-- 
2.43.0


From b6d4b98fc28fcc4721151ff2eb2738052fb8e6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:54 +0000
Subject: [PATCH 28/86] fix: total internal reflection lost light

---
 src/materials/reflection.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/materials/reflection.cpp b/src/materials/reflection.cpp
index af453d4..d4c2147 100644
--- a/src/materials/reflection.cpp
+++ b/src/materials/reflection.cpp
@@ -100,8 +100,7 @@ Spectrum DielectricReflection::sample_value(const Vec3* wo, Vec3* wi,
         float rperp = (etaicosi-etatcost)/(etaicosi+etatcost);
         float rpar = (etatcosi-etaicost)/(etatcosi+etaicost);
         eval = (rpar*rpar+rperp*rperp)/2.f;
-        eval /= fabsf(wo->z);
     }
-    return eval;
+    return eval/fabsf(wo->z);
 }
 
-- 
2.43.0


From ab0bba30671067640a9bf3333c8dfc0c04825fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:57 +0000
Subject: [PATCH 29/86] fix: Oren-Nayar lost the sign of the azimuth sines

---
 src/materials/oren_nayar.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/materials/oren_nayar.cpp b/src/materials/oren_nayar.cpp
index 2e2d22c..bf70c5a 100644
--- a/src/materials/oren_nayar.cpp
+++ b/src/materials/oren_nayar.cpp
@@ -37,8 +37,8 @@ Spectrum OrenNayar::value(const Vec3* wout, const Vec3* wincident) const
         float cosphiin, cosphiout, sinphiin, sinphiout;
         cosphiin = clamp(wincident->x/sinthetain, -1.f, 1.f);
         cosphiout = clamp(wout->x/sinthetaout, -1.f, 1.f);
-        sinphiin = max(0.f, sqrtf(1.f-cosphiin*cosphiin));
-        sinphiout = max(0.f, sqrtf(1.f-cosphiout*cosphiout));
+        sinphiin = clamp(wincident->y/sinthetain, -1.f, 1.f);
+        sinphiout = clamp(wout->y/sinthetaout, -1.f, 1.f);
         maxcos = max(0.0f, cosphiin*cosphiout+sinphiin*sinphiout);
     }
     else
-- 
2.43.0


From 3771ca52c85dff8170bcf43f84ee12ed315d16ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:13 +0000
Subject: [PATCH 30/86] fix: transmission sampled from inside rough Blinn glass
 had zero density

---
 src/materials/microfacet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/materials/microfacet.cpp b/src/materials/microfacet.cpp
index 37bcb78..13a0978 100644
--- a/src/materials/microfacet.cpp
+++ b/src/materials/microfacet.cpp
@@ -179,6 +179,8 @@ float MicrofacetT::pdf(const Vec3* woS, const Vec3* wiS) const
     if(wh.x == 0 && wh.y == 0 && wh.z == 0)
         return 0.f;
     wh.normalize();
+    if(dot(*woS, wh)<0) //the facet is always the one seen from wo
+        wh = -wh;
     const float dotwoh = dot(*woS, wh);
     float jacobian = etao*etao*fabsf(dotwoh);
     const float jacobian_denom = (etai*dot(*wiS, wh)+etao*dotwoh);
-- 
2.43.0


From 29580d1698309ca6e96b76d0dbbc9fabcc82515e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:27 +0000
Subject: [PATCH 31/86] fix: rough transmission drew directions on the side the
 light comes from

---
 src/materials/microfacet.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/materials/microfacet.cpp b/src/materials/microfacet.cpp
index 13a0978..f65d1a2 100644
--- a/src/materials/microfacet.cpp
+++ b/src/materials/microfacet.cpp
@@ -145,7 +145,8 @@ Spectrum MicrofacetT::sample_value(const Vec3* woS, Vec3* wiS, float r0,
         etai = eta_i;
     }
     *wiS = refract(*woS, wh, etao/etai);
-    if(wiS->x == 0 && wiS->y == 0 && wiS->z == 0) //Total internal reflection
+    //Total internal reflection or refracted to the side it comes from
+    if((wiS->x == 0 && wiS->y == 0 && wiS->z == 0) || wiS->z*woS->z>=0)
     {
         *pdf = 0;
         return SPECTRUM_BLACK;
-- 
2.43.0


From e8f4d5584ca45d0205f2637e87f0a443f979f808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:26 +0000
Subject: [PATCH 32/86] fix: sampling a MultiBSDF weighs every Bdf with its own
 texture

---
 src/materials/multi_bsdf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/materials/multi_bsdf.cpp b/src/materials/multi_bsdf.cpp
index dd73f5d..190067c 100644
--- a/src/materials/multi_bsdf.cpp
+++ b/src/materials/multi_bsdf.cpp
@@ -121,7 +121,7 @@ Spectrum MultiBSDF::sample_value(float r0, float r1, float r2, const Vec3* woW,
             if(bdfs[i]->matches(flags))//add contribution only if matches
             {
                 retval += bdfs[i]->value(&wo_shading, &wi_shading)*
-                          diffuse[chosen]->map(h);
+                          diffuse[i]->map(h);
                 *pdf += bdfs[i]->pdf(&wo_shading, &wi_shading);
             }
         }
-- 
2.43.0


From bb9518133ac8638b92f110628bcca11bbea5fe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:48 +0000
Subject: [PATCH 33/86] fix: SingleBRDF does not draw directions across the
 surface

---
 src/materials/single_brdf.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/materials/single_brdf.cpp b/src/materials/single_brdf.cpp
index 60b20cd..7e14953 100644
--- a/src/materials/single_brdf.cpp
+++ b/src/materials/single_brdf.cpp
@@ -71,6 +71,12 @@ Spectrum SingleBRDF::sample_value(float, float r1, float r2, const Vec3* woW,
     retval = bdf->sample_value(&wo_shading, &wi_shading, r1, r2, pdf);
     wi_shading.normalize();
     *wiW = matrix->to_world(wi_shading);
+    //a tilted shading frame may send the ray through the surface
+    if(wiW->dot(h->normal_h)*woW->dot(h->normal_h)<=0)
+    {
+        *pdf = 0.f;
+        return SPECTRUM_BLACK;
+    }
     return retval*diffuse->map(h);
 }
 
-- 
2.43.0


From 2333c19751c53dfd713df7c4c299adcfc692b97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:35 +0000
Subject: [PATCH 34/86] fix: MultiBSDF does not draw specular directions on the
 wrong side

---
 src/materials/multi_bsdf.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/materials/multi_bsdf.cpp b/src/materials/multi_bsdf.cpp
index 190067c..14f74a9 100644
--- a/src/materials/multi_bsdf.cpp
+++ b/src/materials/multi_bsdf.cpp
@@ -129,6 +129,13 @@ Spectrum MultiBSDF::sample_value(float r0, float r1, float r2, const Vec3* woW,
     else
     {
         *matchedSpec = true;
+        //a tilted shading frame may send the ray to the wrong side
+        bool same = woW->dot(h->normal_h)*wiW->dot(h->normal_h)>0;
+        if(same?!matching[chosen]->is_BRDF():!matching[chosen]->is_BTDF())
+        {
+            *pdf = 0.f;
+            return SPECTRUM_BLACK;
+        }
         retval *= diffuse[chosen]->map(h);
     }
     if(matchcount>1)
-- 
2.43.0


From a533cc2d94853343d94e7751b533e8d02ce15ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:59 +0000
Subject: [PATCH 35/86] fix: the film updates the pixels on both sides of a
 sample

---
 src/cameras/image_film.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cameras/image_film.cpp b/src/cameras/image_film.cpp
index 821fb54..075dfe0 100644
--- a/src/cameras/image_film.cpp
+++ b/src/cameras/image_film.cpp
@@ -59,12 +59,12 @@ void ImageFilm::add_pixel(const Sample* sample, ColorXYZ color,
     int update_y1 = (int)floorf(centre_y+filter->range_y);
     update_x0 = max(update_x0, 0);
     update_y0 = max(update_y0, 0);
-    update_x1 = min(update_x1, width);
-    update_y1 = min(update_y1, height);
+    update_x1 = min(update_x1, width-1);
+    update_y1 = min(update_y1, height-1);
 
     //foreach affected pixel
-    for(int y = update_y0; y<update_y1; y++)
-        for(int x = update_x0; x<update_x1; x++)
+    for(int y = update_y0; y<=update_y1; y++)
+        for(int x = update_x0; x<=update_x1; x++)
         {
             float weight = filter->weight(x-centre_x, y-centre_y);
             if(x<secure_area->startx || x>secure_area->endx ||
-- 
2.43.0


From 68aabf5cb1fb6a2179f572bd4ec006f75190cb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:09 +0000
Subject: [PATCH 36/86] fix: pixels in reach of another area are always updated
 with the lock held

---
 src/cameras/image_film.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cameras/image_film.cpp b/src/cameras/image_film.cpp
index 075dfe0..5cfa2ef 100644
--- a/src/cameras/image_film.cpp
+++ b/src/cameras/image_film.cpp
@@ -62,13 +62,19 @@ void ImageFilm::add_pixel(const Sample* sample, ColorXYZ color,
     update_x1 = min(update_x1, width-1);
     update_y1 = min(update_y1, height-1);
 
+    //pixels that samples of the neighbouring areas may update as well
+    int border_x = (int)ceilf(filter->range_x);
+    int border_y = (int)ceilf(filter->range_y);
+
     //foreach affected pixel
     for(int y = update_y0; y<=update_y1; y++)
         for(int x = update_x0; x<=update_x1; x++)
         {
             float weight = filter->weight(x-centre_x, y-centre_y);
-            if(x<secure_area->startx || x>secure_area->endx ||
-               y<secure_area->starty || y>secure_area->endy)
+            if(x<secure_area->startx+border_x ||
+               x>=secure_area->endx-border_x ||
+               y<secure_area->starty+border_y ||
+               y>=secure_area->endy-border_y)
             {
                 //critical section, other threads could interfere. deferred add
                 TodoPixel pixel_toadd;
-- 
2.43.0


From 827da21d0e338c1c92fc45a5956b9e2dbd458aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:20 +0000
Subject: [PATCH 37/86] fix: tiles on the right end at the border of the image

---
 src/renderer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/renderer.cpp b/src/renderer.cpp
index 0171a4f..be781c1 100644
--- a/src/renderer.cpp
+++ b/src/renderer.cpp
@@ -106,7 +106,7 @@ int Renderer::render(Scene* s)
         for(int x = 0; x<width; x += SPLIT_SIZE)
         {
             task.startx = x;
-            task.endx = x+SPLIT_SIZE;
+            task.endx = x+SPLIT_SIZE<width?x+SPLIT_SIZE:width;
             jobs.push(task);
         }
     }
-- 
2.43.0


From 4eb1f570236db41418fe219cabfb90b459b29a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:58 +0000
Subject: [PATCH 38/86] fix: spectra are built from the linearised sRGB colour

---
 src/utility/spectrum.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utility/spectrum.cpp b/src/utility/spectrum.cpp
index f554031..625bc26 100644
--- a/src/utility/spectrum.cpp
+++ b/src/utility/spectrum.cpp
@@ -479,6 +479,10 @@ Spectrum::Spectrum(float val)
 Spectrum::Spectrum(ColorRGB c, bool l)
 {
 #ifdef SPECTRAL
+    //the spectra of the primaries are mixed by amount of light, not sRGB value
+    c.r = c.r>0.04045f?powf((c.r+0.055f)/1.055f, 2.4f):c.r/12.92f;
+    c.g = c.g>0.04045f?powf((c.g+0.055f)/1.055f, 2.4f):c.g/12.92f;
+    c.b = c.b>0.04045f?powf((c.b+0.055f)/1.055f, 2.4f):c.b/12.92f;
     memset(Spectrum::w,0,sizeof(float)*SPECTRUM_SAMPLES);
     if(!l)
     {
-- 
2.43.0


From 1157a797c737cab6e4dba66045620c66ec96cdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:01 +0000
Subject: [PATCH 39/86] fix: rows of bmp images are padded to multiples of 4
 bytes

---
 src/utility/imageio/bmp.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/utility/imageio/bmp.c b/src/utility/imageio/bmp.c
index 728896b..3d9e129 100644
--- a/src/utility/imageio/bmp.c
+++ b/src/utility/imageio/bmp.c
@@ -92,8 +92,9 @@ char bmp_write(const char* name, int width, int height, const uint32_t* data)
         uint8_t* row;
         create_bmp_header(width, height, &header, &dib);
         bpp = ENDIANNESS_LITTLE16(dib.bpp) >> 3;
-        padding = (width*bpp)%4;
-        row = (uint8_t*)malloc(sizeof(uint8_t)*(bpp*width+padding));
+        /* rows are padded up to the next multiple of 4 bytes */
+        padding = (4-(width*bpp)%4)%4;
+        row = (uint8_t*)calloc(bpp*width+padding, sizeof(uint8_t));
         fwrite(&header, sizeof(struct bmp_header), 1, fout);
         fwrite(&dib, sizeof(struct bmp_dib_v3), 1, fout);
         for(y = 0; y<height; y++)
@@ -136,7 +137,7 @@ char bmp_read(const char* name, uint32_t* values)
             const int WIDTH = ENDIANNESS_LITTLE32(dib.width);
             const int BPP = ENDIANNESS_LITTLE16(dib.bpp) >> 3;
             const char HAS_ALPHA = BPP == 4;
-            const char PADDING = (WIDTH*BPP)%4;
+            const char PADDING = (4-(WIDTH*BPP)%4)%4;
             int y;
             int ymax;
             int x;
-- 
2.43.0


From e12dcce07827308b30206156b15e1ced8eb5900b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:21 +0000
Subject: [PATCH 40/86] fix: endianness macros keep the least significant byte

---
 src/utility/imageio/endianness.h | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/utility/imageio/endianness.h b/src/utility/imageio/endianness.h
index 952d8e0..1f9cfeb 100644
--- a/src/utility/imageio/endianness.h
+++ b/src/utility/imageio/endianness.h
@@ -11,19 +11,21 @@
 !defined(IS_BIG_ENDIAN)
 #define ENDIANNESS_LITTLE16(value) value
 #define ENDIANNESS_LITTLE32(value) value
-#define ENDIANNESS_BIG16(value) ((value & 0xFF) >> 8) | (value << 8)
-#define ENDIANNESS_BIG32(value) ((value & 0xFF000000) >> 24) | \
-                                       ((value & 0x00FF0000) >> 8) | \
-                                       ((value & 0x0000FF00) << 8) | \
-                                        (value << 24)
+#define ENDIANNESS_BIG16(value) ((((value) & 0xFF00) >> 8) | \
+                                       (((value) & 0x00FF) << 8))
+#define ENDIANNESS_BIG32(value) ((((value) & 0xFF000000) >> 24) | \
+                                       (((value) & 0x00FF0000) >> 8) | \
+                                       (((value) & 0x0000FF00) << 8) | \
+                                       (((value) & 0x000000FF) << 24))
 #elif __BYTE_ORDER__ == __ORDER_BIG_ENDIAN__
 #define ENDIANNESS_BIG16(value) value
 #define ENDIANNESS_BIG32(value) value
-#define ENDIANNESS_LITTLE16(value) ((value & 0xFF) >> 8) | (value << 8)
-#define ENDIANNESS_LITTLE32(value) ((value & 0xFF000000) >> 24) | \
-                                       ((value & 0x00FF0000) >> 8) | \
-                                       ((value & 0x0000FF00) << 8) | \
-                                        (value << 24)
+#define ENDIANNESS_LITTLE16(value) ((((value) & 0xFF00) >> 8) | \
+                                       (((value) & 0x00FF) << 8))
+#define ENDIANNESS_LITTLE32(value) ((((value) & 0xFF000000) >> 24) | \
+                                       (((value) & 0x00FF0000) >> 8) | \
+                                       (((value) & 0x0000FF00) << 8) | \
+                                       (((value) & 0x000000FF) << 24))
 #else
 #error "Endianness not supported"
 #endif
-- 
2.43.0


From 793f865084929727a9a4ca4d207c053aacf9379f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:20 +0000
Subject: [PATCH 41/86] fix: tga packets without repetition store one pixel per
 repetition

---
 src/utility/imageio/tga.c | 181 ++++++++++----------------------------
 1 file changed, 45 insertions(+), 136 deletions(-)

diff --git a/src/utility/imageio/tga.c b/src/utility/imageio/tga.c
index 182962c..5a21b32 100644
--- a/src/utility/imageio/tga.c
+++ b/src/utility/imageio/tga.c
@@ -110,6 +110,29 @@ char tga_write(const char* name, int width, int height, const uint32_t* data)
     return retval;
 }
 
+/* convert the bytes of a pixel, 2, 3 or 4 as indicated by bpp */
+static uint32_t tga_pixel(const uint8_t* pixel, uint8_t bpp)
+{
+    uint32_t value = 0x000000FF;
+    if(bpp == 2)
+    {
+        /* the shift is a multiplication by 8 */
+        /* used to map a value from 0-31 to 0-255 */
+        value |= ((pixel[1] & 0x7C) << 1) << 8;
+        value |= ((pixel[1] & 0x03) << 6 | (pixel[0] & 0xE0) >> 2) << 16;
+        value |= (uint32_t)((pixel[0] & 0x1F) << 3) << 24;
+    }
+    else
+    {
+        if(bpp == 4)
+            value = pixel[3]; /* Alpha */
+        value |= pixel[2] << 8;  /* Red   */
+        value |= pixel[1] << 16; /* Green */
+        value |= (uint32_t)pixel[0] << 24; /* Blue  */
+    }
+    return value;
+}
+
 char tga_read(const char* name, uint32_t* values)
 {
     char retval = 0;
@@ -128,151 +151,37 @@ char tga_read(const char* name, uint32_t* values)
         const char COMPRESSED = header.datatype_code == TGA_RGB_RLE;
         const int WIDTH = ENDIANNESS_LITTLE16(header.width);
         const int HEIGHT = ENDIANNESS_LITTLE16(header.height);
-        uint8_t pixel[5];
-        int x = 0;
-        int y = 0;
-        int ymax;
-        int increment;
-        int i;
+        const char TOP_DOWN = (header.img_descriptor & TGA_UPPER_ORIGIN) != 0;
         const int SKIPME = header.id_len+header.colourmap_type*
                 ENDIANNESS_LITTLE16(header.colourmap_length);
+        uint8_t pixel[4];
         int written = 0;
-        int rle;
-        if(header.img_descriptor & TGA_UPPER_ORIGIN) /* top-down */
-        {
-            increment = 1;
-            ymax = HEIGHT;
-            y = 0;
-        }
-        else
-        {
-            increment = -1;
-            ymax = -1;
-            y = HEIGHT-1;
-        }
+        int packet_len = 0; /* pixels left in the current packet */
+        char repeated = 0; /* the packet stores a single pixel */
         fseek(fin, SKIPME, SEEK_CUR); /* I don't care about these features */
-        while(y != ymax)
+        while(written<WIDTH*HEIGHT)
         {
-            i = y*WIDTH;
-            x = 0;
-            while(x<WIDTH && fread(&pixel, BPP+COMPRESSED, 1, fin))
+            const int y = written/WIDTH;
+            const int x = written%WIDTH;
+            char new_pixel = 1;
+            if(COMPRESSED)
             {
-                if(!COMPRESSED)
+                new_pixel = !repeated;
+                if(packet_len == 0) /* packets may also span several lines */
                 {
-                    if(BPP == 3) /* 24 bit no RLE */
-                    {
-                        values[i] = 0x000000FF;
-                        values[i] |= pixel[2] << 8;  /* Red   */
-                        values[i] |= pixel[1] << 16; /* Green */
-                        values[i] |= pixel[0] << 24; /* Blue  */
-                    }
-                    else if(BPP == 4) /* 32 bit no RLE */
-                    {
-                        values[i] = 0x00000000;
-                        values[i] |= pixel[3] << 0;  /* Alpha */
-                        values[i] |= pixel[2] << 8;  /* Red   */
-                        values[i] |= pixel[1] << 16; /* Green */
-                        values[i] |= pixel[0] << 24; /* Blue  */
-                    }
-                    else /* 16 bit no RLE */
-                    {
-                        values[i] = 0x000000FF;
-                        /* the shift is a multiplication by 8 */
-                        /* used to map a value from 0-31 to 0-255 */
-                        values[i] |= ((pixel[1] & 0x7C) << 1) << 8;
-                        values[i] |= ((pixel[1] & 0x03) << 6 |
-                                      (pixel[0] & 0xE0) >> 2) << 16;
-                        values[i] |= ((pixel[0] & 0x1F) << 3) << 24;
-                    }
-                    i++;
-                    written++;
-                    x++;
-                }
-                else /* RLE compression */
-                {
-                    if(pixel[0] & 0x80) /* RLE */
-                    {
-                        int rle_len = 1+(pixel[0] & 0x7F);
-                        for(rle = 0; rle<rle_len; rle++)
-                        {
-                            if(BPP == 3) /* 24 bit no RLE */
-                            {
-                                values[i] = 0x000000FF;
-                                values[i] |= pixel[3] << 8;  /* Red   */
-                                values[i] |= pixel[2] << 16; /* Green */
-                                values[i] |= pixel[1] << 24; /* Blue  */
-                            }
-                            else if(BPP == 4) /* 32 bit no RLE */
-                            {
-                                values[i] = 0x00000000;
-                                values[i] |= pixel[4] << 0;  /* Alpha */
-                                values[i] |= pixel[3] << 8;  /* Red   */
-                                values[i] |= pixel[2] << 16; /* Green */
-                                values[i] |= pixel[1] << 24; /* Blue  */
-                            }
-                            else /* 16 bit no RLE */
-                            {
-                                values[i] = 0x000000FF;
-                                /* the shift is a multiplication by 8 */
-                                /* used to map a value from 0-31 to 0-255 */
-                                values[i] |= ((pixel[2] & 0x7C) << 1) << 8;
-                                values[i] |= ((pixel[2] & 0x03) << 6 |
-                                              (pixel[1] & 0xE0) >> 2) << 16;
-                                values[i] |= ((pixel[1] & 0x1F) << 3) << 24;
-                            }
-                            i++;
-                            written++;
-                            x++;
-                            if(x == WIDTH) /* wrap line */
-                            {
-                                y += increment;
-                                if(y == ymax) /* endgame */
-                                {
-                                    /* set condition to break both loops */
-                                    y = ymax-increment;
-                                    x = WIDTH;
-                                }
-                                else
-                                    x = 0;
-                                i = y*WIDTH;
-                            }
-                        }
-                    }
-                    else /* normal */
-                    {
-                        if(BPP == 3) /* 24 bit no RLE */
-                        {
-                            values[i] = 0x000000FF;
-                            values[i] |= pixel[3] << 8;  /* Red   */
-                            values[i] |= pixel[2] << 16; /* Green */
-                            values[i] |= pixel[1] << 24; /* Blue  */
-                        }
-                        else if(BPP == 4) /* 32 bit no RLE */
-                        {
-                            values[i] = 0x00000000;
-                            values[i] |= pixel[4] << 0;  /* Alpha */
-                            values[i] |= pixel[3] << 8;  /* Red   */
-                            values[i] |= pixel[2] << 16; /* Green */
-                            values[i] |= pixel[1] << 24; /* Blue  */
-                        }
-                        else /* 16 bit no RLE */
-                        {
-                            values[i] = 0x000000FF;
-                            /* the shift is a multiplication by 8 */
-                            /* used to map a value from 0-31 to 0-255 */
-                            values[i] |= ((pixel[2] & 0x7C) << 1) << 8;
-                            values[i] |= ((pixel[2] & 0x03) << 6 |
-                                          (pixel[1] & 0xE0) >> 2) << 16;
-                            values[i] |= ((pixel[1] & 0x1F) << 3) << 24;
-                        }
-                        x++;
-                        written++;
-                        i++;
-                    }
-
+                    int packet = fgetc(fin);
+                    if(packet == EOF)
+                        break;
+                    packet_len = 1+(packet & 0x7F);
+                    repeated = (packet & 0x80) != 0;
+                    new_pixel = 1;
                 }
+                packet_len--;
             }
-            y += increment;
+            if(new_pixel && !fread(pixel, BPP, 1, fin))
+                break;
+            values[(TOP_DOWN?y:HEIGHT-1-y)*WIDTH+x] = tga_pixel(pixel, BPP);
+            written++;
         }
         retval = WIDTH*HEIGHT == written;
     }
-- 
2.43.0


From 3bcb73b2d64b1cdc5ec47bec3e585c7ca3c4470c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:56 +0000
Subject: [PATCH 42/86] fix: fatal errors of libjpeg end the operation,
 grayscale jpg are expanded

---
 src/utility/imageio/jpg.c | 89 +++++++++++++++++++++++++++++----------
 1 file changed, 67 insertions(+), 22 deletions(-)

diff --git a/src/utility/imageio/jpg.c b/src/utility/imageio/jpg.c
index 5031ba6..7d7b548 100644
--- a/src/utility/imageio/jpg.c
+++ b/src/utility/imageio/jpg.c
@@ -2,13 +2,28 @@
 /*  license: MIT                */
 
 #include "jpg.h"
+#include <setjmp.h>
 
 #define UNUSED(x) (void)(x)
 
-static void jpg_error(j_common_ptr jpg_img)
+/* error handler that knows where to continue after a failure */
+struct jpg_error_mgr
+{
+    struct jpeg_error_mgr base;
+    jmp_buf failure;
+};
+
+static void jpg_message(j_common_ptr jpg_img)
 {
     UNUSED(jpg_img);
-    /* avoid terminating program if jpg error is encountered */
+    /* errors are reported with the return value, nothing is printed */
+}
+
+static void jpg_error(j_common_ptr jpg_img)
+{
+    /* avoid terminating program if jpg error is encountered. libjpeg can not
+     * continue after a fatal error, so this function must not return */
+    longjmp(((struct jpg_error_mgr*)jpg_img->err)->failure, 1);
 }
 
 char jpg_write(const char* name, int width, int height, const uint32_t* data)
@@ -18,7 +33,7 @@ char jpg_write(const char* name, int width, int height, const uint32_t* data)
     if(fout != NULL)
     {
         struct jpeg_compress_struct jpg_img;
-        struct jpeg_error_mgr jpg_err;
+        struct jpg_error_mgr jpg_err;
         int i;
         JSAMPROW current_row;
         /*not the best thing, but the jpeg functions wants a modifiable array*/
@@ -32,9 +47,16 @@ char jpg_write(const char* name, int width, int height, const uint32_t* data)
             data_nc[i*3+1] = (data[i] & 0x00FF0000) >> 16;
             data_nc[i*3+2] = (data[i] & 0xFF000000) >> 24;
         }
-        jpg_img.err = jpeg_std_error(&jpg_err);
-        jpg_err.error_exit = jpg_error;
-        jpg_err.output_message = jpg_error;
+        jpg_img.err = jpeg_std_error(&jpg_err.base);
+        jpg_err.base.error_exit = jpg_error;
+        jpg_err.base.output_message = jpg_message;
+        if(setjmp(jpg_err.failure))
+        {
+            fclose(fout);
+            free(data_nc);
+            jpeg_destroy_compress(&jpg_img);
+            return 0;
+        }
         jpeg_create_compress(&jpg_img);
         jpeg_stdio_dest(&jpg_img, fout);
         jpg_img.image_width = width;
@@ -49,8 +71,8 @@ char jpg_write(const char* name, int width, int height, const uint32_t* data)
             current_row = data_nc+jpg_img.next_scanline*3*width;
             jpeg_write_scanlines(&jpg_img, &current_row, 1);
         }
-        retval = 1;
         jpeg_finish_compress(&jpg_img);
+        retval = 1;
         fclose(fout);
         free(data_nc);
         jpeg_destroy_compress(&jpg_img);
@@ -66,12 +88,18 @@ char jpg_valid(const char* name)
     {
         struct jpeg_decompress_struct jpg_img;
         /* without error handling SIGSEGV will be generated */
-        struct jpeg_error_mgr jpg_err;
+        struct jpg_error_mgr jpg_err;
         memset(&jpg_img, 0, sizeof(jpg_img));
         memset(&jpg_err, 0, sizeof(jpg_err));
-        jpg_img.err = jpeg_std_error(&jpg_err);
-        jpg_err.error_exit = jpg_error;
-        jpg_err.output_message = jpg_error;
+        jpg_img.err = jpeg_std_error(&jpg_err.base);
+        jpg_err.base.error_exit = jpg_error;
+        jpg_err.base.output_message = jpg_message;
+        if(setjmp(jpg_err.failure))
+        {
+            jpeg_destroy_decompress(&jpg_img);
+            fclose(fin);
+            return 0;
+        }
         jpeg_create_decompress(&jpg_img);
         jpeg_stdio_src(&jpg_img, fin);
         /* check if the header is correct. The actual error handling does
@@ -93,12 +121,18 @@ char jpg_dimensions(const char* name, int* width, int* height)
     {
         struct jpeg_decompress_struct jpg_img;
         /* without error handling SIGSEGV will be generated */
-        struct jpeg_error_mgr jpg_err;
+        struct jpg_error_mgr jpg_err;
         memset(&jpg_img, 0, sizeof(jpg_img));
         memset(&jpg_err, 0, sizeof(jpg_err));
-        jpg_img.err = jpeg_std_error(&jpg_err);
-        jpg_err.error_exit = jpg_error;
-        jpg_err.output_message = jpg_error;
+        jpg_img.err = jpeg_std_error(&jpg_err.base);
+        jpg_err.base.error_exit = jpg_error;
+        jpg_err.base.output_message = jpg_message;
+        if(setjmp(jpg_err.failure))
+        {
+            jpeg_destroy_decompress(&jpg_img);
+            fclose(fin);
+            return 0;
+        }
         jpeg_create_decompress(&jpg_img);
         jpeg_stdio_src(&jpg_img, fin);
         if(jpeg_read_header(&jpg_img, TRUE) == JPEG_HEADER_OK)
@@ -128,19 +162,29 @@ char jpg_read(const char* name, uint32_t* values)
         int row_len;
         unsigned int x;
         unsigned int y;
-        uint8_t* row;
+        uint8_t* volatile row = NULL; /* still valid after a longjmp */
+        JSAMPROW current_row;
         struct jpeg_decompress_struct jpg_img;
         /* without error handling SIGSEGV will be generated */
-        struct jpeg_error_mgr jpg_err;
+        struct jpg_error_mgr jpg_err;
         memset(&jpg_img, 0, sizeof(jpg_img));
         memset(&jpg_err, 0, sizeof(jpg_err));
-        jpg_img.err = jpeg_std_error(&jpg_err);
-        jpg_err.error_exit = jpg_error;
-        jpg_err.output_message = jpg_error;
+        jpg_img.err = jpeg_std_error(&jpg_err.base);
+        jpg_err.base.error_exit = jpg_error;
+        jpg_err.base.output_message = jpg_message;
+        if(setjmp(jpg_err.failure))
+        {
+            free(row);
+            jpeg_destroy_decompress(&jpg_img);
+            fclose(fin);
+            return 0;
+        }
         jpeg_create_decompress(&jpg_img);
         jpeg_stdio_src(&jpg_img, fin);
         if(jpeg_read_header(&jpg_img, TRUE) == JPEG_HEADER_OK)
         {
+            /* grayscale images are expanded, others are refused */
+            jpg_img.out_color_space = JCS_RGB;
             jpeg_start_decompress(&jpg_img);
             row_len = jpg_img.output_width*jpg_img.output_components;
             row = (uint8_t*)malloc(sizeof(uint8_t)*row_len);
@@ -148,7 +192,8 @@ char jpg_read(const char* name, uint32_t* values)
             while(jpg_img.output_scanline<jpg_img.output_height)
             {
                 y = jpg_img.output_scanline;
-                retval &= jpeg_read_scanlines(&jpg_img, &row, 1)>0;
+                current_row = row;
+                retval &= jpeg_read_scanlines(&jpg_img, &current_row, 1)>0;
                 x = 0;
                 while(x<jpg_img.output_width)
                 {
@@ -160,9 +205,9 @@ char jpg_read(const char* name, uint32_t* values)
                     x++;
                 }
             }
+            jpeg_finish_decompress(&jpg_img);
             free(row);
         }
-        jpeg_finish_decompress(&jpg_img);
         jpeg_destroy_decompress(&jpg_img);
         fclose(fin);
     }
-- 
2.43.0


From 3f765f4af6b355a43d2d0b49621002ac7c361938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:40 +0000
Subject: [PATCH 43/86] fix: ppm comments are skipped, wrong headers and
 missing components are refused

---
 src/utility/imageio/ppm.c | 133 ++++++++++++++++++++++++--------------
 1 file changed, 83 insertions(+), 50 deletions(-)

diff --git a/src/utility/imageio/ppm.c b/src/utility/imageio/ppm.c
index b6595b0..46de6b7 100644
--- a/src/utility/imageio/ppm.c
+++ b/src/utility/imageio/ppm.c
@@ -2,8 +2,48 @@
 /*  license: MIT                */
 
 #include "ppm.h"
+#include <ctype.h>
 
-#define CLAMP(x, y, z) ((x)<0)?0:(x)>(z)?(z):(x)
+#define CLAMP(x, y, z) (((x)<(y))?(y):((x)>(z))?(z):(x))
+
+/* biggest number accepted in a file */
+#define PPM_MAX_NUMBER 100000000
+
+/* read a number, skipping the whitespaces and the comments before it */
+static char ppm_number(FILE* fin, int* value)
+{
+    int c = fgetc(fin);
+    while(c == '#' || isspace(c))
+    {
+        if(c == '#') /* comment, up to the end of the line */
+            while(c != '\n' && c != EOF)
+                c = fgetc(fin);
+        else
+            c = fgetc(fin);
+    }
+    if(!isdigit(c))
+        return 0;
+    *value = 0;
+    while(isdigit(c))
+    {
+        if(*value<PPM_MAX_NUMBER)
+            *value = *value*10+(c-'0');
+        c = fgetc(fin);
+    }
+    ungetc(c, fin); /* no effect on EOF */
+    return *value<=PPM_MAX_NUMBER;
+}
+
+/* read the magic number, either 3 for ASCII or 6 for binary, and the size */
+static char ppm_header(FILE* fin, int* magic, int* width, int* height)
+{
+    if(fgetc(fin) != 'P')
+        return 0;
+    *magic = fgetc(fin);
+    return (*magic == '3' || *magic == '6') &&
+           ppm_number(fin, width) && ppm_number(fin, height) &&
+           *width>0 && *height>0;
+}
 
 char ppm_write(const char* name, int width, int height, const uint32_t* array)
 {
@@ -35,13 +75,8 @@ char ppm_dimensions(const char* name, int* width, int* height)
     char retval = 0;
     if(fin != NULL)
     {
-        char magic[2];
-        fscanf(fin, "%c%c", magic+0, magic+1);
-        if(magic[0] == 'P' && (magic[1] == '3' || magic[1] == '6'))
-        {
-            fscanf(fin, "%d%d", width, height);
-            retval = 1;
-        }
+        int magic;
+        retval = ppm_header(fin, &magic, width, height);
         fclose(fin);
     }
     return retval;
@@ -53,10 +88,11 @@ char ppm_valid(const char* name)
     FILE* fin = fopen(name, "rb");
     if(fin != NULL)
     {
-        char magic[2];
-        fscanf(fin, "%c%c", magic+0, magic+1);
+        int magic;
+        int width;
+        int height;
+        retval = ppm_header(fin, &magic, &width, &height);
         fclose(fin);
-        retval = magic[0] == 'P' && (magic[1] == '3' || magic[1] == '6');
     }
     return retval;
 }
@@ -67,46 +103,40 @@ char ppm_read(const char* name, uint32_t* values)
     char retval = 0;
     if(fin != NULL)
     {
-        char magic[2];
+        int magic;
+        int header_width;
+        int header_height;
+        int depth_int;
         uint8_t red;
         uint8_t green;
         uint8_t blue;
-        fscanf(fin, "%c%c", magic+0, magic+1);
-        /* check magic number to determine if ASCII or binary */
-        if(magic[0] == 'P')
+        /* check magic number to determine if ASCII or binary. The
+         specification states that the depth is less than 65536 */
+        if(ppm_header(fin, &magic, &header_width, &header_height) &&
+           ppm_number(fin, &depth_int) && depth_int>0 && depth_int<65536)
         {
-            unsigned int width;
-            unsigned int height;
-            float depth;
-            uint16_t depth_short;
-            fscanf(fin, "%u%u%hu", &width, &height, &depth_short);
-            /* not my fucking problem if the depth is > 65536, the specification
-             states that the aforementioned value is the max */
-            depth = (float)depth_short;
-            if(magic[1] == '3') /* ASCII */
+            const unsigned int width = (unsigned int)header_width;
+            const unsigned int height = (unsigned int)header_height;
+            const float depth = (float)depth_int;
+            if(magic == '3') /* ASCII */
             {
-                char val[6];
-                uint16_t num_val;
-                unsigned int i;
-                for(i = 0; i<width*height; i++)
+                int val[3];
+                unsigned int i = 0;
+                while(i<width*height && ppm_number(fin, val+0) &&
+                      ppm_number(fin, val+1) && ppm_number(fin, val+2))
                 {
+                    red = (uint8_t)(CLAMP(val[0]/depth, 0.f, 1.f)*255);
+                    green = (uint8_t)(CLAMP(val[1]/depth, 0.f, 1.f)*255);
+                    blue = (uint8_t)(CLAMP(val[2]/depth, 0.f, 1.f)*255);
                     values[i] = 0x000000FF;
-                    fscanf(fin, "%5s", val);
-                    sscanf(val, "%hu", &num_val);
-                    red = (uint8_t)(CLAMP((num_val/depth), 0.f, 1.f)*255);
-                    fscanf(fin, "%5s", val);
-                    sscanf(val, "%hu", &num_val);
-                    green = (uint8_t)(CLAMP((num_val/depth), 0.f, 1.f)*255);
-                    fscanf(fin, "%5s", val);
-                    sscanf(val, "%hu", &num_val);
-                    blue = (uint8_t)(CLAMP((num_val/depth), 0.f, 1.f)*255);
                     values[i] |= red << 8;
                     values[i] |= green << 16;
-                    values[i] |= blue << 24;
+                    values[i] |= (uint32_t)blue << 24;
+                    i++;
                 }
-                retval = 1;
+                retval = i == width*height;
             }
-            else if(magic[1] == '6') /* Binary */
+            else /* Binary */
             {
                 unsigned int x = 0;
                 unsigned int y = 0;
@@ -116,20 +146,23 @@ char ppm_read(const char* name, uint32_t* values)
                    by specification this will ALWAYS be ONE space or newline
                    so no \n\r or other windows shits */
                 fseek(fin, 1, SEEK_CUR);
-                if(depth_short<=255)/* 1 byte per component */
+                if(depth_int<=255)/* 1 byte per component */
                 {
-                    uint8_t* row = (uint8_t*)malloc(sizeof(uint8_t)*width*3);
+                    const size_t ROW_LEN = sizeof(uint8_t)*width*3;
+                    uint8_t* row = (uint8_t*)malloc(ROW_LEN);
                     /* read a pixel block of READ_BUFFER size */
-                    while(y<height &&
-                          fread(row, sizeof(uint8_t)*(width*3), 1, fin))
+                    while(row != NULL && y<height && fread(row, ROW_LEN, 1, fin))
                     {
                         row_idx = 0;
                         x = 0;
                         while(x<width)
                         {
-                            red = (uint8_t)((row[row_idx++]/depth)*255);
-                            green = (uint8_t)((row[row_idx++]/depth)*255);
-                            blue = (uint8_t)((row[row_idx++]/depth)*255);
+                            red = (uint8_t)(CLAMP(row[row_idx]/depth, 0.f, 1.f)*255);
+                            row_idx++;
+                            green = (uint8_t)(CLAMP(row[row_idx]/depth, 0.f, 1.f)*255);
+                            row_idx++;
+                            blue = (uint8_t)(CLAMP(row[row_idx]/depth, 0.f, 1.f)*255);
+                            row_idx++;
                             values[output_idx] = 0x000000FF;
                             values[output_idx] |= red << 8;
                             values[output_idx] |= green << 16;
@@ -142,10 +175,10 @@ char ppm_read(const char* name, uint32_t* values)
                 }
                 else/* 2 bytes per component, high depth */
                 {
-                    uint16_t* row = (uint16_t*)malloc(sizeof(uint16_t)*width*3);
+                    const size_t ROW_LEN = sizeof(uint16_t)*width*3;
+                    uint16_t* row = (uint16_t*)malloc(ROW_LEN);
                     /* read a pixel block of READ_BUFFER size */
-                    while(y<height &&
-                          fread(row, sizeof(uint16_t)*(width*3), 1, fin))
+                    while(row != NULL && y<height && fread(row, ROW_LEN, 1, fin))
                     {
                         row_idx = 0;
                         x = 0;
-- 
2.43.0


From 3fb2330f7e0f9b949f0643ba61d9a3f05389b221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:58 +0000
Subject: [PATCH 44/86] fix: png: recover from libpng errors instead of
 aborting

---
 src/utility/imageio/png.c | 71 ++++++++++++++++++++++++++-------------
 1 file changed, 47 insertions(+), 24 deletions(-)

diff --git a/src/utility/imageio/png.c b/src/utility/imageio/png.c
index 51432ab..2884992 100644
--- a/src/utility/imageio/png.c
+++ b/src/utility/imageio/png.c
@@ -29,19 +29,24 @@ char png_write(const char* name, int width, int height, const uint32_t* data)
         png_img = png_create_write_struct(PNG_LIBPNG_VER_STRING, NULL, NULL,
                                           NULL);
         png_info = png_create_info_struct(png_img);
-        png_init_io(png_img, fout);
-        png_set_IHDR(png_img, png_info, width, height,
-                     8, PNG_COLOR_TYPE_RGB, PNG_INTERLACE_NONE,
-                     PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
-        png_write_info(png_img, png_info);
-        png_write_image(png_img, rows);
-        png_write_end(png_img, NULL);
+        /* libpng jumps here when something goes wrong */
+        if(setjmp(png_jmpbuf(png_img)) == 0)
+        {
+            png_init_io(png_img, fout);
+            png_set_IHDR(png_img, png_info, width, height,
+                         8, PNG_COLOR_TYPE_RGB, PNG_INTERLACE_NONE,
+                         PNG_COMPRESSION_TYPE_DEFAULT,
+                         PNG_FILTER_TYPE_DEFAULT);
+            png_write_info(png_img, png_info);
+            png_write_image(png_img, rows);
+            png_write_end(png_img, NULL);
+            retval = 1;
+        }
         for(y = 0; y<height; y++)
             free(rows[y]);
         free(rows);
         png_destroy_write_struct(&png_img, &png_info);
         fclose(fout);
-        retval = 1;
     }
     return retval;
 }
@@ -53,8 +58,7 @@ char png_valid(const char* name)
     if(fin != NULL)
     {
         uint8_t header[8];
-        fread(header, 1, 8, fin);
-        retval = png_sig_cmp(header, 0, 8) == 0;
+        retval = fread(header, 8, 1, fin) && png_sig_cmp(header, 0, 8) == 0;
         fclose(fin);
     }
     return retval;
@@ -69,19 +73,22 @@ char png_dimensions(const char* name, int* width, int* height)
         uint8_t header[8];
         png_structp png_img;
         png_infop png_info;
-        fread(header, 1, 8, fin);
-        if(png_sig_cmp(header, 0, 8) == 0)
+        if(fread(header, 8, 1, fin) && png_sig_cmp(header, 0, 8) == 0)
         {
             png_img = png_create_read_struct(PNG_LIBPNG_VER_STRING, NULL, NULL,
                                              NULL);
             png_info = png_create_info_struct(png_img);
-            png_init_io(png_img, fin);
-            png_set_sig_bytes(png_img, 8);
-            png_read_info(png_img, png_info);
-            *width = png_get_image_width(png_img, png_info);
-            *height = png_get_image_height(png_img, png_info);
+            /* libpng jumps here when something goes wrong */
+            if(setjmp(png_jmpbuf(png_img)) == 0)
+            {
+                png_init_io(png_img, fin);
+                png_set_sig_bytes(png_img, 8);
+                png_read_info(png_img, png_info);
+                *width = png_get_image_width(png_img, png_info);
+                *height = png_get_image_height(png_img, png_info);
+                retval = 1;
+            }
             png_destroy_read_struct(&png_img, &png_info, NULL);
-            retval = 1;
         }
         fclose(fin);
     }
@@ -97,20 +104,29 @@ char png_read(const char* name, uint32_t* values)
         int y;
         int x;
         uint8_t header[8];
-        png_byte** rows;
+        png_byte** volatile rows = NULL;
         png_structp png_img;
         png_infop png_info;
         int width;
-        int height;
+        volatile int height = 0;
         int color_type;
         int bpp;
         int index_rgb;
-        fread(header, 1, 8, fin);
-        if(png_sig_cmp(header, 0, 8) == 0)
+        if(fread(header, 8, 1, fin) && png_sig_cmp(header, 0, 8) == 0)
         {
             png_img = png_create_read_struct(PNG_LIBPNG_VER_STRING, NULL, NULL,
                                              NULL);
             png_info = png_create_info_struct(png_img);
+            /* libpng jumps here when something goes wrong */
+            if(setjmp(png_jmpbuf(png_img)))
+            {
+                for(y = 0; rows != NULL && y<height; y++)
+                    free(rows[y]);
+                free(rows);
+                png_destroy_read_struct(&png_img, &png_info, NULL);
+                fclose(fin);
+                return 0;
+            }
             png_init_io(png_img, fin);
             png_set_sig_bytes(png_img, 8);
             png_read_info(png_img, png_info);
@@ -137,10 +153,17 @@ char png_read(const char* name, uint32_t* values)
                color_type == PNG_COLOR_TYPE_GRAY_ALPHA)
                 png_set_gray_to_rgb(png_img);
             /* -------------------------------------------------------------- */
+            png_set_interlace_handling(png_img);
             png_read_update_info(png_img, png_info);
-            rows = (png_byte**)malloc(sizeof(png_byte*)*height);
+            rows = (png_byte**)calloc(height, sizeof(png_byte*));
+            if(rows == NULL)
+                png_error(png_img, "out of memory");
             for(y = 0; y<height; y++)
-                rows[y] = (png_byte*)malloc(sizeof(png_byte)*width*4);
+            {
+                rows[y] = (png_byte*)malloc((size_t)width*4);
+                if(rows[y] == NULL)
+                    png_error(png_img, "out of memory");
+            }
             png_read_image(png_img, rows);
             index_rgb = 0;
             for(y = 0; y<height; y++)
-- 
2.43.0


From e0e4247f8475dd0e500c19ca725f984f3b8d3181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:58 +0000
Subject: [PATCH 45/86] fix: bmp: refuse images of impossible size

---
 src/utility/imageio/bmp.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/utility/imageio/bmp.c b/src/utility/imageio/bmp.c
index 3d9e129..0881858 100644
--- a/src/utility/imageio/bmp.c
+++ b/src/utility/imageio/bmp.c
@@ -2,6 +2,7 @@
 /*  license: MIT                */
 
 #include "bmp.h"
+#include <limits.h>
 
 #define BMP_MAGIC 19778
 
@@ -12,6 +13,13 @@ uint32_t bmp_size(int width, int height, short bpp)
            4*(((1 << bpp) & 0xFFFF)+height*((width*bpp+31)/32));
 }
 
+/* a negative height is used for images stored from the top to the bottom */
+static char valid_size(int width, int height)
+{
+    return width>0 && height != 0 &&
+           abs(height/2)<=INT_MAX/2/4/width; /* at most 4 bytes per pixel */
+}
+
 char bmp_valid(const char* name)
 {
     char retval = 0;
@@ -47,10 +55,14 @@ char bmp_dimensions(const char* name, int* width, int* height)
             res = fread(&dib, sizeof(struct bmp_dib_v3), 1, fin);
             if(res && ENDIANNESS_LITTLE16(header.signature) == BMP_MAGIC)
             {
-                *width = ENDIANNESS_LITTLE32(dib.width);
-                *height = ENDIANNESS_LITTLE32(dib.height);
-                *height = *height>=0?*height:-*height;
-                retval = 1;
+                const int WIDTH = ENDIANNESS_LITTLE32(dib.width);
+                const int HEIGHT = ENDIANNESS_LITTLE32(dib.height);
+                if(valid_size(WIDTH, HEIGHT))
+                {
+                    *width = WIDTH;
+                    *height = HEIGHT>=0?HEIGHT:-HEIGHT;
+                    retval = 1;
+                }
             }
         }
         fclose(fin);
@@ -131,7 +143,9 @@ char bmp_read(const char* name, uint32_t* values)
         /* not v3 or other fancy features not supported */
         if(res && dib.compression == 0 && dib.palette_no == 0 &&
            (ENDIANNESS_LITTLE16(dib.bpp) == 24 ||
-            ENDIANNESS_LITTLE16(dib.bpp) == 32))
+            ENDIANNESS_LITTLE16(dib.bpp) == 32) &&
+           valid_size(ENDIANNESS_LITTLE32(dib.width),
+                      ENDIANNESS_LITTLE32(dib.height)))
         {
             int height = ENDIANNESS_LITTLE32(dib.height);
             const int WIDTH = ENDIANNESS_LITTLE32(dib.width);
@@ -157,7 +171,7 @@ char bmp_read(const char* name, uint32_t* values)
                 y = 0;
             }
             fseek(fin, ENDIANNESS_LITTLE32(header.data_offset), SEEK_SET);
-            while(y != ymax && fread(row, BPP*WIDTH+PADDING, 1, fin))
+            while(row != NULL && y != ymax && fread(row, BPP*WIDTH+PADDING, 1, fin))
             {
                 x = 0;
                 while(x<WIDTH)
-- 
2.43.0


From c347ab18f58ee8c4f7982796e1f95e0e5680dc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:58 +0000
Subject: [PATCH 46/86] fix: tiff: refuse damaged data and impossible sizes,
 guard with TIFF_FOUND

---
 src/utility/imageio/imageio.c | 2 +-
 src/utility/imageio/tiff.c    | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/utility/imageio/imageio.c b/src/utility/imageio/imageio.c
index 5e15257..2e91b12 100644
--- a/src/utility/imageio/imageio.c
+++ b/src/utility/imageio/imageio.c
@@ -76,7 +76,7 @@ char img_dimensions(const char* name, const char* ext,
     else if(strcmp(ext, "png") == 0)
         retval = png_dimensions(name, width, height);
 #endif
-#ifdef JPEG_FOUND
+#ifdef TIFF_FOUND
     else if(strcmp(ext, "tif") == 0 || strcmp(ext, "tiff") == 0)
         retval = tiff_dimensions(name, width, height);
 #endif
diff --git a/src/utility/imageio/tiff.c b/src/utility/imageio/tiff.c
index 36931a9..e3b3c0e 100644
--- a/src/utility/imageio/tiff.c
+++ b/src/utility/imageio/tiff.c
@@ -90,10 +90,12 @@ char tiff_read(const char* name, uint32_t* values)
         retval |= TIFFGetField(fin, TIFFTAG_IMAGEWIDTH, &width);
         retval &= TIFFGetField(fin, TIFFTAG_IMAGELENGTH, &height);
         retval &= TIFFGetField(fin, TIFFTAG_SAMPLESPERPIXEL, &channels);
-        data = (uint32_t*)_TIFFmalloc(sizeof(uint32_t)*width*height);
+        retval &= width>0 && height>0;
+        data = retval?
+               (uint32_t*)_TIFFmalloc(sizeof(uint32_t)*width*height):NULL;
         /* The first retval is used to ensure channels/width/height are valid */
-        if(retval && (channels == 3 || channels == 4) &&
-           TIFFReadRGBAImage(fin, width, height, data, 0))
+        if(retval && (channels == 3 || channels == 4) && data != NULL &&
+           TIFFReadRGBAImage(fin, width, height, data, 1))
         {
             int x;
             int y;
-- 
2.43.0


From bc05e2dcdef09aecf6493f4642b119db4990251e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:58 +0000
Subject: [PATCH 47/86] fix: tga: refuse images without pixels

---
 src/utility/imageio/tga.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utility/imageio/tga.c b/src/utility/imageio/tga.c
index 5a21b32..3d8a185 100644
--- a/src/utility/imageio/tga.c
+++ b/src/utility/imageio/tga.c
@@ -33,6 +33,7 @@ static char valid_header(struct tga_header* header)
     descriptor = header->img_descriptor & 0xF0;
     retval &= (header->bpp == 24 || header->bpp == 32 ||
                header->bpp == 16 || header->bpp == 15);
+    retval &= header->width != 0 && header->height != 0;
     retval &= header->colourmap_type == 0;
     retval &= descriptor == 0 || descriptor == TGA_UPPER_ORIGIN;
     return retval;
-- 
2.43.0


From 147d22822afbb130e667f8a2c21aae2a7d8955a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:45 +0000
Subject: [PATCH 48/86] fix: obj: stop at the end of files without a final
 newline

---
 src/parsers/parser_obj.cpp | 40 ++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index fbc5757..6c2892c 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -14,6 +14,11 @@ static inline void get_next_token(char** source, char* buffer, int max_size,
 
 static inline void feed_buffer(int* read_bytes, char* buffer_ro, FILE* input);
 
+//true if every byte of the buffer has been consumed. The guard alone is not
+//enough, since its value could be contained in the file
+static inline bool buffer_ended(const char* source, int read_bytes,
+                                const char* buffer_ro);
+
 ParserObj::ParserObj()
 {
     buffer_ro = NULL;
@@ -86,7 +91,7 @@ bool ParserObj::get_next_mesh(Mesh* obj)
     used_materials.insert({{"Default", 0}});
     object_name = "";
     char token[TOKEN_SIZE];
-    while(*buffer != END_OF_BUFFER_GUARD)
+    while(!buffer_ended(buffer, read_bytes, buffer_ro))
     {
         if(craft_token)
         {
@@ -377,22 +382,24 @@ bool ParserObj::get_next_mesh(Mesh* obj)
         //skip rest of line /////////////
         while(*buffer != '\n')
         {
-            if(*buffer == END_OF_BUFFER_GUARD)
+            if(buffer_ended(buffer, read_bytes, buffer_ro))
             {
                 feed_buffer(&read_bytes, buffer_ro, fin);
                 buffer = buffer_ro;
+                if(read_bytes == 0) //end of file without newline
+                    break;
             }
             else
                 buffer++;
         }
         //////////////////////////////////
-        if(*buffer != END_OF_BUFFER_GUARD)
+        if(!buffer_ended(buffer, read_bytes, buffer_ro))
         {
             buffer++;
             lineno++;
             //avoid leaving buffer pointer on the guard while there
             //are still bytes to read
-            if(*buffer == END_OF_BUFFER_GUARD)
+            if(buffer_ended(buffer, read_bytes, buffer_ro))
             {
                 feed_buffer(&read_bytes, buffer_ro, fin);
                 buffer = buffer_ro;
@@ -474,17 +481,16 @@ static inline void get_next_token(char** source, char* token_buf, int max_size,
 {
     char current = **source;
     //skip spaces
-    while(current == ' ' || current == '\t' || current == END_OF_BUFFER_GUARD)
+    while(current == ' ' || current == '\t' ||
+          buffer_ended(*source, *read_bytes, buffer_ro))
     {
-        if(current == END_OF_BUFFER_GUARD)
+        if(buffer_ended(*source, *read_bytes, buffer_ro))
         {
             feed_buffer(read_bytes, buffer_ro, input);
             *source = buffer_ro;
             current = **source;
-            //should never happen
-            //TODO: try with non POSIX files
-            //if(current == END_OF_BUFFER_GUARD)
-            //    return;
+            if(*read_bytes == 0) //end of file, the token is empty
+                break;
         }
         else
         {
@@ -496,15 +502,13 @@ static inline void get_next_token(char** source, char* token_buf, int max_size,
     int i = 0;
     while(current != ' ' && current != '\n' && current != '\r')
     {
-        if(current == END_OF_BUFFER_GUARD)
+        if(buffer_ended(*source, *read_bytes, buffer_ro))
         {
             feed_buffer(read_bytes, buffer_ro, input);
             *source = buffer_ro;
             current = **source;
-            //should never happen
-            //TODO: try with non POSIX files
-            //if(current == END_OF_BUFFER_GUARD) //end of file
-            //    break; //break instead of return since I want an ok token
+            if(*read_bytes == 0) //end of file
+                break; //break instead of return since I want an ok token
         }
         else
         {
@@ -523,3 +527,9 @@ static inline void feed_buffer(int* read_bytes, char* buffer_ro, FILE* input)
     *read_bytes = (int)fread(buffer_ro, sizeof(char), BUFFER_SIZE, input);
     buffer_ro[*read_bytes] = END_OF_BUFFER_GUARD;
 }
+
+static inline bool buffer_ended(const char* source, int read_bytes,
+                                const char* buffer_ro)
+{
+    return *source == END_OF_BUFFER_GUARD && source == buffer_ro+read_bytes;
+}
-- 
2.43.0


From a6c166d6d3529e58737ac42452a7efa7a54b851c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:57 +0000
Subject: [PATCH 49/86] fix: obj: tabs and trailing spaces separate tokens,
 skip vp statements

---
 src/parsers/parser_obj.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index 6c2892c..699d6b6 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -135,7 +135,7 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                         normals.emplace_back(x, y, z);
                         break;
                     }
-                    default: //vertices
+                    case '\0': //vertices
                     {
                         float x, y, z;
                         get_next_token(&buffer, token, TOKEN_SIZE,
@@ -148,7 +148,10 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                                        &read_bytes, buffer_ro, fin);
                         z = strtof(token, NULL);
                         vertices.emplace_back(x, y, z);
+                        break;
                     }
+                    default:
+                        /*skip parameter space vertices*/;
                 }
                 break;
             }
@@ -228,10 +231,13 @@ bool ParserObj::get_next_mesh(Mesh* obj)
             {
                 bool recreate_normals = false;
                 bool recreate_textures = false;
-                while(*buffer == ' ') //load every component of the face
+                //load every component of the face
+                while(*buffer == ' ' || *buffer == '\t')
                 {
                     get_next_token(&buffer, token, TOKEN_SIZE,
                                    &read_bytes, buffer_ro, fin);
+                    if(token[0] == '\0') //trailing spaces
+                        break;
                     char* tk_idx = token; //token index
                     //process face
                     int vert_idx = 0;
@@ -500,7 +506,8 @@ static inline void get_next_token(char** source, char* token_buf, int max_size,
     }
     //get token
     int i = 0;
-    while(current != ' ' && current != '\n' && current != '\r')
+    while(current != ' ' && current != '\t' && current != '\n' &&
+          current != '\r')
     {
         if(buffer_ended(*source, *read_bytes, buffer_ro))
         {
-- 
2.43.0


From 069c7bf393f04f1b898abbf56f916edffbd4369e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:10 +0000
Subject: [PATCH 50/86] fix: obj: validate every index of a face

---
 src/parsers/parser_obj.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index 699d6b6..3fed3e4 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -245,19 +245,18 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                     int norm_idx = 0;
                     vert_idx = (int)strtol(tk_idx, &tk_idx, 10);
                     Vertex res;
-                    if(*tk_idx != '\0')
+                    if(*tk_idx == '/')
                     {
                         tk_idx++;
                         if(*tk_idx != '/') //v/vt/vn
                             text_idx = (int)strtol(tk_idx, &tk_idx, 10);
-                        tk_idx++;
-                        norm_idx = (int)strtol(tk_idx, &tk_idx, 10);
+                        if(*tk_idx == '/') //the normal could be missing
+                            norm_idx = (int)strtol(tk_idx+1, NULL, 10);
                     }
                     //check indexes consistency
-                    if(vert_idx != 0)
                     {
                         int vert_size = (int)vertices.size();
-                        if(vert_idx<0)
+                        if(vert_idx<0 && vert_idx>=-vert_size)
                             vert_idx = vert_size+vert_idx;
                         else if(vert_idx>0 && vert_idx<=vert_size)
                             vert_idx--;
@@ -273,7 +272,7 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                     if(text_idx != 0)
                     {
                         int text_size = (int)textures.size();
-                        if(text_idx<0)
+                        if(text_idx<0 && text_idx>=-text_size)
                             text_idx = text_size+text_idx;
                         else if(text_idx>0 && text_idx<=text_size)
                             text_idx--;
@@ -293,7 +292,7 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                     if(norm_idx != 0)
                     {
                         int norm_size = (int)normals.size();
-                        if(norm_idx<0)
+                        if(norm_idx<0 && norm_idx>=-norm_size)
                             norm_idx = norm_size+norm_idx;
                         else if(norm_idx>0 && norm_idx<=norm_size)
                             norm_idx--;
@@ -319,7 +318,7 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                     //     buffer = buffer_ro;
                     // }
                 }
-                if(recreate_normals)
+                if(recreate_normals && face_tmp.size()>2)
                 {
                     //the normal should be created for the entire face
                     //no risk of losing info: if the normal is missing
-- 
2.43.0


From 9cc6852fc6a94d4e13a11e697ff4753175d32523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:22 +0000
Subject: [PATCH 51/86] fix: obj: skip objects without faces

---
 src/parsers/parser_obj.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index 3fed3e4..3931766 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -191,7 +191,8 @@ bool ParserObj::get_next_mesh(Mesh* obj)
             case 'o':
             {
                 //old object finished, bail out
-                if(object_name != "")
+                //objects without faces have nothing to return
+                if(object_name != "" && retval)
                 {
                     //since the original get_next_token already ate the 'g'
                     //buffer needs to be decremented. But buffer could have
@@ -209,7 +210,7 @@ bool ParserObj::get_next_mesh(Mesh* obj)
             }
             case 'g':
             {
-                if(object_name != "" && groups_as_names)
+                if(object_name != "" && groups_as_names && retval)
                 {
                     //like in the 'o' switch, but craft a 'g' instead
                     craft_token = 'g';
-- 
2.43.0


From 917a8078c89f5e59b423d3cdf589be053c3c4615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:36 +0000
Subject: [PATCH 52/86] fix: obj: forget the previous file and release the
 buffer

---
 src/parsers/parser_obj.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index 3931766..7e49e95 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -29,8 +29,8 @@ ParserObj::~ParserObj()
 {
     if(buffer_ro != NULL)
     {
+        free(buffer_ro);
         buffer_ro = NULL;
-        delete buffer_ro;
     }
 }
 
@@ -42,6 +42,10 @@ void ParserObj::start_parsing(const char* path)
     fin = fopen(path, "r");
     groups_as_names = false;
     craft_token = '\0';
+    //indices of the previous file, if any, are not valid anymore
+    vertices.clear();
+    textures.clear();
+    normals.clear();
     if(buffer_ro == NULL)
         buffer_ro = (char*)malloc(sizeof(char)*(BUFFER_SIZE+1));
     if(fin != NULL)
@@ -58,8 +62,8 @@ void ParserObj::end_parsing()
 {
     if(buffer_ro != NULL)
     {
+        free(buffer_ro);
         buffer_ro = NULL;
-        delete buffer_ro;
     }
     if(fin != NULL)
     {
-- 
2.43.0


From aa0688dba185fbc8dbbad1e9f0fa2beeb31e81af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:12 +0000
Subject: [PATCH 53/86] fix: obj: usemtl stays in force over object boundaries

---
 src/parsers/parser_obj.cpp | 51 +++++++++++++++++++++-----------------
 src/parsers/parser_obj.hpp |  8 ++++++
 2 files changed, 36 insertions(+), 23 deletions(-)

diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index 7e49e95..3c8e560 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -46,6 +46,7 @@ void ParserObj::start_parsing(const char* path)
     vertices.clear();
     textures.clear();
     normals.clear();
+    material_name.clear();
     if(buffer_ro == NULL)
         buffer_ro = (char*)malloc(sizeof(char)*(BUFFER_SIZE+1));
     if(fin != NULL)
@@ -94,6 +95,9 @@ bool ParserObj::get_next_mesh(Mesh* obj)
     material_association.clear();
     used_materials.insert({{"Default", 0}});
     object_name = "";
+    //usemtl applies to every following face, even if in another object
+    if(!material_name.empty())
+        current_material = use_material(material_name.c_str(), &used_materials);
     char token[TOKEN_SIZE];
     while(!buffer_ended(buffer, read_bytes, buffer_ro))
     {
@@ -166,29 +170,8 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                     //get material name
                     get_next_token(&buffer, token, TOKEN_SIZE,
                                    &read_bytes, buffer_ro, fin);
-                    //check if material was already used and s
-                    std::unordered_map<std::string, unsigned
-                    char>::const_iterator it = used_materials.find(token);
-                    if(it == used_materials.end())
-                    {
-                        const Bsdf* cur_mat = MtlLib.get(token);
-                        if(cur_mat == NULL)
-                        {
-                            //insert as default material
-                            used_materials.insert({{token, 0}});
-                            current_material = 0;
-                            Console.warning(MESSAGE_MISSING_MATERIAL,
-                                            token, path);
-                        }
-                        else
-                        {
-                            current_material = materials.size();
-                            used_materials.insert({{token, current_material}});
-                            materials.push_back(cur_mat);
-                        }
-                    }
-                    else
-                        current_material = it->second;
+                    material_name = token;
+                    current_material = use_material(token, &used_materials);
                 }
                 break;
             }
@@ -421,6 +404,28 @@ bool ParserObj::get_next_mesh(Mesh* obj)
     return retval;
 }
 
+unsigned char ParserObj::use_material(const char* name,
+                                      std::unordered_map<std::string,
+                                              unsigned char>* used_materials)
+{
+    //check if material was already used and s
+    std::unordered_map<std::string, unsigned char>::const_iterator it;
+    it = used_materials->find(name);
+    if(it != used_materials->end())
+        return it->second;
+    unsigned char retval = 0; //default material
+    const Bsdf* cur_mat = MtlLib.get(name);
+    if(cur_mat == NULL)
+        Console.warning(MESSAGE_MISSING_MATERIAL, name, path);
+    else
+    {
+        retval = (unsigned char)materials.size();
+        materials.push_back(cur_mat);
+    }
+    used_materials->insert({{name, retval}});
+    return retval;
+}
+
 void ParserObj::finalize_mesh(Mesh* obj)
 {
     //finalize mesh (to avoid freeing already freed object on dealloc)
diff --git a/src/parsers/parser_obj.hpp b/src/parsers/parser_obj.hpp
index 4ba7baf..5916f5c 100644
--- a/src/parsers/parser_obj.hpp
+++ b/src/parsers/parser_obj.hpp
@@ -25,6 +25,7 @@
 #include <cstring>
 #include <string>
 #include <cstdlib>
+#include <unordered_map>
 
 /**
  *  \class ParserObj parser_obj.hpp "parsers/parser_obj.hpp"
@@ -149,6 +150,11 @@ private:
     //used to finalize the mesh and remove unused but declared materials
     void finalize_mesh(Mesh* obj);
 
+    //position, in the materials array, of the material with the given name
+    unsigned char use_material(const char* name,
+                               std::unordered_map<std::string, unsigned char>*
+                               used_materials);
+
     //path of the parsed file
     const char* path;
     //input file
@@ -174,6 +180,8 @@ private:
     std::vector<unsigned char> material_association;
     //name of the mesh
     std::string object_name;
+    //last material requested by usemtl, empty if none
+    std::string material_name;
     //vertices of every mesh contained in the file
     std::vector<Point3> vertices;
     //texture coord of every mesh contained in the file
-- 
2.43.0


From 383cd94ac7f0cd9393bf1a06433826bd8183f98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:25 +0000
Subject: [PATCH 54/86] fix: obj: normal of faces starting with aligned corners

---
 src/parsers/parser_obj.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index 3c8e560..cc34f2b 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -315,7 +315,16 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                     Vec3 u = face_tmp[1].p-face_tmp[0].p;
                     Vec3 v = face_tmp[2].p-face_tmp[0].p;
                     Normal face_normal = (Normal)cross(u, v);
-                    face_normal.normalize();
+                    //the first corners could be on the same line
+                    for(size_t i = 3; i<face_tmp.size() &&
+                                      face_normal.length() == 0; i++)
+                    {
+                        u = face_tmp[i-1].p-face_tmp[0].p;
+                        v = face_tmp[i].p-face_tmp[0].p;
+                        face_normal = (Normal)cross(u, v);
+                    }
+                    if(face_normal.length()>0)
+                        face_normal.normalize();
                     for(int i = 0; i<(int)face_tmp.size(); i++)
                         face_tmp[i].n = face_normal;
                 }
-- 
2.43.0


From 72eca196d1b1046e3850a7a1d07c31ce976b35ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:38 +0000
Subject: [PATCH 55/86] fix: obj: comments after a face

---
 src/parsers/parser_obj.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsers/parser_obj.cpp b/src/parsers/parser_obj.cpp
index cc34f2b..846ddae 100644
--- a/src/parsers/parser_obj.cpp
+++ b/src/parsers/parser_obj.cpp
@@ -224,7 +224,8 @@ bool ParserObj::get_next_mesh(Mesh* obj)
                 {
                     get_next_token(&buffer, token, TOKEN_SIZE,
                                    &read_bytes, buffer_ro, fin);
-                    if(token[0] == '\0') //trailing spaces
+                    //trailing spaces or comment
+                    if(token[0] == '\0' || token[0] == '#')
                         break;
                     char* tk_idx = token; //token index
                     //process face
-- 
2.43.0


From a239a2143bc356463be387640c89b8804ec7a319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:18 +0000
Subject: [PATCH 56/86] fix: bvh: build a tree also when the surface of the
 boxes overflows

---
 src/accelerators/bvh.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/accelerators/bvh.cpp b/src/accelerators/bvh.cpp
index 25c4ca8..02a858e 100644
--- a/src/accelerators/bvh.cpp
+++ b/src/accelerators/bvh.cpp
@@ -131,14 +131,16 @@ static uint32_t findBestMatch(std::vector<BvhBuildNode*>* c, BvhBuildNode* b)
 {
     float best_area = INFINITY;
     uint32_t retval = 0; //if size == 1 return myself
+    bool found = false; //surface could be infinite, but a match is needed
     for(unsigned int i = 0; i<c->size(); i++) //linear search
     {
         if(c->at(i) != b)
         {
             AABB unionbox = c->at(i)->bounding+b->bounding;
             float val = unionbox.surface();
-            if(val<best_area)
+            if(val<best_area || !found)
             {
+                found = true;
                 retval = i;
                 best_area = val;
             }
@@ -169,12 +171,13 @@ static uint32_t combineCluster(std::vector<BvhBuildNode*>* c, int n, char axis)
     while((int)c->size()>n)
     {
         float best = INFINITY;
+        left = 0xFFFFFFFF;
         //find best of best-pairs
         for(unsigned int i = 0; i<c->size(); i++)
         {
             float val;
             val = (c->at(i)->bounding+c->at(closest[i])->bounding).surface();
-            if(val<best)
+            if(val<best || left == 0xFFFFFFFF)
             {
                 best = val;
                 left = i;
-- 
2.43.0


From 623b661063fd86148dce3b05492f66ae3e6e0963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:21 +0000
Subject: [PATCH 57/86] fix: bvh: do not merge the last node out of the cluster

---
 src/accelerators/bvh.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/accelerators/bvh.cpp b/src/accelerators/bvh.cpp
index 02a858e..aad9855 100644
--- a/src/accelerators/bvh.cpp
+++ b/src/accelerators/bvh.cpp
@@ -185,6 +185,10 @@ static uint32_t combineCluster(std::vector<BvhBuildNode*>* c, int n, char axis)
             }
         }
 
+        //the last node is moved in place of right, thus left can't be the last
+        if(left>right)
+            std::swap(left, right);
+
         //merge them together in a new node
         BvhBuildNode* node = new BvhBuildNode();
         created++;
-- 
2.43.0


From 2dc8b92410f4d8d85a8781a15e9affc25007e1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:32 +0000
Subject: [PATCH 58/86] fix: orthographic camera: differentials are one pixel
 away

---
 src/cameras/camera_orthographic.cpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/cameras/camera_orthographic.cpp b/src/cameras/camera_orthographic.cpp
index 219c1ba..014e446 100644
--- a/src/cameras/camera_orthographic.cpp
+++ b/src/cameras/camera_orthographic.cpp
@@ -58,20 +58,14 @@ CameraOrthographic::CameraOrthographic(const Point3* pos, const Point3* target,
     Matrix4 raster2screen(values);
     raster2world *= screen2camera;
     raster2world *= raster2screen;
-    Matrix4 raster2camera;
-    raster2camera.set_identity();
-    raster2camera *= screen2camera;
-    raster2camera *= raster2screen;
-    dx = raster2camera*Vec3(1, 0, 0);
-    dy = raster2camera*Vec3(0, -1, 0);
 }
 
 void CameraOrthographic::create_ray(const Sample* spl, Ray* ray, Ray* rx,
                                     Ray* ry) const
 {
     ray->origin = raster2world*Point3(spl->posx, spl->posy, 0);
-    rx->origin = raster2world*Point3(spl->posx+dx.x, spl->posy+dx.y, dx.z);
-    ry->origin = raster2world*Point3(spl->posx+dy.x, spl->posy+dy.y, dy.z);
+    rx->origin = raster2world*Point3(spl->posx+1, spl->posy, 0);
+    ry->origin = raster2world*Point3(spl->posx, spl->posy+1, 0);
     ray->direction = camera2world*Vec3(0, 0, 1);
     rx->direction = ray->direction;
     ry->direction = ray->direction;
-- 
2.43.0


From 65ea079a30540090e24171a4f4074bc3658b169e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:35 +0000
Subject: [PATCH 59/86] fix: resolve every . and .. when paths are joined

---
 src/utility/file.cpp | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/utility/file.cpp b/src/utility/file.cpp
index 60dfb90..5c3b8b9 100644
--- a/src/utility/file.cpp
+++ b/src/utility/file.cpp
@@ -66,7 +66,8 @@ static void append_relative(const char* abs, const char* relative, char* out)
     if(rel[0] == '.')
     {
         //resolve ../file
-        if(rel[1] == '.' && rel[2] == File::PATH_SEPARATOR)
+        if(rel[1] == '.' &&
+           (rel[2] == File::PATH_SEPARATOR || rel[2] == 0))
         {
             relative_index = 2;
             //backtrack to previous / in the absolute path
@@ -75,13 +76,21 @@ static void append_relative(const char* abs, const char* relative, char* out)
             while(absolute_index-->min_abs_index &&
                   out[absolute_index] != File::PATH_SEPARATOR);
         }
-        else if(rel[1] == File::PATH_SEPARATOR) //resolve ./file
+        //resolve ./file
+        else if(rel[1] == File::PATH_SEPARATOR || rel[1] == 0)
             relative_index = 1;
     }
-    if(rel[relative_index] != File::PATH_SEPARATOR &&
-        absolute_index > min_abs_index) //to avoid starting with \\ on win abs
+    if(absolute_index > min_abs_index) //to avoid starting with \\ on win abs
     {
-        out[absolute_index++] = File::PATH_SEPARATOR;
+        //the root folder already ends with a separator
+        bool separated = out[absolute_index-1] == File::PATH_SEPARATOR;
+        if(rel[relative_index] == File::PATH_SEPARATOR)
+        {
+            if(separated)
+                absolute_index--;
+        }
+        else if(!separated)
+            out[absolute_index++] = File::PATH_SEPARATOR;
     }
     /*
      *  at this point
@@ -111,9 +120,9 @@ static void append_relative(const char* abs, const char* relative, char* out)
                     //avoid out of bounds if too many ../../../
                     if(absolute_index<=min_abs_index+1)
                         continue;
-                    absolute_index -= 2;
-                    while((absolute_index--)>min_abs_index &&
-                          out[absolute_index] != File::PATH_SEPARATOR);
+                    //remove the last folder and the separator before it
+                    while(absolute_index > min_abs_index &&
+                          out[--absolute_index] != File::PATH_SEPARATOR);
                     continue;
                 }
             }
@@ -131,11 +140,14 @@ static void append_relative(const char* abs, const char* relative, char* out)
         out[absolute_index++] = rel[relative_index++];
     }
     //remove last trailing char, if exists and not root trailing
-    if(out[absolute_index - 1] == File::PATH_SEPARATOR &&
-        absolute_index > min_abs_index +1)
+    if(absolute_index > min_abs_index + 1 &&
+       out[absolute_index - 1] == File::PATH_SEPARATOR)
     {
         absolute_index--;
     }
+    //everything was removed by the various ../ , what remains is the root
+    if(absolute_index <= min_abs_index)
+        out[absolute_index++] = File::PATH_SEPARATOR;
     out[absolute_index] = 0;
     free(rel);
 }
-- 
2.43.0


From c85a16023ffef96f7f8aedb6147e4c22288d85fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:48 +0000
Subject: [PATCH 60/86] fix: name, extension and file info of a parent folder

---
 src/utility/file.cpp | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/src/utility/file.cpp b/src/utility/file.cpp
index 5c3b8b9..037d10c 100644
--- a/src/utility/file.cpp
+++ b/src/utility/file.cpp
@@ -327,8 +327,6 @@ File File::get_parent() const
     File retval(*this);
     if(!is_absolute(retval.file)) //not root
     {
-        int i = -1;
-        //starts from -1 up to - max_decrement
         int max_decrement = (int)(absolute-file);
         //root folder is the parent
 #ifdef _WIN32
@@ -336,38 +334,25 @@ File File::get_parent() const
         if(max_decrement == -3 && absolute[1] == ':' && absolute[2] == '\\')
         {
             retval.absolute[3] = 0;
-            retval.file = retval.absolute;
-            retval.ext = retval.absolute + 3;
         }
         //absolute path UNC is the parent
         else if(max_decrement == -2 && absolute[0] == '\\' && absolute[1] == '\\')
         {
             retval.absolute[2] = 0;
-            retval.file = retval.absolute;
-            retval.ext = retval.absolute + 2;
         }
 #else
         if(max_decrement == -1)
         {
             retval.absolute[1] = 0;
-            retval.file = retval.absolute;
-            retval.ext = retval.absolute+1;
         }
 #endif
         else
         {
             //replace the / right before the filename with 0
             retval.absolute[(retval.file-retval.absolute)-1] = 0;
-            //update the extension to be "" -> point to the newly inserted 0
-            retval.ext = retval.file-1;
-            //go back with the file pointer until the last /
-            while(i-->max_decrement && file[i] != File::PATH_SEPARATOR);
-            //if not root, point to the filename
-            if(i != max_decrement)
-                retval.file += i+1;
-            //else
-            /* do nothing, already catched in the max_decrement==-1 */;
         }
+        //filename, extension and info have to be those of the parent
+        return File(retval.absolute);
     }
     return retval;
 }
-- 
2.43.0


From 85bc9b676f23229d8bb51a81b38aa2128f2a73fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:01 +0000
Subject: [PATCH 61/86] fix: release the old path when a path is assigned

---
 src/utility/file.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utility/file.cpp b/src/utility/file.cpp
index 037d10c..4880b95 100644
--- a/src/utility/file.cpp
+++ b/src/utility/file.cpp
@@ -287,6 +287,9 @@ bool File::is_file() const
 
 File& File::operator=(const File& old)
 {
+    if(this == &old)
+        return *this;
+    free(File::absolute);
     File::absolute = (char*)malloc(sizeof(char)*(strlen(old.absolute)+1));
     strcpy(absolute, old.absolute);
     //recalculate offsets(since I cannot blindly copy pointers of other classes)
-- 
2.43.0


From 3f01d55e4b96facf533b8c4140c6906ac77bdd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:33 +0000
Subject: [PATCH 62/86] fix: name the folder when the output file is one

---
 src/cameras/image_film.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cameras/image_film.cpp b/src/cameras/image_film.cpp
index 5cfa2ef..f37101f 100644
--- a/src/cameras/image_film.cpp
+++ b/src/cameras/image_film.cpp
@@ -12,7 +12,7 @@ ImageFilm::ImageFilm(int width, int height, const char* fullpath)
     buffer.zero_out();
     if(output.exists() && output.is_folder())
     {
-        Console.critical(MESSAGE_OUTPUT_ISFOLDER);
+        Console.critical(MESSAGE_OUTPUT_ISFOLDER, output.absolute_path());
         return; // <- bail out in tests since critical msg does not kill program
     }
     File parent_folder = output.get_parent();
@@ -33,8 +33,8 @@ ImageFilm::ImageFilm(int width, int height, const char* fullpath)
             //check again the folder, since the extension changed it
             if(output.exists() && output.is_folder())
             {
-                Console.critical((const char*)MESSAGE_W_DENIED,
-                                 parent_folder.absolute_path());
+                Console.critical(MESSAGE_OUTPUT_ISFOLDER,
+                                 output.absolute_path());
                 return; //bail out during tests
             }
         }
-- 
2.43.0


From 0bf5e96c26fa14ff854f16c9a57a16747fa7eebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:43 +0000
Subject: [PATCH 63/86] fix: output names below a file or with a trailing
 separator

---
 src/cameras/image_film.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cameras/image_film.cpp b/src/cameras/image_film.cpp
index f37101f..f796c33 100644
--- a/src/cameras/image_film.cpp
+++ b/src/cameras/image_film.cpp
@@ -16,16 +16,16 @@ ImageFilm::ImageFilm(int width, int height, const char* fullpath)
         return; // <- bail out in tests since critical msg does not kill program
     }
     File parent_folder = output.get_parent();
-    if(parent_folder.writable())
+    if(parent_folder.is_folder() && parent_folder.writable())
     {
         //check extension, add .ppm if not supported
         bool supported = img_supported(output.extension());
-        int path_len = (int)strlen(fullpath)+1;
+        int path_len = (int)strlen(output.absolute_path())+1;
         //to add the .ppm at the end, if necessary
         if(!supported)
         {
             char* tmp_buf = (char*)malloc(sizeof(char)*path_len+4);
-            strcpy(tmp_buf, fullpath);
+            strcpy(tmp_buf, output.absolute_path());
             strcat(tmp_buf, ".ppm");
             output = File(tmp_buf);
             free(tmp_buf);
-- 
2.43.0


From 228339289db7cab6b77ceaedc3d30b3a370f1e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:55 +0000
Subject: [PATCH 64/86] fix: report that the image could not be saved

---
 src/renderer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/renderer.cpp b/src/renderer.cpp
index be781c1..7c88665 100644
--- a/src/renderer.cpp
+++ b/src/renderer.cpp
@@ -139,7 +139,11 @@ int Renderer::render(Scene* s)
 
     Console.log(MESSAGE_IMAGEO, NULL);
     //save the image
-    Renderer::film.save_image();
+    if(!Renderer::film.save_image())
+    {
+        Console.severe(MESSAGE_W_DENIED_RC);
+        return 1;
+    }
     Console.log(MESSAGE_BYE, NULL);
 
     return 0;
-- 
2.43.0


From 0c26d7c0729a11cd0a1b2e77093574b6435fa5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:32 +0000
Subject: [PATCH 65/86] fix: the field of view of scene files is in degrees

---
 src/parsers/config_driver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index ccb2c41..90eafc8 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -240,7 +240,7 @@ Camera* ConfigDriver::build_camera()
         case SPECTRE_CAMERA_PERSPECTIVE:
         default:
             camera = new CameraPerspective(&camera_pos, &camera_tar, &camera_up,
-                                           width, height, fov);
+                                           width, height, radians(fov));
             break;
     }
     return camera;
-- 
2.43.0


From 44691be1b04b534f946ab0342e563fd991828412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:48 +0000
Subject: [PATCH 66/86] fix: the rotation of scene files is in degrees

---
 src/parsers/config_driver.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index 90eafc8..dffdec5 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -617,9 +617,9 @@ void ConfigDriver::build_meshes()
         Matrix4 rotz_matrix;
         Matrix4 scale_matrix;
         position_matrix.set_translation(mesh_w.position);
-        rotx_matrix.set_rotate_x(mesh_w.rotation.x);
-        roty_matrix.set_rotate_y(mesh_w.rotation.y);
-        rotz_matrix.set_rotate_z(mesh_w.rotation.z);
+        rotx_matrix.set_rotate_x(radians(mesh_w.rotation.x));
+        roty_matrix.set_rotate_y(radians(mesh_w.rotation.y));
+        rotz_matrix.set_rotate_z(radians(mesh_w.rotation.z));
         rotation_matrix = rotz_matrix*roty_matrix*rotx_matrix;
         scale_matrix.set_scale(mesh_w.scale);
         //watchout the order!!!
-- 
2.43.0


From d3c1db535bc8022f48cd31014c41ad9aaa5e6d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:01 +0000
Subject: [PATCH 67/86] fix: keep the folder of the input file when loading
 children

---
 src/parsers/config_driver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index dffdec5..ea17556 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -72,7 +72,7 @@ Renderer* ConfigDriver::parse(const std::string& f, Scene* scene)
     {
         File file1 = is_absolute(consolidated_children[i].c_str())?
                      File(consolidated_children[i].c_str()):
-                     current_dir.append(consolidated_children[i].c_str());
+                     File(current_dir).append(consolidated_children[i].c_str());
         file = file1.absolute_path();
         if(file1.exists())
         {
-- 
2.43.0


From 3956567f40462811d04098d1d78e00d6acf73a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:14 +0000
Subject: [PATCH 68/86] fix: settings written in children files

---
 src/parsers/config_driver.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index ea17556..77632c3 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -52,17 +52,6 @@ Renderer* ConfigDriver::parse(const std::string& f, Scene* scene)
     yy::ConfigParser parser(*this);
     parser.parse();
     scan_end();
-    check_resolution();
-    check_spp();
-#ifdef DEBUG //single threaded
-    r = new Renderer(width, height, spp, output.c_str(), 1);
-#else //maximum threads
-    r = new Renderer(width,height,spp,output.c_str());
-#endif
-    r->set_sampler(sampler_type);
-    r->inherit_camera(build_camera());
-    r->inherit_filter(build_filter());
-    r->inherit_integrator(integrator);
 
     //load children files
     //avoid recursive children
@@ -88,6 +77,19 @@ Renderer* ConfigDriver::parse(const std::string& f, Scene* scene)
     consolidated_children.resize(0);
     children.resize(0);
 
+    //children can override the settings, so these are used only now
+    check_resolution();
+    check_spp();
+#ifdef DEBUG //single threaded
+    r = new Renderer(width, height, spp, output.c_str(), 1);
+#else //maximum threads
+    r = new Renderer(width,height,spp,output.c_str());
+#endif
+    r->set_sampler(sampler_type);
+    r->inherit_camera(build_camera());
+    r->inherit_filter(build_filter());
+    r->inherit_integrator(integrator);
+
     //build default sphere
     default_sphere = new Sphere();
     current_scene->inherit_shape(default_sphere);
-- 
2.43.0


From acf9ea83ea774ec01cbea5373e201360606e3c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:19 +0000
Subject: [PATCH 69/86] fix: texture filter written after the textures

---
 src/parsers/config_driver.cpp    | 26 ++++++++++++++++++++++++++
 src/parsers/config_driver.hpp    | 27 +++++++++++++++++++++++++++
 src/parsers/config_parser.tab.cc |  8 ++++----
 src/parsers/config_parser.y      |  8 ++++----
 4 files changed, 61 insertions(+), 8 deletions(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index 77632c3..91806a6 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -95,6 +95,7 @@ Renderer* ConfigDriver::parse(const std::string& f, Scene* scene)
     current_scene->inherit_shape(default_sphere);
 
     //build deferred objects
+    build_textures();
     build_materials();
     build_dualmaterials();
     for(unsigned int i = 0; i<deferred_shapes.size(); i++)
@@ -119,6 +120,7 @@ Renderer* ConfigDriver::parse(const std::string& f, Scene* scene)
 
     //delete everything else used for parsing
     all_textures.clear();
+    deferred_textures.clear();
     children.clear();
     deferred_materials.clear();
     deferred_dualmats.clear();
@@ -260,6 +262,30 @@ const TextureUniform* ConfigDriver::load_texture_uniform()
     return val;
 }
 
+void ConfigDriver::defer_texture()
+{
+    ParsedTexture texture;
+    texture.name = tex_name;
+    texture.src = tex_src;
+    texture.scale = tex_scale;
+    texture.shift = tex_shift;
+    deferred_textures.push_back(texture);
+    tex_name.clear(); //reset name for next texture
+    tex_scale = Vec2(1.f); //reset scaling for next texture
+    tex_shift = Vec2(); //reset shifting for next texture
+}
+
+void ConfigDriver::build_textures()
+{
+    for(int i = 0; i<(int)deferred_textures.size(); i++)
+    {
+        tex_name = deferred_textures[i].name;
+        tex_scale = deferred_textures[i].scale;
+        tex_shift = deferred_textures[i].shift;
+        load_texture(deferred_textures[i].src);
+    }
+}
+
 const TextureImage* ConfigDriver::load_texture(const std::string& path)
 {
 
diff --git a/src/parsers/config_driver.hpp b/src/parsers/config_driver.hpp
index 43a9523..6b125dd 100644
--- a/src/parsers/config_driver.hpp
+++ b/src/parsers/config_driver.hpp
@@ -195,6 +195,24 @@ public:
     {};
 };
 
+/// Struct used to hold information about a texture parsed by ConfigParser
+class ParsedTexture
+{
+public:
+
+    ///name of the texture, empty if it will be the name of the file
+    std::string name;
+
+    ///location on disk of the texture
+    std::string src;
+
+    ///Scaling factor of the texture
+    Vec2 scale;
+
+    ///Shift factor of the texture
+    Vec2 shift;
+};
+
 /// Struct used to hold information about a dualmaterial parsed by ConfigParser
 class ParsedDualMaterial
 {
@@ -389,6 +407,15 @@ public:
     ///Shift factor of the texture
     Vec2 tex_shift;
 
+    ///Textures to load after parsing, since they depend on the texture filter
+    std::vector<ParsedTexture> deferred_textures;
+
+    ///Put the texture currently parsed into the deferred_textures array
+    void defer_texture();
+
+    ///Load every texture of the deferred_textures array
+    void build_textures();
+
     ///Load a texture and the corresponding map given the path on disk
     const TextureImage* load_texture(const std::string& path);
 
diff --git a/src/parsers/config_parser.tab.cc b/src/parsers/config_parser.tab.cc
index e381c10..39a8446 100644
--- a/src/parsers/config_parser.tab.cc
+++ b/src/parsers/config_parser.tab.cc
@@ -869,25 +869,25 @@ namespace yy {
 
   case 69:
 #line 234 "config_parser.y" // lalr1.cc:859
-    {driver.tex_src=yystack_[0].value.as< std::string > ().substr(1,yystack_[0].value.as< std::string > ().size()-2);driver.load_texture(driver.tex_src);}
+    {driver.tex_src=yystack_[0].value.as< std::string > ().substr(1,yystack_[0].value.as< std::string > ().size()-2);driver.defer_texture();}
 #line 874 "config_parser.tab.cc" // lalr1.cc:859
     break;
 
   case 70:
 #line 235 "config_parser.y" // lalr1.cc:859
-    {driver.tex_src=yystack_[1].value.as< std::string > ().substr(1,yystack_[1].value.as< std::string > ().size()-2);driver.load_texture(driver.tex_src);}
+    {driver.tex_src=yystack_[1].value.as< std::string > ().substr(1,yystack_[1].value.as< std::string > ().size()-2);driver.defer_texture();}
 #line 880 "config_parser.tab.cc" // lalr1.cc:859
     break;
 
   case 71:
 #line 236 "config_parser.y" // lalr1.cc:859
-    {driver.tex_src=yystack_[0].value.as< std::string > ().substr(1,yystack_[0].value.as< std::string > ().size()-2);driver.load_texture(driver.tex_src);}
+    {driver.tex_src=yystack_[0].value.as< std::string > ().substr(1,yystack_[0].value.as< std::string > ().size()-2);driver.defer_texture();}
 #line 886 "config_parser.tab.cc" // lalr1.cc:859
     break;
 
   case 72:
 #line 237 "config_parser.y" // lalr1.cc:859
-    {driver.tex_src=yystack_[1].value.as< std::string > ().substr(1,yystack_[1].value.as< std::string > ().size()-2);driver.load_texture(driver.tex_src);}
+    {driver.tex_src=yystack_[1].value.as< std::string > ().substr(1,yystack_[1].value.as< std::string > ().size()-2);driver.defer_texture();}
 #line 892 "config_parser.tab.cc" // lalr1.cc:859
     break;
 
diff --git a/src/parsers/config_parser.y b/src/parsers/config_parser.y
index 401663a..71c349a 100644
--- a/src/parsers/config_parser.y
+++ b/src/parsers/config_parser.y
@@ -231,10 +231,10 @@ light_stmt
 ;
 
 texture_obj /* name is already known at this point */
-: SRC COLON STRING {driver.tex_src=$3.substr(1,$3.size()-2);driver.load_texture(driver.tex_src);}
-| SRC COLON STRING texture_rec {driver.tex_src=$3.substr(1,$3.size()-2);driver.load_texture(driver.tex_src);}
-| texture_rec SRC COLON STRING {driver.tex_src=$4.substr(1,$4.size()-2);driver.load_texture(driver.tex_src);}
-| texture_rec SRC COLON STRING texture_rec {driver.tex_src=$4.substr(1,$4.size()-2);driver.load_texture(driver.tex_src);}
+: SRC COLON STRING {driver.tex_src=$3.substr(1,$3.size()-2);driver.defer_texture();}
+| SRC COLON STRING texture_rec {driver.tex_src=$3.substr(1,$3.size()-2);driver.defer_texture();}
+| texture_rec SRC COLON STRING {driver.tex_src=$4.substr(1,$4.size()-2);driver.defer_texture();}
+| texture_rec SRC COLON STRING texture_rec {driver.tex_src=$4.substr(1,$4.size()-2);driver.defer_texture();}
 ;
 
 texture_rec:texture_rec texture_stmt|texture_stmt;
-- 
2.43.0


From 103c28c4041c116a755498f75a874b0822b4ff65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:34 +0000
Subject: [PATCH 70/86] fix: textures with the same file name in different
 folders

---
 src/parsers/config_driver.cpp | 17 +++++++++++++----
 src/parsers/config_driver.hpp |  3 +++
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index 91806a6..5f538e1 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -286,6 +286,15 @@ void ConfigDriver::build_textures()
     }
 }
 
+const TextureImage* ConfigDriver::resolve_texture(const std::string& name)
+{
+    if(TexLib.contains_texture(name))
+        return (TextureImage*)TexLib.get_texture(name);
+    //different folders could contain files with the same name
+    tex_name = name;
+    return load_texture(name);
+}
+
 const TextureImage* ConfigDriver::load_texture(const std::string& path)
 {
 
@@ -345,7 +354,7 @@ void ConfigDriver::build_materials()
             if(mat->diffuse.empty())
                 diffuse = TexLib.get_dflt_teximage();
             else
-                diffuse = load_texture(mat->diffuse);
+                diffuse = resolve_texture(mat->diffuse);
         }
         else
             diffuse = mat->diffuse_uniform;
@@ -356,7 +365,7 @@ void ConfigDriver::build_materials()
             if(mat->specular.empty())
                 specular = TexLib.get_dflt_teximage();
             else
-                specular = load_texture(mat->specular);
+                specular = resolve_texture(mat->specular);
         }
         else
             specular = mat->specular_uniform;
@@ -383,7 +392,7 @@ void ConfigDriver::build_materials()
                        (const TextureImage*)load_texture(mat->bump), RED);
             ```
              */
-            bump_map = new TextureNormal((const TextureImage*)load_texture(mat->bump));
+            bump_map = new TextureNormal(resolve_texture(mat->bump));
         }
         else
             bump_map = new Bump();
@@ -727,7 +736,7 @@ MaskBoolean ConfigDriver::build_mask(const ParsedMask& mask)
         map = NULL;
     else
     {
-        map = load_texture(mask.mask_tex);
+        map = resolve_texture(mask.mask_tex);
     }
     return MaskBoolean(map, mask.mask_chn, mask.mask_inv);
 }
diff --git a/src/parsers/config_driver.hpp b/src/parsers/config_driver.hpp
index 6b125dd..a568526 100644
--- a/src/parsers/config_driver.hpp
+++ b/src/parsers/config_driver.hpp
@@ -416,6 +416,9 @@ public:
     ///Load every texture of the deferred_textures array
     void build_textures();
 
+    ///Get the texture with the given name or, if missing, located at that path
+    const TextureImage* resolve_texture(const std::string& name);
+
     ///Load a texture and the corresponding map given the path on disk
     const TextureImage* load_texture(const std::string& path);
 
-- 
2.43.0


From 297f2f72b74f61a54ce18235c3bae20d9ff29198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:47 +0000
Subject: [PATCH 71/86] fix: disable the mask when its texture is missing

---
 src/parsers/config_driver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index 5f538e1..3814c48 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -737,6 +737,9 @@ MaskBoolean ConfigDriver::build_mask(const ParsedMask& mask)
     else
     {
         map = resolve_texture(mask.mask_tex);
+        //not found, disable the mask instead of using the default texture
+        if(map == TexLib.get_dflt_teximage())
+            map = NULL;
     }
     return MaskBoolean(map, mask.mask_chn, mask.mask_inv);
 }
-- 
2.43.0


From 44d0bdf0ba8ed2259bb76ad8f763d016d8593ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:00 +0000
Subject: [PATCH 72/86] fix: no normal map when its texture is missing

---
 src/parsers/config_driver.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index 3814c48..6bd601c 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -392,7 +392,12 @@ void ConfigDriver::build_materials()
                        (const TextureImage*)load_texture(mat->bump), RED);
             ```
              */
-            bump_map = new TextureNormal(resolve_texture(mat->bump));
+            const TextureImage* normals = resolve_texture(mat->bump);
+            //the default texture does not contain normals
+            if(normals != TexLib.get_dflt_teximage())
+                bump_map = new TextureNormal(normals);
+            else
+                bump_map = new Bump();
         }
         else
             bump_map = new Bump();
-- 
2.43.0


From 096d2d40c2a1e7cfadf9a03084ccd1e17584997a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:15 +0000
Subject: [PATCH 73/86] fix: report missing materials in dual materials

---
 src/parsers/config_driver.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index 6bd601c..82d4bff 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -551,11 +551,21 @@ void ConfigDriver::build_dualmaterials()
         if(MtlLib.contains(mat->first))
             first = MtlLib.get(mat->first);
         else
+        {
             first = MtlLib.get_default();
+            if(!mat->first.empty())
+                Console.warning(MESSAGE_MISSING_MATERIAL, mat->first.c_str(),
+                                mat->name.c_str());
+        }
         if(MtlLib.contains(mat->second))
             second = MtlLib.get(mat->second);
         else
+        {
             second = MtlLib.get_default();
+            if(!mat->second.empty())
+                Console.warning(MESSAGE_MISSING_MATERIAL, mat->second.c_str(),
+                                mat->name.c_str());
+        }
         material = new DualBsdf(first, second, build_mask(mat->mask));
         MtlLib.add_inherit(mat->name, material);
     }
-- 
2.43.0


From 09b268b57c893ad9049ae42c7c961329622e980e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:09 +0000
Subject: [PATCH 74/86] fix: errors after a NUL byte, in long lines or close to
 the end of the file

---
 src/parsers/config_driver.cpp | 11 +++++++----
 src/parsers/config_lexer.l    |  9 ++++++---
 src/parsers/lex.yy.cc         |  9 ++++++---
 3 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/parsers/config_driver.cpp b/src/parsers/config_driver.cpp
index 82d4bff..8e39e4b 100644
--- a/src/parsers/config_driver.cpp
+++ b/src/parsers/config_driver.cpp
@@ -178,12 +178,15 @@ void ConfigDriver::error(const yy::location& l, const std::string& m)
         char buf[128];
         char under[128];
         int offset = get_line(buf, 128);
-        for(unsigned int i = 0; i<l.begin.column-1-offset; i++)
+        //a long token could start before the part of the line in the buffer
+        int begin = max((int)l.begin.column-1-offset, 0);
+        int end = clamp((int)end_col-offset, begin, BUFFER-1);
+        for(int i = 0; i<begin; i++)
             under[i] = ' ';
-        for(unsigned int i = l.begin.column-1-offset; i<end_col-offset; i++)
+        for(int i = begin; i<end; i++)
             under[i] = '~';
-        under[end_col-offset] = 0;
-        Console.critical("%s:%d.%d: " BLD "%s" NRM "\n%s\n%" GRN "%s" NRM,
+        under[end] = 0;
+        Console.critical("%s:%d.%d: " BLD "%s" NRM "\n%s\n" GRN "%s" NRM,
                          file.c_str(), l.end.line, end_col, m.c_str(), buf,
                          under);
     }
diff --git a/src/parsers/config_lexer.l b/src/parsers/config_lexer.l
index f5f8ff8..ec5bd6c 100644
--- a/src/parsers/config_lexer.l
+++ b/src/parsers/config_lexer.l
@@ -57,7 +57,7 @@ zirconium [Zz][Rr]
 
 %{
     #define YY_USER_ACTION loc.columns(yyleng);
-    #define UPDATE_POS current_pos+=strlen(yytext)
+    #define UPDATE_POS current_pos+=yyleng
 %}
 
 %%
@@ -177,7 +177,7 @@ second {UPDATE_POS; return yy::ConfigParser::make_SECOND(loc);}
 [ \t\r]   {UPDATE_POS; loc.step();}
 [\n]     {UPDATE_POS; loc.lines(yyleng);loc.step(); last_line_pos=current_pos; }
 .        {UPDATE_POS; driver.unknown_char(loc,yytext[0]);}
-<<EOF>>            { UPDATE_POS; return yy::ConfigParser::make_END(loc); }
+<<EOF>>            { return yy::ConfigParser::make_END(loc); }
 
 %%
 
@@ -209,7 +209,10 @@ int ConfigDriver::get_line(char* buf,int len)
         line_offset = last_line_pos-line_offset;
     }
     fseek(yyin,last_line_pos,SEEK_SET);
-    fread(buf,sizeof(char),len,yyin);
+    //file could end before filling the buffer
+    size_t read = fread(buf,sizeof(char),len,yyin);
+    if(read<(size_t)len)
+        buf[read] = 0;
     int i = 0;
     while(i<len)
     {
diff --git a/src/parsers/lex.yy.cc b/src/parsers/lex.yy.cc
index ecb8d8d..40e2c25 100644
--- a/src/parsers/lex.yy.cc
+++ b/src/parsers/lex.yy.cc
@@ -751,7 +751,7 @@ long int last_line_pos;
 #define YY_NO_UNISTD_H 1
 #line 59 "config_lexer.l"
     #define YY_USER_ACTION loc.columns(yyleng);
-    #define UPDATE_POS current_pos+=strlen(yytext)
+    #define UPDATE_POS current_pos+=yyleng
 #line 756 "lex.yy.c"
 #line 757 "lex.yy.c"
 
@@ -1592,7 +1592,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case YY_STATE_EOF(INITIAL):
 #line 181 "config_lexer.l"
-{ UPDATE_POS; return yy::ConfigParser::make_END(loc); }
+{ return yy::ConfigParser::make_END(loc); }
 	YY_BREAK
 case 113:
 YY_RULE_SETUP
@@ -2597,7 +2597,10 @@ int ConfigDriver::get_line(char* buf,int len)
         line_offset = last_line_pos-line_offset;
     }
     fseek(yyin,last_line_pos,SEEK_SET);
-    fread(buf,sizeof(char),len,yyin);
+    //file could end before filling the buffer
+    size_t read = fread(buf,sizeof(char),len,yyin);
+    if(read<(size_t)len)
+        buf[read] = 0;
     int i = 0;
     while(i<len)
     {
-- 
2.43.0


From 1927ee72842ad9e34705101552e18b4bb44c95fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:24 +0000
Subject: [PATCH 75/86] fix: position of errors in children files

---
 src/parsers/config_lexer.l | 1 +
 src/parsers/lex.yy.cc      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/parsers/config_lexer.l b/src/parsers/config_lexer.l
index ec5bd6c..af1cfdf 100644
--- a/src/parsers/config_lexer.l
+++ b/src/parsers/config_lexer.l
@@ -186,6 +186,7 @@ void ConfigDriver::scan_begin()
     errno = 0;
     current_pos = 0;
     last_line_pos = 0;
+    loc.initialize(); //of the previous file
     yyin = fopen(file.c_str(), "r");
     if(!yyin)
         Console.critical(MESSAGE_INPUT_ERROR,file.c_str(),strerror(errno));
diff --git a/src/parsers/lex.yy.cc b/src/parsers/lex.yy.cc
index 40e2c25..24d319a 100644
--- a/src/parsers/lex.yy.cc
+++ b/src/parsers/lex.yy.cc
@@ -2574,6 +2574,7 @@ void ConfigDriver::scan_begin()
     errno = 0;
     current_pos = 0;
     last_line_pos = 0;
+    loc.initialize(); //of the previous file
     yyin = fopen(file.c_str(), "r");
     if(!yyin)
         Console.critical(MESSAGE_INPUT_ERROR,file.c_str(),strerror(errno));
-- 
2.43.0


From 327fe91958b3715b2ea0e24e3eb1895535b56bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:37 +0000
Subject: [PATCH 76/86] fix: integers that do not fit an int

---
 src/parsers/config_lexer.l | 12 ++++++++++--
 src/parsers/lex.yy.cc      | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/parsers/config_lexer.l b/src/parsers/config_lexer.l
index af1cfdf..a632766 100644
--- a/src/parsers/config_lexer.l
+++ b/src/parsers/config_lexer.l
@@ -15,6 +15,14 @@
 static yy::location loc;
 long int current_pos;
 long int last_line_pos;
+
+//integers too big for an int can still be used where a float is expected
+static bool fits_integer(const char* text)
+{
+    errno = 0;
+    long int value = strtol(text, NULL, 10);
+    return errno != ERANGE && value >= INT_MIN && value <= INT_MAX;
+}
 %}
 %option nounput
 %option noinput
@@ -140,8 +148,8 @@ inverted {UPDATE_POS; return yy::ConfigParser::make_INV(loc);}
 mask {UPDATE_POS; return yy::ConfigParser::make_MASK(loc);}
 first {UPDATE_POS; return yy::ConfigParser::make_FIRST(loc);}
 second {UPDATE_POS; return yy::ConfigParser::make_SECOND(loc);}
-{uint}    { UPDATE_POS; return yy::ConfigParser::make_UINT(atoi(yytext),loc); }
-{int}    { UPDATE_POS; return yy::ConfigParser::make_INT(atoi(yytext),loc); }
+{uint}    { UPDATE_POS; return fits_integer(yytext)?yy::ConfigParser::make_UINT(atoi(yytext),loc):yy::ConfigParser::make_FLOAT(atof(yytext),loc); }
+{int}    { UPDATE_POS; return fits_integer(yytext)?yy::ConfigParser::make_INT(atoi(yytext),loc):yy::ConfigParser::make_FLOAT(atof(yytext),loc); }
 {float} { UPDATE_POS; return yy::ConfigParser::make_FLOAT(atof(yytext),loc); }
 {string} { UPDATE_POS; return yy::ConfigParser::make_STRING(yytext,loc); }
 {silver} { UPDATE_POS; return yy::ConfigParser::make_SILVER(loc);}
diff --git a/src/parsers/lex.yy.cc b/src/parsers/lex.yy.cc
index 24d319a..08725da 100644
--- a/src/parsers/lex.yy.cc
+++ b/src/parsers/lex.yy.cc
@@ -746,6 +746,14 @@ char *yytext;
 static yy::location loc;
 long int current_pos;
 long int last_line_pos;
+
+//integers too big for an int can still be used where a float is expected
+static bool fits_integer(const char* text)
+{
+    errno = 0;
+    long int value = strtol(text, NULL, 10);
+    return errno != ERANGE && value >= INT_MIN && value <= INT_MAX;
+}
 #line 750 "lex.yy.c"
 #define YY_NO_INPUT 1
 #define YY_NO_UNISTD_H 1
@@ -1406,12 +1414,12 @@ YY_RULE_SETUP
 case 76:
 YY_RULE_SETUP
 #line 144 "config_lexer.l"
-{ UPDATE_POS; return yy::ConfigParser::make_UINT(atoi(yytext),loc); }
+{ UPDATE_POS; return fits_integer(yytext)?yy::ConfigParser::make_UINT(atoi(yytext),loc):yy::ConfigParser::make_FLOAT(atof(yytext),loc); }
 	YY_BREAK
 case 77:
 YY_RULE_SETUP
 #line 145 "config_lexer.l"
-{ UPDATE_POS; return yy::ConfigParser::make_INT(atoi(yytext),loc); }
+{ UPDATE_POS; return fits_integer(yytext)?yy::ConfigParser::make_INT(atoi(yytext),loc):yy::ConfigParser::make_FLOAT(atof(yytext),loc); }
 	YY_BREAK
 case 78:
 YY_RULE_SETUP
-- 
2.43.0


From bc476f8185af96d7af9d738ebdf379267ba39ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:37 +0000
Subject: [PATCH 77/86] fix: reject the unsupported bump keyword

---
 src/parsers/config_lexer.l | 2 +-
 src/parsers/lex.yy.cc      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/config_lexer.l b/src/parsers/config_lexer.l
index a632766..04d3e8d 100644
--- a/src/parsers/config_lexer.l
+++ b/src/parsers/config_lexer.l
@@ -133,7 +133,7 @@ anisotropy { UPDATE_POS; return yy::ConfigParser::make_ANISOTROPY(loc); }
 distribution { UPDATE_POS; return yy::ConfigParser::make_DISTRIBUTION(loc); }
 diffuse { UPDATE_POS; return yy::ConfigParser::make_DIFFUSE(loc); }
 specular { UPDATE_POS; return yy::ConfigParser::make_SPECULAR(loc); }
-bump {/* UPDATE_POS; return yy::ConfigParser::make_BUMP(loc); */}
+bump {UPDATE_POS; driver.unknown_char(loc,yytext[0]);} /* unsupported */
 normal {UPDATE_POS; return yy::ConfigParser::make_NORMAL(loc);}
 blinn { UPDATE_POS; return yy::ConfigParser::make_BLINN(loc); }
 beckmann { UPDATE_POS; return yy::ConfigParser::make_BECKMANN(loc); }
diff --git a/src/parsers/lex.yy.cc b/src/parsers/lex.yy.cc
index 08725da..246b1b5 100644
--- a/src/parsers/lex.yy.cc
+++ b/src/parsers/lex.yy.cc
@@ -1339,7 +1339,7 @@ YY_RULE_SETUP
 case 61:
 YY_RULE_SETUP
 #line 129 "config_lexer.l"
-{/* UPDATE_POS; return yy::ConfigParser::make_BUMP(loc); */}
+{UPDATE_POS; driver.unknown_char(loc,yytext[0]);} /* unsupported */
 	YY_BREAK
 case 62:
 YY_RULE_SETUP
-- 
2.43.0


From 2e66d8e5239c89dac92625ada6e64bbb346d7787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:23 +0000
Subject: [PATCH 78/86] fix: terminate the line printed in syntax errors

---
 src/parsers/config_lexer.l | 2 ++
 src/parsers/lex.yy.cc      | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/parsers/config_lexer.l b/src/parsers/config_lexer.l
index 04d3e8d..c7a2708 100644
--- a/src/parsers/config_lexer.l
+++ b/src/parsers/config_lexer.l
@@ -243,6 +243,8 @@ int ConfigDriver::get_line(char* buf,int len)
         buf[0] = '.';
         buf[1] = '.';
         buf[2] = '.';
+        if(i<3) //the dots replaced the terminator
+            buf[3] = 0;
     }
     return line_offset;
 }
diff --git a/src/parsers/lex.yy.cc b/src/parsers/lex.yy.cc
index 246b1b5..edc1512 100644
--- a/src/parsers/lex.yy.cc
+++ b/src/parsers/lex.yy.cc
@@ -2631,6 +2631,8 @@ int ConfigDriver::get_line(char* buf,int len)
         buf[0] = '.';
         buf[1] = '.';
         buf[2] = '.';
+        if(i<3) //the dots replaced the terminator
+            buf[3] = 0;
     }
     return line_offset;
 }
-- 
2.43.0


From 2b34b5c19c24075c46392aaaefc161b2b9fc6416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:49 +0000
Subject: [PATCH 79/86] fix: measure distance and density of area lights in
 world space

---
 src/lights/area_light.cpp | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/lights/area_light.cpp b/src/lights/area_light.cpp
index 1b54aa1..d851e74 100644
--- a/src/lights/area_light.cpp
+++ b/src/lights/area_light.cpp
@@ -60,8 +60,8 @@ AreaLight::sample_visible_surface(float r0, float r1, const Point3* pos,
 {
     Normal normal;
     Point3 light_point; //object space
-    Ray ray;
-    ray.origin = worldToObj**pos;
+    Ray ray; //world space
+    ray.origin = *pos;
 
     //generate random origin point of the emitted radiance in the surface of the
     //underlying model of the light
@@ -70,13 +70,13 @@ AreaLight::sample_visible_surface(float r0, float r1, const Point3* pos,
     //in the next steps a ray originating from the current_pos and pointing to
     //the sampled point is tested against the light. This because if the sampled
     //point is on the backface, a point facing the current_pos is selected
-    ray.direction = light_point-ray.origin;
+    ray.direction = objToWorld*light_point-ray.origin;
     ray.direction.normalize();
     HitPoint hit;
     *distance = FLT_MAX;
     //will always succeed
 //    bool res=
-    AreaLight::model->intersect(&ray, distance, &hit, &mask);
+    AreaLight::intersect(&ray, distance, &hit);
     //erase the next if after all the intersections are tried
     //TODO: now this should never happen and has been commented. Tried
     //blackbox testing for something like 1 hour, but maybe for newer
@@ -88,7 +88,7 @@ AreaLight::sample_visible_surface(float r0, float r1, const Point3* pos,
 //        return SPECTRUM_BLACK;
 //    }
     light_point = ray.apply(*distance);
-    normal = hit.normal_h; //object space
+    normal = hit.normal_h;
     *wi = ray.direction;
     *pdf = (ray.origin.x-light_point.x)*(ray.origin.x-light_point.x)+
            (ray.origin.y-light_point.y)*(ray.origin.y-light_point.y)+
@@ -101,28 +101,22 @@ AreaLight::sample_visible_surface(float r0, float r1, const Point3* pos,
         return SPECTRUM_BLACK;
     }
 
-    //convert wi to world space
     Spectrum retval;
     if(dot(normal, -(*wi))>0) //cos between ray and hit point normal > 0
         retval = AreaLight::c;
     else
         retval = SPECTRUM_BLACK;
-
-    *wi = AreaLight::objToWorld**wi;
-    wi->normalize();
     return retval;
 }
 
 float AreaLight::pdf(const Point3* p, const Vec3* wi) const
 {
-    Ray ray;
-    ray.origin = AreaLight::worldToObj**p;
-    ray.direction = AreaLight::worldToObj**wi;
+    Ray ray(*p, *wi);
     HitPoint hit;
     float distance = FLT_MAX;
     //here success is not guaranteed, maybe the wi vector is random
     //need to check if the intersection can happen
-    bool res = AreaLight::model->intersect(&ray, &distance, &hit, &mask);
+    bool res = AreaLight::intersect(&ray, &distance, &hit);
     if(!res)
         return 0;
     Point3 light_point = ray.apply(distance);
-- 
2.43.0


From cef05d185cc7e8804b6b00d4b4d70084da7b04b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:02 +0000
Subject: [PATCH 80/86] fix: sample the emission of area lights in world space

---
 src/lights/area_light.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lights/area_light.cpp b/src/lights/area_light.cpp
index d851e74..63eda19 100644
--- a/src/lights/area_light.cpp
+++ b/src/lights/area_light.cpp
@@ -32,6 +32,9 @@ Spectrum AreaLight::sample_surface(float r0, float r1, float r2, float r3,
     //generate random origin point of the emitted radiance in the surface of the
     //underlying model of the light
     AreaLight::model->sample_point(r0, r1, cd, &(out->origin), &n);
+    //object space to world space
+    out->origin = AreaLight::objToWorld*out->origin;
+    n = transform_normal(n, &(AreaLight::worldToObj));
 
     //generate random direction (uniform sphere sampling)
     float z = 1.f-2.f*r2;
@@ -49,8 +52,6 @@ Spectrum AreaLight::sample_surface(float r0, float r1, float r2, float r3,
     //1/2pi instead of 1/4pi because the direction is flipped if wrong
     //so in the end is an hemisphere sampling
     *pdf = AreaLight::invarea*INV_TWOPI;
-    //objspace to world space
-    *out = AreaLight::objToWorld**out;
     return AreaLight::c;
 }
 
-- 
2.43.0


From 4329479a9c680eb0a7c6f847972291bdd7b6cfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:28 +0000
Subject: [PATCH 81/86] fix: count the emission of lights once

---
 src/integrators/ray_tracer.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/integrators/ray_tracer.cpp b/src/integrators/ray_tracer.cpp
index 163d0a9..112ae2a 100644
--- a/src/integrators/ray_tracer.cpp
+++ b/src/integrators/ray_tracer.cpp
@@ -10,9 +10,6 @@ direct_l(const Scene* sc, const HitPoint* hp, const Ray* r, Sampler* sam,
 {
     Spectrum L = SPECTRUM_BLACK;
     int nlights = sc->size_lights();
-    if(hp->asset_h->is_light())
-        if(dot(*normal_s, -r->direction)>0)
-            L += ((AreaLight*)hp->asset_h)->emissive_spectrum();
     if(nlights>0)
     {
         float rand[6];
-- 
2.43.0


From 2082be57b5a707e8a042abf9cd7d684285454f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:41 +0000
Subject: [PATCH 82/86] fix: compensate paths surviving the russian roulette

---
 src/integrators/path_tracer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/integrators/path_tracer.cpp b/src/integrators/path_tracer.cpp
index 6f19314..9dff24a 100644
--- a/src/integrators/path_tracer.cpp
+++ b/src/integrators/path_tracer.cpp
@@ -44,7 +44,7 @@ Spectrum PathTracer::l_rec(const Scene* sc, const HitPoint* hp, const Ray* r,
         if(rand[0]<term)
             return retval;
         else
-            rrprob = term; //survived russian roulette, need to cut down contrib
+            rrprob = 1.f/(1.f-term); //survived russian roulette, compensate
     }
     if(r->ricochet == DEFAULT_BOUNCES)
         return retval;
-- 
2.43.0


From 6eac99692ee2380cccbe2a60c6a03795302163ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:54 +0000
Subject: [PATCH 83/86] fix: weight the sampled light with the number of lights

---
 src/integrators/ray_tracer.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/integrators/ray_tracer.cpp b/src/integrators/ray_tracer.cpp
index 112ae2a..3b3a439 100644
--- a/src/integrators/ray_tracer.cpp
+++ b/src/integrators/ray_tracer.cpp
@@ -39,8 +39,8 @@ direct_l(const Scene* sc, const HitPoint* hp, const Ray* r, Sampler* sam,
                 {
                     float weight = (lightpdf*lightpdf)/
                                    (lightpdf*lightpdf+bsdfpdf*bsdfpdf);
-                    L += bsdf_f*direct_l*absdot(wi, *normal_s)*weight/
-                         lightpdf;
+                    L += bsdf_f*direct_l*absdot(wi, *normal_s)*weight*
+                         (float)nlights/lightpdf;
                 }
             }
         }
@@ -65,7 +65,8 @@ direct_l(const Scene* sc, const HitPoint* hp, const Ray* r, Sampler* sam,
                     if(dot(h2.normal_h, -r2.direction)>0)
                     {
                         Spectrum rad = light->emissive_spectrum();
-                        L += bsdf_f*rad*absdot(wi, *normal_s)*w/bsdfpdf;
+                        L += bsdf_f*rad*absdot(wi, *normal_s)*w*
+                             (float)nlights/bsdfpdf;
                     }
         }
     }
-- 
2.43.0


From 56732581776aee663c8331f4f0a5f99d405a33ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:42 +0000
Subject: [PATCH 84/86] fix: progress bar: read the queue with its lock

---
 src/renderer.cpp | 23 +++++++++++++----------
 src/renderer.hpp |  7 +++++--
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/renderer.cpp b/src/renderer.cpp
index 7c88665..fca493e 100644
--- a/src/renderer.cpp
+++ b/src/renderer.cpp
@@ -9,8 +9,8 @@ static void executor(Camera* camera, ImageFilm* film, std::mutex* lock, int spp,
                      Scene* scene, LightIntegrator* mc_solver);
 
 
-static void progressBar(std::stack<Renderer_task>* jobs, unsigned long ts,
-                        bool& alive);
+static void progressBar(std::stack<Renderer_task>* jobs, std::mutex* lock,
+                        unsigned long ts, std::atomic<bool>& alive);
 
 Renderer::Renderer(int width, int height, int spp, const char* out,
                    int thread_number):film(width, height, out)
@@ -111,7 +111,7 @@ int Renderer::render(Scene* s)
         }
     }
     steady_clock::time_point a = steady_clock::now();
-    RendererProgressBar progress_bar(&jobs);
+    RendererProgressBar progress_bar(&jobs, &jobs_mtx);
     //create threads
     for(int i = 0; i<Renderer::numthreads; i++)
     {
@@ -249,12 +249,13 @@ void executor(Camera* camera, ImageFilm* film, std::mutex* lock, int spp,
     film->add_pixel_forced(&ex);
 }
 
-RendererProgressBar::RendererProgressBar(std::stack<Renderer_task>* jobs)
+RendererProgressBar::RendererProgressBar(std::stack<Renderer_task>* jobs,
+                                         std::mutex* lock)
 {
     RendererProgressBar::jobs = jobs;
     RendererProgressBar::alive = true;
-    RendererProgressBar::listener = std::thread(progressBar, jobs, jobs->size(),
-                                                std::ref(alive));
+    RendererProgressBar::listener = std::thread(progressBar, jobs, lock,
+                                                jobs->size(), std::ref(alive));
 }
 
 RendererProgressBar::~RendererProgressBar()
@@ -274,8 +275,8 @@ void RendererProgressBar::kill()
     Console.progress_bar_done();
 }
 
-void progressBar(std::stack<Renderer_task>* jobs, unsigned long jobs_no,
-                 bool& alive)
+void progressBar(std::stack<Renderer_task>* jobs, std::mutex* lock,
+                 unsigned long jobs_no, std::atomic<bool>& alive)
 {
     unsigned long remaining;
     float done;
@@ -284,8 +285,10 @@ void progressBar(std::stack<Renderer_task>* jobs, unsigned long jobs_no,
     time_t eta;
     while(alive)
     {
-        remaining = jobs->size(); //I don't care about dirty reads, it's an
-        current_time = time(NULL); //eta, I cannot block n threads for an eta
+        lock->lock(); //once every few seconds, the workers won't notice
+        remaining = jobs->size();
+        lock->unlock();
+        current_time = time(NULL);
         done = (float)(jobs_no-remaining)/(float)jobs_no;
         eta = (time_t)((float)(current_time-start_time)/(jobs_no-remaining)*
                        remaining);
diff --git a/src/renderer.hpp b/src/renderer.hpp
index 75b7671..c17cc09 100644
--- a/src/renderer.hpp
+++ b/src/renderer.hpp
@@ -28,6 +28,8 @@
 #include "settings.h"
 #include <thread> //std::thread
 #include <stack> //std::stack
+#include <atomic> //std::atomic
+#include <mutex> //std::mutex
 #include <chrono> //std::this_thread::sleep_for, platform independent
 #include <ctime> //time for srand
 
@@ -60,8 +62,9 @@ public:
     /** \brief Default constructor
      *
      * \param[in] jobs The job queue
+     * \param[in] lock The mutex protecting the job queue
      */
-    RendererProgressBar(std::stack<Renderer_task>* jobs);
+    RendererProgressBar(std::stack<Renderer_task>* jobs, std::mutex* lock);
 
     ///Default destructor
     ~RendererProgressBar();
@@ -78,7 +81,7 @@ private:
     std::thread listener;
 
     //used to terminate the thread
-    bool alive;
+    std::atomic<bool> alive;
 };
 
 /**
-- 
2.43.0


From 79791517629fefbfb1eef7b9e5d5d6f9dac461cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:03 +0000
Subject: [PATCH 85/86] fix: normal maps tilt the shading frame

---
 src/textures/texture_normal.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/textures/texture_normal.cpp b/src/textures/texture_normal.cpp
index 6273fb7..866e97e 100644
--- a/src/textures/texture_normal.cpp
+++ b/src/textures/texture_normal.cpp
@@ -29,17 +29,17 @@ TextureNormal::bump(const HitPoint* hp, ShadingSpace* matrix,
 
     Vec3 normal_shading(x, y, z);
 
-    ShadingSpace old;
-    old.s = hp->dpdu;
-    old.s.normalize();
-    old.n = (Normal)cross(hp->dpdu, hp->dpdv).normalize();
-    old.t = cross(old.s, (Vec3)old.n).normalize();
+    //the frame without the map. The green channel points against dpdv, that is,
+    //towards the top of the image
+    ShadingSpace old(hp);
+    if(dot(old.t, hp->dpdv)>0)
+        old.t = -old.t;
 
     matrix->n = (Normal)(old.to_world(normal_shading)).normalize();
+    if(dot(matrix->n, hp->normal_h)<0)
+        matrix->n *= -1;
     matrix->s = (hp->dpdu-
                  (Vec3)(matrix->n*dot(matrix->n, hp->dpdu))).normalize();
     matrix->t = cross(Vec3(matrix->n), matrix->s).normalize();
     *normal = matrix->n;
-    if(dot(*normal,hp->normal_h)<0)
-        *normal*=-1;
 }
-- 
2.43.0


From 5ceb03f040cd54e88ace7e6d7910b996e8ac7e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:33 +0000
Subject: [PATCH 86/86] fix: height maps without differentials

---
 src/textures/texture_height.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/textures/texture_height.cpp b/src/textures/texture_height.cpp
index d178ca7..0ced00c 100644
--- a/src/textures/texture_height.cpp
+++ b/src/textures/texture_height.cpp
@@ -27,8 +27,11 @@ void TextureHeight::gradient(const HitPoint* hp, float* u, float* v) const
     original = *(&(tex.b)+channel);
 #endif
 
-    float epsilon_u = 0.5f*(fabsf(hp->du.x)+fabsf(hp->du.y));
-    if(epsilon_u == 0)
+    //without differentials du and dv are not set
+    float epsilon_u = 0.f;
+    if(hp->differentials)
+        epsilon_u = 0.5f*(fabsf(hp->du.x)+fabsf(hp->du.y));
+    if(epsilon_u == 0.f)
         epsilon_u = 0.01f;
     shifted.point_h = hp->point_h+hp->dpdu*epsilon_u;
     shifted.uv = hp->uv;
@@ -41,7 +44,9 @@ void TextureHeight::gradient(const HitPoint* hp, float* u, float* v) const
     shifted_u = *(&(tex.b)+channel);
 #endif
 
-    float epsilon_v = 0.5f*(fabsf(hp->dv.x)+fabsf(hp->dv.y));
+    float epsilon_v = 0.f;
+    if(hp->differentials)
+        epsilon_v = 0.5f*(fabsf(hp->dv.x)+fabsf(hp->dv.y));
     if(epsilon_v == 0.f)
         epsilon_v = 0.01f;
     shifted.point_h = hp->point_h+hp->dpdv*epsilon_v;
-- 
2.43.0

