From fb21488200885f72c8ddb462054f89531d760d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 001/113] fix: BBox.__ne__ is the negation of __eq__

---
 pytracer/geometry/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pytracer/geometry/__init__.py b/pytracer/geometry/__init__.py
index 81c292c..d7dccf4 100644
--- a/pytracer/geometry/__init__.py
+++ b/pytracer/geometry/__init__.py
@@ -422,8 +422,7 @@ class BBox:
 		       np.array_equal(self.pMax, other.pMax)
 
 	def __ne__(self, other):
-		return not np.array_equal(self.pMin, other.pMax) or \
-		       not np.array_equal(self.pMin, other.pMax)
+		return not self == other
 
 	def __getitem__(self, key):
 		if key == 0:
-- 
2.43.0


From ffb5626519b9d2a1d0a281341480c08acc57d46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 002/113] fix: Transform maps the offset rays of a
 RayDifferential too

---
 pytracer/transform/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytracer/transform/__init__.py b/pytracer/transform/__init__.py
index 5a92c85..c7e1f6e 100644
--- a/pytracer/transform/__init__.py
+++ b/pytracer/transform/__init__.py
@@ -72,6 +72,10 @@ class Transform(object):
 			r = geo.RayDifferential.from_rd(arg)
 			r.o = self(r.o)
 			r.d = self(r.d)
+			r.rxOrigin = self(r.rxOrigin)
+			r.ryOrigin = self(r.ryOrigin)
+			r.rxDirection = self(r.rxDirection)
+			r.ryDirection = self(r.ryDirection)
 			return r
 
 		elif isinstance(arg, geo.Ray):
-- 
2.43.0


From aa53ecd3d813f7d821acb1842f5c0f7d6489dbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 003/113] fix: look_at maps the camera axes onto the view frame
 (axes are columns of c2w)

---
 pytracer/transform/__init__.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pytracer/transform/__init__.py b/pytracer/transform/__init__.py
index c7e1f6e..834da17 100644
--- a/pytracer/transform/__init__.py
+++ b/pytracer/transform/__init__.py
@@ -208,31 +208,31 @@ class Transform(object):
 
 		# c2w rotation
 		c2w[0][0] = xc.x
-		c2w[0][1] = xc.y
-		c2w[0][2] = xc.z
-		c2w[1][0] = yc.x
+		c2w[1][0] = xc.y
+		c2w[2][0] = xc.z
+		c2w[0][1] = yc.x
 		c2w[1][1] = yc.y
-		c2w[1][2] = yc.z
-		c2w[2][0] = zc.x
-		c2w[2][1] = zc.y
+		c2w[2][1] = yc.z
+		c2w[0][2] = zc.x
+		c2w[1][2] = zc.y
 		c2w[2][2] = zc.z
 
 		# w2c rotation
 		# in effect as camera extrinsic
 		w2c[0][0] = xc.x
-		w2c[0][1] = yc.x
-		w2c[0][2] = zc.x
-		w2c[1][0] = xc.y
+		w2c[1][0] = yc.x
+		w2c[2][0] = zc.x
+		w2c[0][1] = xc.y
 		w2c[1][1] = yc.y
-		w2c[1][2] = zc.y
-		w2c[2][0] = xc.z
-		w2c[2][1] = yc.z
+		w2c[2][1] = zc.y
+		w2c[0][2] = xc.z
+		w2c[1][2] = yc.z
 		w2c[2][2] = zc.z
 
 		# w2c translation
-		w2c[0][3] = -(pos.x * xc.x + pos.y * yc.x + pos.z * zc.x)
-		w2c[1][3] = -(pos.x * xc.y + pos.y * yc.y + pos.z * zc.y)
-		w2c[2][3] = -(pos.x * xc.z + pos.y * yc.z + pos.z * zc.z)
+		w2c[0][3] = -(pos.x * xc.x + pos.y * xc.y + pos.z * xc.z)
+		w2c[1][3] = -(pos.x * yc.x + pos.y * yc.y + pos.z * yc.z)
+		w2c[2][3] = -(pos.x * zc.x + pos.y * zc.y + pos.z * zc.z)
 
 		return cls(c2w, w2c, dtype)
 
-- 
2.43.0


From e5f0456744e172c4e29d0de189ec1531b91be3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 004/113] fix: quaternion from matrix picks the largest
 diagonal element

---
 pytracer/transform/quat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/transform/quat.py b/pytracer/transform/quat.py
index 609f515..56c7b6c 100644
--- a/pytracer/transform/quat.py
+++ b/pytracer/transform/quat.py
@@ -52,7 +52,7 @@ def from_transform(t: 'Transform') -> 'Quaternion':
 		i = 0
 		if m[1, 1] > m[0, 0]:
 			i = 1
-		if m[2, 2] < m[i, i]:
+		if m[2, 2] > m[i, i]:
 			i = 2
 		j = nxt[i]
 		k = nxt[j]
@@ -88,7 +88,7 @@ def from_arr(t: 'np.ndarray') -> 'Quaternion':
 		i = 0
 		if m[1, 1] > m[0, 0]:
 			i = 1
-		if m[2, 2] < m[i, i]:
+		if m[2, 2] > m[i, i]:
 			i = 2
 		j = nxt[i]
 		k = nxt[j]
-- 
2.43.0


From ec3b6d6299d729014f10d79e4ec5473e13dc4b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 005/113] fix: Shape.world_bound encloses the object bound
 under any affine transform

---
 pytracer/shape/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pytracer/shape/__init__.py b/pytracer/shape/__init__.py
index 2497a24..01c434b 100644
--- a/pytracer/shape/__init__.py
+++ b/pytracer/shape/__init__.py
@@ -61,7 +61,12 @@ class Shape(object, metaclass=ABCMeta):
 		raise NotImplementedError('unimplemented Shape.object_bound() method called')
 
 	def world_bound(self) -> 'geo.BBox':
-		return self.o2w(self.object_bound())
+		# bound all transformed corners, `o2w` may rotate or flip the box
+		box = self.object_bound()
+		ret = geo.BBox()
+		for i in range(8):
+			ret.union(self.o2w(geo.Point(box[i & 1].x, box[(i >> 1) & 1].y, box[(i >> 2) & 1].z)))
+		return ret
 
 	def can_intersect(self) -> bool:
 		return True
-- 
2.43.0


From a60a4b16ac2d7e44af3f6924ba73f81c41d60f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 006/113] fix: Triangle.get_uvs looks the uv of a vertex up
 through the vertex index

---
 pytracer/shape/triangle.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index 7382a8d..62a1a47 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -126,9 +126,10 @@ class Triangle(Shape):
 		if self.mesh.uvs is None:
 			return [[0., 0.], [1., 0.], [1., 1.]]  # default
 		else:
-			return [[self.mesh.uvs[2 * self.v], self.mesh.uvs[2 * self.v + 1]],
-			        [self.mesh.uvs[2 * (self.v + 1)], self.mesh.uvs[2 * (self.v + 1) + 1]],
-			        [self.mesh.uvs[2 * (self.v + 2)], self.mesh.uvs[2 * (self.v + 2) + 1]]]
+			vi = [self.mesh.vertexIndex[self.v + i] for i in range(3)]
+			return [[self.mesh.uvs[2 * vi[0]], self.mesh.uvs[2 * vi[0] + 1]],
+			        [self.mesh.uvs[2 * vi[1]], self.mesh.uvs[2 * vi[1] + 1]],
+			        [self.mesh.uvs[2 * vi[2]], self.mesh.uvs[2 * vi[2] + 1]]]
 
 	def object_bound(self) -> 'geo.BBox':
 		p1 = self.mesh.p[self.mesh.vertexIndex[self.v]]
-- 
2.43.0


From 0a0cf41081eab72899b959199e39437152c4606f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 007/113] fix: Triangle.sample interpolates its own second
 vertex

---
 pytracer/shape/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index 62a1a47..e315c32 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -149,7 +149,7 @@ class Triangle(Shape):
 		b1, b2 = uniform_sample_triangle(u1, u2)
 
 		p = b1 * self.mesh.p[self.mesh.vertexIndex[self.v]] + \
-		    b2 * self.mesh.p[self.mesh.vertexIndex[self.v]+1] + \
+		    b2 * self.mesh.p[self.mesh.vertexIndex[self.v+1]] + \
 		    (1. - b1 - b2) * self.mesh.p[self.mesh.vertexIndex[self.v+2]]
 
 		Ns = geo.normalize(geo.Normal.from_arr(
-- 
2.43.0


From 41a3689461e59df188864c28b2b581cc4b96c161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 008/113] fix: Triangle shading geometry interpolates the
 normals and tangents of its own vertices

---
 pytracer/shape/triangle.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index e315c32..7b0c59f 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -323,7 +323,7 @@ class Triangle(Shape):
 
 	def get_shading_geometry(self, o2w: 'trans.Transform',
 	                         dg: 'geo.DifferentialGeometry') -> 'geo.DifferentialGeometry':
-		if self.mesh.n is None or self.mesh.s is None:
+		if self.mesh.n is None and self.mesh.s is None:
 			return dg
 		# compute barycentric coord
 		uvs = self.get_uvs()
@@ -341,16 +341,16 @@ class Triangle(Shape):
 
 		# compute shading tangents
 		if self.mesh.n is not None:
-			ns = geo.normalize(o2w(b[0] * self.mesh.n[self.v] +
-			                   b[1] * self.mesh.n[self.v + 1] +
-			                   b[2] * self.mesh.n[self.v + 2]))
+			ns = geo.normalize(o2w(b[0] * self.mesh.n[self.mesh.vertexIndex[self.v]] +
+			                   b[1] * self.mesh.n[self.mesh.vertexIndex[self.v + 1]] +
+			                   b[2] * self.mesh.n[self.mesh.vertexIndex[self.v + 2]]))
 		else:
 			ns = dg.nn
 
 		if self.mesh.s is not None:
-			ss = geo.normalize(o2w(b[0] * self.mesh.s[self.v] +
-			                   b[1] * self.mesh.s[self.v + 1] +
-			                   b[2] * self.mesh.s[self.v + 2]))
+			ss = geo.normalize(o2w(b[0] * self.mesh.s[self.mesh.vertexIndex[self.v]] +
+			                   b[1] * self.mesh.s[self.mesh.vertexIndex[self.v + 1]] +
+			                   b[2] * self.mesh.s[self.mesh.vertexIndex[self.v + 2]]))
 		else:
 			ss = geo.normalize(dg.dpdu)
 
-- 
2.43.0


From a06ac2cf6587d79b6a22534e1642de8a5cdd8a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 009/113] fix: Sphere is hit whatever its size (absolute
 threshold on the discriminant)

---
 pytracer/shape/sphere.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pytracer/shape/sphere.py b/pytracer/shape/sphere.py
index df35a5f..8d013da 100644
--- a/pytracer/shape/sphere.py
+++ b/pytracer/shape/sphere.py
@@ -139,13 +139,12 @@ class Sphere(Shape):
 		C = ray.o.sq_length() - self.radius * self.radius
 
 		D = B * B - 4. * A * C
-		if D <= 0. + EPS:
+		if D < 0.:
 			return [False, None, None, None]
 
 		# validate solutions
-		[t0, t1] = np.roots([A, B, C])
-		if t0 > t1:
-			t0, t1 = t1, t0
+		root_d = np.sqrt(D)
+		t0, t1 = (-B - root_d) / (2. * A), (-B + root_d) / (2. * A)
 		if t0 > ray.maxt or t1 < ray.mint:
 			return [False, None, None, None]
 		thit = t0
@@ -233,13 +232,12 @@ class Sphere(Shape):
 		C = ray.o.sq_length() - self.radius * self.radius
 
 		D = B * B - 4. * A * C
-		if D <= 0. + EPS:
+		if D < 0.:
 			return False
 
 		# validate solutions
-		[t0, t1] = np.roots([A, B, C])
-		if t0 > t1:
-			t0, t1 = t1, t0
+		root_d = np.sqrt(D)
+		t0, t1 = (-B - root_d) / (2. * A), (-B + root_d) / (2. * A)
 		if t0 > ray.maxt or t1 < ray.mint:
 			return False
 		thit = t0
-- 
2.43.0


From c0a29228a029873a0d1946114662460b6558a6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 010/113] fix: Sphere v coordinate is the fraction of the polar
 range

---
 pytracer/shape/sphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/sphere.py b/pytracer/shape/sphere.py
index 8d013da..bd53129 100644
--- a/pytracer/shape/sphere.py
+++ b/pytracer/shape/sphere.py
@@ -186,7 +186,7 @@ class Sphere(Shape):
 		u = phi / self.phiMax
 		theta = np.arccos(np.clip(phit.z / self.radius, -1., 1.))
 		delta_theta = self.thetaMax - self.thetaMin
-		v = (theta - self.thetaMin) * delta_theta
+		v = (theta - self.thetaMin) / delta_theta
 
 		# find derivatives
 		dpdu = geo.Vector(-self.phiMax * phit.y, self.phiMax * phit.x, 0.)
-- 
2.43.0


From 28ba4ea363bcace82d7d6e76d292a11c0b0792c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 011/113] fix: Sphere.intersect_p prints no debug output

---
 pytracer/shape/sphere.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pytracer/shape/sphere.py b/pytracer/shape/sphere.py
index bd53129..498db24 100644
--- a/pytracer/shape/sphere.py
+++ b/pytracer/shape/sphere.py
@@ -247,7 +247,6 @@ class Sphere(Shape):
 				return False
 
 		phit = ray(thit)
-		print("Type phit: {}\nphit.x: {}\nphit.y: {}\n".format(type(phit), type(phit.x), type(phit.y)))
 		if phit.x == 0. and phit.y == 0.:
 			phit.x = EPS * self.radius
 		phi = np.arctan2(phit.y, phit.x)
-- 
2.43.0


From 42001c3b7fb20741e2f62e5668df9d1a2c9d21bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 012/113] fix: Sphere.sample returns points of the (partial)
 sphere, uniform in area

---
 pytracer/shape/sphere.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pytracer/shape/sphere.py b/pytracer/shape/sphere.py
index 498db24..dcf01b7 100644
--- a/pytracer/shape/sphere.py
+++ b/pytracer/shape/sphere.py
@@ -44,16 +44,12 @@ class Sphere(Shape):
 		"""
 		account for partial sphere
 		"""
-		from pytracer.montecarlo import uniform_sample_sphere
-		v = uniform_sample_sphere(u1, u2)
+		# uniform in height and azimuth is uniform in area
+		z = util.lerp(u1, self.zmin, self.zmax)
+		phi = u2 * self.phiMax
+		zrad = np.sqrt(max(0., self.radius * self.radius - z * z))
 
-		phi = geo.spherical_theta(v) * self.phiMax * INV_2PI
-		theta = self.thetaMin + geo.spherical_theta(v) * (self.thetaMax - self.thetaMin)
-
-		v = geo.spherical_direction(np.sin(theta), np.cos(theta), phi) * self.radius
-		v.z = self.zmin + v.z * (self.zmax - self.zmin)
-
-		p = geo.Point.from_arr(v)
+		p = geo.Point(zrad * np.cos(phi), zrad * np.sin(phi), z)
 		Ns = geo.normalize(self.o2w(geo.Normal(p.x, p.y, p.z)))
 		if self.ro:
 			Ns *= -1.
-- 
2.43.0


From 544c1945702bc0ee745b32f10f73640f0e8c89e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 013/113] fix: Cylinder can be instantiated and computes v from
 its height range

---
 pytracer/shape/cylinder.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pytracer/shape/cylinder.py b/pytracer/shape/cylinder.py
index 29a9279..9ceae8b 100644
--- a/pytracer/shape/cylinder.py
+++ b/pytracer/shape/cylinder.py
@@ -106,7 +106,7 @@ class Cylinder(Shape):
 		# otherwise ray hits the cylinder
 		# initialize the differential structure
 		u = phi / self.phiMax
-		v = (phit.z - self.zmin) / (self.thetaMax - self.thetaMin)
+		v = (phit.z - self.zmin) / (self.zmax - self.zmin)
 
 		# find derivatives
 		dpdu = geo.Vector(-self.phiMax * phit.y, self.phiMax * phit.x, 0.)
@@ -188,5 +188,12 @@ class Cylinder(Shape):
 
 		return True
 
+	def refine(self) -> ['Shape']:
+		"""
+		If `Shape` cannot intersect,
+		return a refined subset
+		"""
+		raise NotImplementedError('Intersecable shapes are not refineable')
+
 	def area(self) -> FLOAT:
 		return self.phiMax * self.radius * (self.zmax - self.zmin)
-- 
2.43.0


From 9788eeb6f1a31dd1393c602344056c7f7907627c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 014/113] fix: Cylinder solves its quadratic without complex
 round-off

---
 pytracer/shape/cylinder.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pytracer/shape/cylinder.py b/pytracer/shape/cylinder.py
index 9ceae8b..4f0f894 100644
--- a/pytracer/shape/cylinder.py
+++ b/pytracer/shape/cylinder.py
@@ -70,9 +70,8 @@ class Cylinder(Shape):
 			return [False, None, None, None]
 
 		# validate solutions
-		[t0, t1] = np.roots([A, B, C])
-		if t0 > t1:
-			t0, t1 = t1, t0
+		root_d = np.sqrt(D)
+		t0, t1 = (-B - root_d) / (2. * A), (-B + root_d) / (2. * A)
 		if t0 > ray.maxt or t1 < ray.mint:
 			return [False, None, None, None]
 		thit = t0
@@ -153,9 +152,8 @@ class Cylinder(Shape):
 			return False
 
 		# validate solutions
-		[t0, t1] = np.roots([A, B, C])
-		if t0 > t1:
-			t0, t1 = t1, t0
+		root_d = np.sqrt(D)
+		t0, t1 = (-B - root_d) / (2. * A), (-B + root_d) / (2. * A)
 		if t0 > ray.maxt or t1 < ray.mint:
 			return False
 		thit = t0
-- 
2.43.0


From 58e5da8c8010c7e2ea6dfdf625204504fa920c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 015/113] fix: Disk v coordinate and derivatives (square root
 of a length, inner radius, hit at the centre)

---
 pytracer/shape/disk.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pytracer/shape/disk.py b/pytracer/shape/disk.py
index 31243b9..89e83f5 100644
--- a/pytracer/shape/disk.py
+++ b/pytracer/shape/disk.py
@@ -91,16 +91,19 @@ class Disk(Shape):
 			return [False, None, None, None]
 
 		# otherwise ray hits the disk
+		if phit.x == 0. and phit.y == 0.:
+			phit.x = EPS * self.radius
+			dt2 = phit.x * phit.x
+
 		# initialize the differential structure
 		u = phi / self.phiMax
-		v = 1. - ((np.sqrt(dt2 - self.inner_radius)) /
+		rhit = np.sqrt(dt2)
+		v = 1. - ((rhit - self.inner_radius) /
 		          (self.radius - self.inner_radius))
 
 		# find derivatives
 		dpdu = geo.Vector(-self.phiMax * phit.y, self.phiMax * phit.x, 0.)
-		dpdv = geo.Vector(-phit.x / (1. - v), -phit.y / (1. - v), 0.)
-		dpdu *= self.phiMax * INV_2PI
-		dpdv *= (self.radius - self.inner_radius) / self.radius
+		dpdv = geo.Vector(phit.x, phit.y, 0.) * ((self.inner_radius - self.radius) / rhit)
 
 		# derivative of geo.Normals
 		dndu = geo.Normal(0., 0., 0., )
-- 
2.43.0


From 7dc6ee1f44e872075c92a9bac4a53e7bc4364397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 016/113] fix: Disk.sample is uniform over the (partial)
 annulus and returns the disk normal

---
 pytracer/shape/disk.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pytracer/shape/disk.py b/pytracer/shape/disk.py
index 89e83f5..8e4856a 100644
--- a/pytracer/shape/disk.py
+++ b/pytracer/shape/disk.py
@@ -42,14 +42,12 @@ class Disk(Shape):
 	def sample(self, u1: FLOAT, u2: FLOAT) -> ['geo.Point', 'geo.Normal']:
 
 		# account for partial disk
-		from pytracer.montecarlo import concentric_sample_disk
-		x, y = concentric_sample_disk(u1, u2)
-		phi = np.arctan2(y, x) * self.phiMax * INV_2PI
-		r = self.inner_radius + np.sqrt(x * x + y * y) * (self.radius - self.inner_radius)
+		phi = u2 * self.phiMax
+		r = np.sqrt(util.lerp(u1, self.inner_radius * self.inner_radius, self.radius * self.radius))
 
 		p = geo.Point(r * np.cos(phi), r * np.sin(phi), self.height)
 
-		Ns = geo.normalize(self.o2w(p))
+		Ns = geo.normalize(self.o2w(geo.Normal(0., 0., 1.)))
 		if self.ro:
 			Ns *= -1.
 
-- 
2.43.0


From e816ec1db7ed4cea072985be23f56cda896f23d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 017/113] fix: cosine_sample_hemisphere projects concentric
 disk samples (density cos/pi)

---
 pytracer/montecarlo/utility.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pytracer/montecarlo/utility.py b/pytracer/montecarlo/utility.py
index 7468cf3..61d9649 100644
--- a/pytracer/montecarlo/utility.py
+++ b/pytracer/montecarlo/utility.py
@@ -179,9 +179,8 @@ def cosine_sample_hemisphere(u1: FLOAT, u2: FLOAT) -> 'geo.Vector':
 	`u1` and `u2` are two
 	random numbers passed in.
 	"""
-	vec = uniform_sample_sphere(u1, u2)
-	vec.z = np.sqrt(max(0., 1. - vec.x * vec.x - vec.y * vec.y))
-	return vec
+	x, y = concentric_sample_disk(u1, u2)
+	return geo.Vector(x, y, np.sqrt(max(0., 1. - x * x - y * y)))
 
 
 def cosine_hemisphere_pdf(costheta: FLOAT, phi: FLOAT) -> FLOAT:
-- 
2.43.0


From 378adf3264cc06d8019642855228fb63f10c0699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 018/113] fix: uniform_sample_cone without basis calls np.cos

---
 pytracer/montecarlo/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/montecarlo/utility.py b/pytracer/montecarlo/utility.py
index 61d9649..6705cdc 100644
--- a/pytracer/montecarlo/utility.py
+++ b/pytracer/montecarlo/utility.py
@@ -217,7 +217,7 @@ def uniform_sample_cone(u1: FLOAT, u2: FLOAT, ct_max: FLOAT,
 		ct = (1. - u1) + u1 * ct_max
 		st = np.sqrt(1. - ct * ct)
 		phi = u2 * 2. * PI
-		return geo.Vector(np.scos(phi) * st, np.sin(phi) * st, ct)
+		return geo.Vector(np.cos(phi) * st, np.sin(phi) * st, ct)
 	else:
 		ct = util.lerp(u1, ct_max, 1.)
 		st = np.sqrt(1. - ct * ct)
-- 
2.43.0


From 0d78ea5a9320efc76645b84692157936a512fff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:54 +0000
Subject: [PATCH 019/113] fix: concentric_sample_disk is continuous in the left
 and lower sectors (signs)

---
 pytracer/montecarlo/utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/montecarlo/utility.py b/pytracer/montecarlo/utility.py
index 6705cdc..f67abaa 100644
--- a/pytracer/montecarlo/utility.py
+++ b/pytracer/montecarlo/utility.py
@@ -158,11 +158,11 @@ def concentric_sample_disk(u1: FLOAT, u2: FLOAT) -> [FLOAT, FLOAT]:
 		if sx > sy:
 			# 4
 			r = -sy
-			theta = 6. + sx / sy
+			theta = 6. - sx / sy
 		else:
 			# 3
 			r = -sx
-			theta = 4. - sy / sx
+			theta = 4. + sy / sx
 	theta *= PI / 4.
 
 	return [r * np.cos(theta), r * np.sin(theta)]
-- 
2.43.0


From 569d0448a1a2b87d7a40c41acb91ae0ccd8dfc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:03 +0000
Subject: [PATCH 020/113] fix: Distribution1D never samples a zero-probability
 segment (0/0 at u = 0)

---
 pytracer/montecarlo/distribution.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pytracer/montecarlo/distribution.py b/pytracer/montecarlo/distribution.py
index d780b72..41367fa 100644
--- a/pytracer/montecarlo/distribution.py
+++ b/pytracer/montecarlo/distribution.py
@@ -54,8 +54,9 @@ class Distribution1D(object):
 		pdf: [rv, pdf].
 		"""
 		# surrounding CDF segment
-		idx = np.searchsorted(self.cdf, u) - 1
-		off = max(0, idx)
+		# (the last one starting at or before `u`, hence of positive width)
+		idx = np.searchsorted(self.cdf, u, side='right') - 1
+		off = min(max(0, idx), self.cnt - 1)
 
 		# compute offset
 		du = (u - self.cdf[off]) / (self.cdf[off + 1] - self.cdf[off])
@@ -74,8 +75,9 @@ class Distribution1D(object):
 		pdf: [rv, pdf].
 		"""
 		# surrounding CDF segment
-		idx = np.searchsorted(self.cdf, u) - 1
-		off = max(0, idx)
+		# (the last one starting at or before `u`, hence of positive width)
+		idx = np.searchsorted(self.cdf, u, side='right') - 1
+		off = min(max(0, idx), self.cnt - 1)
 
 		return [off, self.func[off] / (self.cdf_raw * self.cnt)]
 
-- 
2.43.0


From 54c859d7ff8b343b1fe7dccb313958a2748b976d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:03 +0000
Subject: [PATCH 021/113] fix: Distribution2D.sample_cont returns the
 continuous v, not the row index

---
 pytracer/montecarlo/distribution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/montecarlo/distribution.py b/pytracer/montecarlo/distribution.py
index 41367fa..2338792 100644
--- a/pytracer/montecarlo/distribution.py
+++ b/pytracer/montecarlo/distribution.py
@@ -122,9 +122,9 @@ class Distribution2D(object):
 		Returns [[u, v], pdf]
 		"""
 		v, pdf1 = self.p_marg_v.sample_cont(u1)
-		v = np.clip(util.ftoi(v * self.p_marg_v.cnt), 0, self.p_marg_v.cnt - 1).astype(INT)
+		vi = np.clip(util.ftoi(v * self.p_marg_v.cnt), 0, self.p_marg_v.cnt - 1).astype(INT)
 
-		u, pdf0 = self.p_cond_v[v].sample_cont(u0)
+		u, pdf0 = self.p_cond_v[vi].sample_cont(u0)
 
 		return [[u, v], pdf0 * pdf1]
 
-- 
2.43.0


From caec54ae28644fdd80020129804ee1523654f445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:20 +0000
Subject: [PATCH 022/113] fix: fr_diel parallel reflectance denominator

---
 pytracer/reflection/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/reflection/utility.py b/pytracer/reflection/utility.py
index 419fdb5..0163a9e 100644
--- a/pytracer/reflection/utility.py
+++ b/pytracer/reflection/utility.py
@@ -51,7 +51,7 @@ def fr_diel(cos_i: FLOAT, cos_t: FLOAT, eta_i: 'Spectrum', eta_t: 'Spectrum') ->
 	dielectric materials and circularly polarized light
 	"""
 	r_para = ((eta_t * cos_i ) - (eta_i * cos_t)) / \
-				((eta_t * cos_i) + (eta_t * cos_t))
+				((eta_t * cos_i) + (eta_i * cos_t))
 	r_perp = ((eta_i * cos_i) - (eta_t * cos_t)) / \
 				((eta_i * cos_i) + (eta_t * cos_t))
 	return .5 * (r_para * r_para + r_perp * r_perp)
-- 
2.43.0


From 4baba3d2c8536ed2b47d8ad07ef2bb6a08813f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:20 +0000
Subject: [PATCH 023/113] fix: SpecularTransmission refracts with the index of
 the side wo is on

---
 pytracer/reflection/bdf/bdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytracer/reflection/bdf/bdf.py b/pytracer/reflection/bdf/bdf.py
index ead8b4a..f0d5394 100644
--- a/pytracer/reflection/bdf/bdf.py
+++ b/pytracer/reflection/bdf/bdf.py
@@ -285,7 +285,8 @@ class SpecularTransmission(BDF):
 	             u2: FLOAT) -> [FLOAT, 'geo.Vector', 'Spectrum']:
 		# find eta pair
 		ei, et = self.ei, self.et
-		if cos_theta(wo) > 0.:
+		if cos_theta(wo) < 0.:
+			# ray is on the inside
 			ei, et = et, ei
 
 		# compute transmited ray direction
-- 
2.43.0


From 576ce6133cbc1815a41ca4e4ea630e7255d4c546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:20 +0000
Subject: [PATCH 024/113] fix: ScaledBDF forwards to the wrapped BDF (attribute
 name, pdf)

---
 pytracer/reflection/bdf/bdf.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pytracer/reflection/bdf/bdf.py b/pytracer/reflection/bdf/bdf.py
index f0d5394..25c18e5 100644
--- a/pytracer/reflection/bdf/bdf.py
+++ b/pytracer/reflection/bdf/bdf.py
@@ -214,16 +214,18 @@ class ScaledBDF(BDF):
 		self.s = sc
 
 	# scale by spectrum
-	def f(self, wo: 'geo.Vector', wi: 'geo.Vector'): return self.s * self.brdf.f(wo, wi)
+	def f(self, wo: 'geo.Vector', wi: 'geo.Vector'): return self.s * self.bdf.f(wo, wi)
+
+	def pdf(self, wo: 'geo.Vector', wi: 'geo.Vector') -> FLOAT: return self.bdf.pdf(wo, wi)
 
 	def sample_f(self, wo: 'geo.Vector', u1: FLOAT, u2: FLOAT):
-		pdf, wi, f = self.brdf.sample_f(wo, u1, u2)
+		pdf, wi, f = self.bdf.sample_f(wo, u1, u2)
 		return pdf, wi, self.s * f
 
-	def rho_hd(self, wo: 'geo.Vector', samples: [FLOAT]): return self.s * self.brdf.rho_hd(wo, samples)
+	def rho_hd(self, wo: 'geo.Vector', samples: [FLOAT]): return self.s * self.bdf.rho_hd(wo, samples)
 
 	def rho_hh(self, nSamples: INT, samples_1: [FLOAT],
-					samples_2: [FLOAT]): return self.s * self.brdf.rho_hh(nSamples, samples_1, samples_2)
+					samples_2: [FLOAT]): return self.s * self.bdf.rho_hh(nSamples, samples_1, samples_2)
 
 
 class SpecularReflection(BDF):
-- 
2.43.0


From 56e2c61eb2eee8ec647d76b15f1e22e5d5c81312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:20 +0000
Subject: [PATCH 025/113] fix: BRDF2BTDF has the density of the directions it
 samples

---
 pytracer/reflection/bdf/bdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytracer/reflection/bdf/bdf.py b/pytracer/reflection/bdf/bdf.py
index 25c18e5..05498bb 100644
--- a/pytracer/reflection/bdf/bdf.py
+++ b/pytracer/reflection/bdf/bdf.py
@@ -194,6 +194,8 @@ class BRDF2BTDF(BDF):
 		pdf, wi, f = self.brdf.sample_f(wo, u1, u2)
 		return pdf, self.switch(wi), f
 
+	def pdf(self, wo: 'geo.Vector', wi: 'geo.Vector') -> FLOAT: return self.brdf.pdf(wo, self.switch(wi))
+
 	def rho_hd(self, wo: 'geo.Vector', samples: [FLOAT]): return self.brdf.rho_hd(wo, samples)
 
 	def rho_hh(self, nSamples: INT, samples_1: [FLOAT],
-- 
2.43.0


From 1efe588b54c0e8232aa312a0ed63d151d0337e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:20 +0000
Subject: [PATCH 026/113] fix: Microfacet.f is not negative across hemispheres,
 nor NaN for opposite directions

---
 pytracer/reflection/bdf/torrance.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pytracer/reflection/bdf/torrance.py b/pytracer/reflection/bdf/torrance.py
index 0da86c2..9cc6054 100644
--- a/pytracer/reflection/bdf/torrance.py
+++ b/pytracer/reflection/bdf/torrance.py
@@ -198,13 +198,16 @@ class Microfacet(BDF):
 		self.distribution = d
 
 	def f(self, wo: 'geo.Vector', wi: 'geo.Vector') -> 'Spectrum':
-		ct_i = cos_theta(wi)
-		ct_o = cos_theta(wo)
+		ct_i = abs_cos_theta(wi)
+		ct_o = abs_cos_theta(wo)
 
 		if ct_i == 0. or ct_o == 0.:
 			return Spectrum(0.)
 
-		wh = geo.normalize(wi + wo)
+		wh = wi + wo
+		if wh.x == 0. and wh.y == 0. and wh.z == 0.:
+			return Spectrum(0.)
+		wh = geo.normalize(wh)
 		ct_h = wi.dot(wh)
 		F = self.fresnel(ct_h)
 
-- 
2.43.0


From cd73aec439375a6ad1eff5c295b5dd0704909361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:20 +0000
Subject: [PATCH 027/113] fix: FresnelBlend.f is defined for opposite
 directions

---
 pytracer/reflection/bdf/fresnelblend.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytracer/reflection/bdf/fresnelblend.py b/pytracer/reflection/bdf/fresnelblend.py
index a9abf7b..87f3c19 100644
--- a/pytracer/reflection/bdf/fresnelblend.py
+++ b/pytracer/reflection/bdf/fresnelblend.py
@@ -66,7 +66,10 @@ class FresnelBlend(BDF):
 		          (1. - np.power(1. - .5 * abs_cos_theta(wi), 5)) * \
 		          (1. - np.power(1. - .5 * abs_cos_theta(wo), 5))
 
-		wh = geo.normalize(wi + wo)
+		wh = wi + wo
+		if wh.x == 0. and wh.y == 0. and wh.z == 0.:
+			return Spectrum(0.)
+		wh = geo.normalize(wh)
 
 		specular = self.distribution.D(wh) / \
 		           (4. * wi.abs_dot(wh) * max(abs_cos_theta(wi), abs_cos_theta(wo))) * \
-- 
2.43.0


From f6b92512582f9984de093b86f7ebc18d1494dc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:20 +0000
Subject: [PATCH 028/113] fix: BSDF.l2w is the inverse of w2l

---
 pytracer/reflection/bsdf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/reflection/bsdf.py b/pytracer/reflection/bsdf.py
index 49c322a..82e9fe7 100644
--- a/pytracer/reflection/bsdf.py
+++ b/pytracer/reflection/bsdf.py
@@ -200,9 +200,9 @@ class BSDF(object):
 		Transform a `geo.Vector` in the local system
 		to the world system
 		"""
-		return geo.Vector(self.sn.x * v.x + self.tn.x * v.x + self.nn.x * v.x,
-		                  self.sn.y * v.y + self.tn.y * v.y + self.nn.y * v.y,
-		                  self.sn.z * v.z + self.tn.z * v.z + self.nn.z * v.z)
+		return geo.Vector(self.sn.x * v.x + self.tn.x * v.y + self.nn.x * v.z,
+		                  self.sn.y * v.x + self.tn.y * v.y + self.nn.y * v.z,
+		                  self.sn.z * v.x + self.tn.z * v.y + self.nn.z * v.z)
 
 	def f(self, wo_w: 'geo.Vector', wi_w: 'geo.Vector', flags: 'BDFType' = BDFType.ALL) -> 'Spectrum':
 		wi = self.w2l(wi_w)
-- 
2.43.0


From eba58c0919656c497d6855fb109703c952490aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:20 +0000
Subject: [PATCH 029/113] fix: BDFType is true when some flag is set (specular
 test in BSDF.sample_f)

---
 pytracer/reflection/bdf/bdf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytracer/reflection/bdf/bdf.py b/pytracer/reflection/bdf/bdf.py
index 05498bb..2c9dd8e 100644
--- a/pytracer/reflection/bdf/bdf.py
+++ b/pytracer/reflection/bdf/bdf.py
@@ -36,6 +36,9 @@ class BDFType():
 	def __repr__(self):
 		return "{}\nEnum: {}".format(self.__class__, self.v)
 
+	def __bool__(self):
+		return bool(self.v != 0)
+
 	def __invert__(self):
 		return BDFType(~self.v)
 
-- 
2.43.0


From 65b3b6a8980da000fbe8564832f1f2e3056498d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:10 +0000
Subject: [PATCH 030/113] fix: ReHalfangleBRDF scales angles to table indices
 (every lookup hit the first entry)

---
 pytracer/reflection/bdf/measured.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/reflection/bdf/measured.py b/pytracer/reflection/bdf/measured.py
index 1c19ca7..a6f77c7 100644
--- a/pytracer/reflection/bdf/measured.py
+++ b/pytracer/reflection/bdf/measured.py
@@ -100,9 +100,9 @@ class ReHalfangleBRDF(BDF):
 		wdp = geo.spherical_phi(wd)
 		if wdp > PI:
 			wdp -= PI
-		wht_idx = np.clip(INT((np.sqrt(max(0., t / (PI / 2.)))) / self.nThetaH), 0, self.nThetaH - 1)
+		wht_idx = np.clip(INT(np.sqrt(max(0., t / (PI / 2.))) * self.nThetaH), 0, self.nThetaH - 1)
 
-		wdt_idx = np.clip(INT(wdt / (self.nThetaD * PI)), 0, self.nThetaD - 1)
+		wdt_idx = np.clip(INT(wdt / (PI / 2.) * self.nThetaD), 0, self.nThetaD - 1)
 
-		wdp_idx = np.clip(INT(wdp / (self.nPhiD * PI)), 0, self.nPhiD - 1)
+		wdp_idx = np.clip(INT(wdp / PI * self.nPhiD), 0, self.nPhiD - 1)
 		return Spectrum.from_rgb(self.brdf[wht_idx][wdt_idx][wdp_idx])
-- 
2.43.0


From e326e663fc2ffbfc345cf0b168e9a19cc8fefd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:20 +0000
Subject: [PATCH 031/113] fix: BSDF.rho_hd evaluates the components at the
 local direction

---
 pytracer/reflection/bsdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytracer/reflection/bsdf.py b/pytracer/reflection/bsdf.py
index 82e9fe7..8229e0d 100644
--- a/pytracer/reflection/bsdf.py
+++ b/pytracer/reflection/bsdf.py
@@ -233,6 +233,8 @@ class BSDF(object):
 		nSamples = sqrt_samples * sqrt_samples
 		smp = stratified_sample_2d(sqrt_samples, sqrt_samples, rng=rng)
 
+		# the components live in the local frame
+		wo = self.w2l(wo)
 		sp = Spectrum(0.)
 		for bdf in self.bdfs:
 			if bdf.match_flag(flags):
-- 
2.43.0


From dea9f504c6c0e436ccee11d663febf2d2c6fefa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:05 +0000
Subject: [PATCH 032/113] fix: SampledSpectrum.from_sampled averages over the
 bin of each sample (operator precedence)

---
 pytracer/spectral/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index afc93b4..1c30178 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -421,7 +421,7 @@ class SampledSpectrum(CoefficientSpectrum):
 		self = cls()
 		for i in range(N_SPECTRAL_SAMPLES):
 			l0 = util.lerp(i / N_SPECTRAL_SAMPLES, SAMPLED_LAMBDA_START, SAMPLED_LAMBDA_END)
-			l1 = util.lerp(i+1 / N_SPECTRAL_SAMPLES, SAMPLED_LAMBDA_START, SAMPLED_LAMBDA_END)
+			l1 = util.lerp((i + 1) / N_SPECTRAL_SAMPLES, SAMPLED_LAMBDA_START, SAMPLED_LAMBDA_END)
 			self[i] = cls.average_spectrum_samples(lam, v, l0, l1)
 
 		return self
-- 
2.43.0


From 0582c19fefe6e393344314dad731c002f1aba1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:05 +0000
Subject: [PATCH 033/113] fix: SampledSpectrum.from_rgb picks the basis spectra
 of the two larger components

---
 pytracer/spectral/spectrum.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index 1c30178..679dafc 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -502,9 +502,9 @@ class SampledSpectrum(CoefficientSpectrum):
 			if lo == 0:
 				spec = [cls.rgbRefl2SpectCyan, cls.rgbRefl2SpectGreen, cls.rgbRefl2SpectBlue]
 			elif lo == 1:
-				spec = [cls.rgbRefl2SpectMagenta, cls.rgbRefl2SpectRed, cls.rgbRefl2SpectBlue]
+				spec = [cls.rgbRefl2SpectRed, cls.rgbRefl2SpectMagenta, cls.rgbRefl2SpectBlue]
 			else:
-				spec = [cls.rgbRefl2SpectYellow, cls.rgbRefl2SpectRed, cls.rgbRefl2SpectGreen]
+				spec = [cls.rgbRefl2SpectRed, cls.rgbRefl2SpectGreen, cls.rgbRefl2SpectYellow]
 
 			self += rgb[lo] * cls.rgbRefl2SpectWhite
 			self += (rgb[me] - rgb[lo]) * spec[lo]
@@ -517,9 +517,9 @@ class SampledSpectrum(CoefficientSpectrum):
 			if lo == 0:
 				spec = [cls.rgbIllum2SpectCyan, cls.rgbIllum2SpectGreen, cls.rgbIllum2SpectBlue]
 			elif lo == 1:
-				spec = [cls.rgbIllum2SpectMagenta, cls.rgbIllum2SpectRed, cls.rgbIllum2SpectBlue]
+				spec = [cls.rgbIllum2SpectRed, cls.rgbIllum2SpectMagenta, cls.rgbIllum2SpectBlue]
 			else:
-				spec = [cls.rgbIllum2SpectYellow, cls.rgbIllum2SpectRed, cls.rgbIllum2SpectGreen]
+				spec = [cls.rgbIllum2SpectRed, cls.rgbIllum2SpectGreen, cls.rgbIllum2SpectYellow]
 
 			self += rgb[lo] * cls.rgbIllum2SpectWhite
 			self += (rgb[me] - rgb[lo]) * spec[lo]
-- 
2.43.0


From dcf513751fe0646024c8a319416cb1fc4ba3630c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:05 +0000
Subject: [PATCH 034/113] fix: RGBSpectrum.create makes the spectrum of the
 given values (np.ndarray took them as a shape)

---
 pytracer/spectral/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index 679dafc..54c0e93 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -580,7 +580,7 @@ class RGBSpectrum(CoefficientSpectrum):
 
 		elif isinstance(arg, Iterable):
 			if np.ndim(arg) == 1 and np.shape(arg)[0] == 3:
-				return np.ndarray(arg).view(cls)
+				return np.array(arg).view(cls)
 
 		raise TypeError('Unsupported type {} for init {}'.format(type(arg), cls))
 
-- 
2.43.0


From 3f17074185bd6c440395f775c15a4a516c23f6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:05 +0000
Subject: [PATCH 035/113] fix: SampledSpectrum.from_sampled keeps fractions of
 integer samples

---
 pytracer/spectral/spectrum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index 54c0e93..35750e9 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -414,8 +414,8 @@ class SampledSpectrum(CoefficientSpectrum):
 	@classmethod
 	def from_sampled(cls, lam: Iterable, v: Iterable):
 		# sort the spectrum if necessary
-		v = np.array(v)[np.argsort(lam)]
-		lam = np.sort(lam)
+		v = np.array(v, dtype=FLOAT)[np.argsort(lam)]
+		lam = np.sort(np.array(lam, dtype=FLOAT))
 
 		# compute average SPD values 
 		self = cls()
-- 
2.43.0


From 1bdf2cc2e11da9836b216969f7e6fb5e74fb9f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:05 +0000
Subject: [PATCH 036/113] fix: average_spectrum_samples stops at the end of the
 interval when a sample lies there

---
 pytracer/spectral/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index 35750e9..cc6a4f8 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -470,7 +470,7 @@ class SampledSpectrum(CoefficientSpectrum):
 			bk_lam_lo = lam[idx_lo]
 			bk_v_lo = v[idx_lo]
 
-		if idx_hi < len(lam) and lam[idx_hi] != le:
+		if idx_hi < len(lam):
 			bk_lam_hi = lam[idx_hi]
 			bk_v_hi = v[idx_hi]
 			v[idx_hi] = util.lerp((bk_lam_hi - le) / (lam[idx_hi] - lam[idx_hi-1]), v[idx_hi], v[idx_hi-1])
-- 
2.43.0


From d177b8dcd8ae349d11107454ef55fd51fac83f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:05 +0000
Subject: [PATCH 037/113] fix: compute_subwindow clipped tile fractions to the
 pixel range, tiles were fractional and did not partition the window

---
 pytracer/sampler/sampler/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/sampler/sampler/__init__.py b/pytracer/sampler/sampler/__init__.py
index e1277d7..65eae9f 100644
--- a/pytracer/sampler/sampler/__init__.py
+++ b/pytracer/sampler/sampler/__init__.py
@@ -105,10 +105,10 @@ class Sampler(object, metaclass=ABCMeta):
 		# compute x and y pixel sample range
 		x0 = num % nx
 		y0 = num // nx
-		x = np.clip([x0 / nx, (x0 + 1) / nx], self.xPixel_start, self.xPixel_end)
-		y = np.clip([y0 / ny, (y0 + 1) / ny], self.yPixel_start, self.yPixel_end)
-		return np.concatenate([util.ufunc_lerp(x, self.xPixel_start, self.xPixel_end),
-		                       util.ufunc_lerp(y, self.yPixel_start, self.yPixel_end)])
+		x = np.array([x0 / nx, (x0 + 1) / nx])
+		y = np.array([y0 / ny, (y0 + 1) / ny])
+		return np.floor(np.concatenate([util.ufunc_lerp(x, self.xPixel_start, self.xPixel_end),
+		                                util.ufunc_lerp(y, self.yPixel_start, self.yPixel_end)])).astype(INT)
 
 
 from pytracer.sampler.sampler.stratified import *
\ No newline at end of file
-- 
2.43.0


From ce55c72bd62ea2b8d5ac8fa487612057c3045549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 038/113] fix: ImageFilm computed the first row of a crop
 window from the x resolution

---
 pytracer/film/film.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/film/film.py b/pytracer/film/film.py
index b0d9c81..38d196d 100644
--- a/pytracer/film/film.py
+++ b/pytracer/film/film.py
@@ -115,7 +115,7 @@ class ImageFilm(Film):
 		# compute film image extent
 		self.xPixel_start = INT(np.ceil(xr * crop[0]))
 		self.xPixel_cnt = np.maximum(1, INT(np.ceil(xr * crop[1])) - self.xPixel_start)
-		self.yPixel_start = INT(np.ceil(xr * crop[2]))
+		self.yPixel_start = INT(np.ceil(yr * crop[2]))
 		self.yPixel_cnt = np.maximum(1, INT(np.ceil(yr * crop[3])) - self.yPixel_start)
 
 		# allocate storage
-- 
2.43.0


From 808a0becb7d363064857c97d5e394a3213c10d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 039/113] fix: write_image put a cropped window at swapped
 offsets, one row and column short

---
 pytracer/utility/imageio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/utility/imageio.py b/pytracer/utility/imageio.py
index bb9e5df..07cd4ea 100644
--- a/pytracer/utility/imageio.py
+++ b/pytracer/utility/imageio.py
@@ -81,7 +81,7 @@ def write_image(filename: str, rgb: 'np.ndarray', alpha: 'np.ndarray',
 			img = np.array(pic)
 			pic.close()
 
-			img[xOffset:xOffset+xRes-1, yOffset:yOffset+yRes-1, :] = rgb
+			img[yOffset:yOffset+yRes, xOffset:xOffset+xRes, :] = rgb
 			ret = img.copy()
 
 			pic = PIL.Image.fromarray(img, mode="RGB")
-- 
2.43.0


From 1ebbf40b30aaceb4e9dc07f7cc91964251e21bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:00 +0000
Subject: [PATCH 040/113] fix: Camera.generate_ray_differential shifted blank
 duplicates instead of the sample

---
 pytracer/camera/camera.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pytracer/camera/camera.py b/pytracer/camera/camera.py
index a11eaa4..791e302 100644
--- a/pytracer/camera/camera.py
+++ b/pytracer/camera/camera.py
@@ -7,6 +7,7 @@ Created by Jiayao on July 31, 2017
 Modified on Aug 13, 2017
 """
 from __future__ import absolute_import
+import copy
 from abc import (ABCMeta, abstractmethod)
 from pytracer import *
 import pytracer.geometry as geo
@@ -52,16 +53,14 @@ class Camera(object, metaclass=ABCMeta):
 		rd = geo.RayDifferential.from_ray(rd)
 
 		# find ray shift along x
-		from pytracer.sampler import CameraSample
-		
-		xshift = sample.duplicate(1)[0]
+		xshift = copy.copy(sample)
 		xshift.imageX += 1
 		wtx, rx = self.generate_ray(xshift)
 		rd.rxOrigin = rx.o
 		rd.rxDirection = rx.d
 
 		# find ray shift along y
-		yshift = sample.duplicate(1)[0]
+		yshift = copy.copy(sample)
 		yshift.imageY += 1
 		wty, ry = self.generate_ray(yshift)
 		rd.ryOrigin = ry.o
-- 
2.43.0


From bf757f480e2a1abb80ae41cea59b70f7bd04551f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:00 +0000
Subject: [PATCH 041/113] fix: EnvironmentCamera passed the time as ray depth

---
 pytracer/camera/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/camera/environment.py b/pytracer/camera/environment.py
index 6c97975..2bd04b8 100644
--- a/pytracer/camera/environment.py
+++ b/pytracer/camera/environment.py
@@ -39,5 +39,5 @@ class EnvironmentCamera(Camera):
 		stheta = np.sin(theta)
 
 		ray = self.c2w(geo.Ray(geo.Point(0., 0., 0.),
-				geo.Vector(stheta * np.cos(phi), np.cos(theta), stheta * np.sin(phi)), 0., np.inf, time))
+				geo.Vector(stheta * np.cos(phi), np.cos(theta), stheta * np.sin(phi)), 0., np.inf, 0, time))
 		return [1., ray]
-- 
2.43.0


From 9f8c2c4a6b847c9da251f7056b537364a6bbe087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:00 +0000
Subject: [PATCH 042/113] fix: PerspectiveCamera ray differentials ignored the
 shutter interval

---
 pytracer/camera/projective.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/camera/projective.py b/pytracer/camera/projective.py
index 1b9ccb7..b453485 100644
--- a/pytracer/camera/projective.py
+++ b/pytracer/camera/projective.py
@@ -225,7 +225,7 @@ class PerspectiveCamera(ProjectiveCamera):
 			ray.rxDirection = geo.normalize(self.dxCam + p_cam)  # geo.Vector + geo.Point => geo.Vector
 			ray.ryDirection = geo.normalize(self.dyCam + p_cam)
 
-		ray.time = sample.time
+		ray.time = util.lerp(sample.time, self.s_open, self.s_close)
 		ray = self.c2w(ray)
 		ray.has_differentials = True
 
-- 
2.43.0


From 99e3ecf9d3fb07819997db42d00996cb81fa968e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:17 +0000
Subject: [PATCH 043/113] fix: OrthoCamera ray differentials were offset in the
 wrong space and transformed twice

---
 pytracer/camera/projective.py | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/pytracer/camera/projective.py b/pytracer/camera/projective.py
index b453485..322d4d3 100644
--- a/pytracer/camera/projective.py
+++ b/pytracer/camera/projective.py
@@ -114,17 +114,35 @@ class OrthoCamera(ProjectiveCamera):
 		"""
 		Generate ray differential.
 		"""
-		wt, rd = self.generate_ray(sample)
-		rd = geo.RayDifferential.from_ray(rd)
+		p_cam = self.r2c(geo.Point(sample.imageX, sample.imageY, 0.))
+		rd = geo.RayDifferential(p_cam, geo.Vector(0., 0., 1.), 0., np.inf)
 
-		# find ray shift along x
-		rd.rxOrigin = rd.o + self.dxCam
-		rd.ryOrigin = rd.o + self.dyCam
-		rd.rxDirection = rd.ryDirection = rd.d
-		rd.has_differentials = True
+		if self.lens_rad > 0.:
+			# depth of field
+			from pytracer.montecarlo import concentric_sample_disk
+			lens_u, lens_v = concentric_sample_disk(sample.lens_u, sample.lens_v)
+			lens_u *= self.lens_rad
+			lens_v *= self.lens_rad
+
+			# compute points on focal plane
+			Pfoc = rd(self.focal_dist / rd.d.z)
+
+			rd.o = geo.Point(lens_u, lens_v, 0.)
+			rd.d = geo.normalize(Pfoc - rd.o)
+			rd.rxOrigin = rd.ryOrigin = rd.o
+			rd.rxDirection = geo.normalize(Pfoc + self.dxCam - rd.o)
+			rd.ryDirection = geo.normalize(Pfoc + self.dyCam - rd.o)
+
+		else:
+			rd.rxOrigin = rd.o + self.dxCam
+			rd.ryOrigin = rd.o + self.dyCam
+			rd.rxDirection = rd.ryDirection = rd.d
+
+		rd.time = util.lerp(sample.time, self.s_open, self.s_close)
 		rd = self.c2w(rd)
+		rd.has_differentials = True
 
-		return [wt, rd]
+		return [1., rd]
 
 
 class PerspectiveCamera(ProjectiveCamera):
-- 
2.43.0


From 020958353730950ce6b14507facf95ce6fcae85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:04 +0000
Subject: [PATCH 044/113] fix: BVH middle split left the last primitive
 unclassified and could produce an empty side (AssertionError)

---
 pytracer/aggregate/accelerator/bvh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/aggregate/accelerator/bvh.py b/pytracer/aggregate/accelerator/bvh.py
index 852c5e6..c1d0739 100644
--- a/pytracer/aggregate/accelerator/bvh.py
+++ b/pytracer/aggregate/accelerator/bvh.py
@@ -111,13 +111,13 @@ class BVH(Aggregate):
 		assert start <= end
 		i = start
 		k = end - 1
-		while i < k:
+		while i <= k:
 			if data[i].centroid[dim] < mid:
 				i += 1
 			else:
 				data[i], data[k] = data[k], data[i]
 				k -= 1
-		return k
+		return i
 
 	@staticmethod
 	def _insertion_sort(data: ['BVH._BVHPrimitive'], start: INT, end: INT, dim: INT):
-- 
2.43.0


From 6e705a58da957bb3330064278887b8dac5ef4540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:04 +0000
Subject: [PATCH 045/113] fix: BVH leaves chosen by the area heuristic indexed
 the primitives with a build record (TypeError)

---
 pytracer/aggregate/accelerator/bvh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/aggregate/accelerator/bvh.py b/pytracer/aggregate/accelerator/bvh.py
index c1d0739..44dc258 100644
--- a/pytracer/aggregate/accelerator/bvh.py
+++ b/pytracer/aggregate/accelerator/bvh.py
@@ -260,7 +260,7 @@ class BVH(Aggregate):
 					else:
 						first = len(ordered_prims)
 						for i in range(start, end):
-							ordered_prims.append(self.primitives[data[i]].prim_idx)
+							ordered_prims.append(self.primitives[data[i].prim_idx])
 						node.init_leaf(first, n_prim, bbox)
 						return node
 
-- 
2.43.0


From 2012dd4ce56f527fab5428b9e5c347c2832bf450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:04 +0000
Subject: [PATCH 046/113] fix: BVH traversal overflowed its stack of 64 entries
 on deep trees

---
 pytracer/aggregate/accelerator/bvh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/aggregate/accelerator/bvh.py b/pytracer/aggregate/accelerator/bvh.py
index 44dc258..a87def8 100644
--- a/pytracer/aggregate/accelerator/bvh.py
+++ b/pytracer/aggregate/accelerator/bvh.py
@@ -329,7 +329,7 @@ class BVH(Aggregate):
 		
 		todo_idx = 0
 		node_idx = 0
-		todo = [None] * 64
+		todo = [None] * len(self.nodes)
 		while True:
 			node = self.nodes[node_idx]
 			# check intersection
@@ -374,7 +374,7 @@ class BVH(Aggregate):
 
 		todo_idx = 0
 		node_idx = 0
-		todo = [None] * 64
+		todo = [None] * len(self.nodes)
 		while True:
 			node = self.nodes[node_idx]
 			# check intersection
-- 
2.43.0


From 1056adc63397eae654e8ffd28f6009d787dfdb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:04 +0000
Subject: [PATCH 047/113] fix: BVH slab test missed boxes for rays within a
 slab plane and at the ends of the ray

---
 pytracer/aggregate/accelerator/bvh.py | 42 ++++++++++-----------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/pytracer/aggregate/accelerator/bvh.py b/pytracer/aggregate/accelerator/bvh.py
index a87def8..285d71f 100644
--- a/pytracer/aggregate/accelerator/bvh.py
+++ b/pytracer/aggregate/accelerator/bvh.py
@@ -294,30 +294,20 @@ class BVH(Aggregate):
 	
 	@staticmethod
 	def _intersect_p(bounds: geo.BBox, ray: geo.Ray, inv_dir: geo.Vector, dir_neg: [bool]) -> bool:
-		# ray intersection against x and y slabs
-		tmin = (bounds[dir_neg[0]].x - ray.o.x) * inv_dir.x
-		tmax = (bounds[1-dir_neg[0]].x - ray.o.x) * inv_dir.x
-		tmin_y = (bounds[dir_neg[1]].y - ray.o.y) * inv_dir.y
-		tmax_y = (bounds[1 - dir_neg[1]].y - ray.o.y) * inv_dir.y
-		
-		if tmin > tmax_y or tmin_y > tmax:
-			return False
-		if tmin_y > tmin:
-			tmin = tmin_y
-		if tmax_y < tmax:
-			tmax = tmax_y
-		# z slab
-		tmin_z = (bounds[dir_neg[2]].z - ray.o.z) * inv_dir.z
-		tmax_z = (bounds[1 - dir_neg[2]].z - ray.o.z) * inv_dir.z
-
-		if tmin > tmax_z or tmin_z > tmax:
-			return False
-		if tmin_z > tmin:
-			tmin = tmin_z
-		if tmax_z < tmax:
-			tmax = tmax_z
-	
-		return tmin < ray.maxt and tmax > ray.mint
+		# clip the range of the ray against the slabs
+		tmin, tmax = ray.mint, ray.maxt
+		for axis in range(3):
+			near = (bounds[dir_neg[axis]][axis] - ray.o[axis]) * inv_dir[axis]
+			far = (bounds[1 - dir_neg[axis]][axis] - ray.o[axis]) * inv_dir[axis]
+			# NaN for a ray within a slab plane, which does not narrow the range
+			if near > tmin:
+				tmin = near
+			if far < tmax:
+				tmax = far
+			if tmin > tmax:
+				return False
+
+		return True
 
 	def intersect(self, ray: 'geo.Ray', isect: 'Intersection') -> bool:
 		from pytracer.aggregate.accelerator.bvh import BVH
@@ -325,7 +315,7 @@ class BVH(Aggregate):
 			return False
 		hit = False
 		inv_dir = 1. / ray.d
-		dir_neg = ray.d < 0.
+		dir_neg = inv_dir < 0.
 		
 		todo_idx = 0
 		node_idx = 0
@@ -370,7 +360,7 @@ class BVH(Aggregate):
 			return False
 		origin = ray(ray.mint)
 		inv_dir = 1. / ray.d
-		dir_neg = ray.d < 0.
+		dir_neg = inv_dir < 0.
 
 		todo_idx = 0
 		node_idx = 0
-- 
2.43.0


From 0881c98bae4e964400b36754f82d07b604310f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:48 +0000
Subject: [PATCH 048/113] fix: TransformedPrimitive was abstract and referred
 to the fields of a shape primitive

---
 pytracer/aggregate/primitive.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pytracer/aggregate/primitive.py b/pytracer/aggregate/primitive.py
index 8daeae1..d6441d5 100644
--- a/pytracer/aggregate/primitive.py
+++ b/pytracer/aggregate/primitive.py
@@ -141,7 +141,7 @@ class TransformedPrimitive(Primitive):
 		self.w2p = w2p
 
 	def __repr__(self):
-		return super().__repr__(self) + '\n{}'.format(self.prim)
+		return super().__repr__() + '\n{}'.format(self.primitive)
 
 	def intersect(self, r: 'geo.Ray', isect: 'Intersection') -> bool:
 		w2p = self.w2p.interpolate(r.time)
@@ -170,17 +170,27 @@ class TransformedPrimitive(Primitive):
 		return True
 
 	def intersect_p(self, r: 'geo.Ray') -> bool:
-		return self.primitive.intersect_p(self.w2p(r))		
+		return self.primitive.intersect_p(self.w2p.interpolate(r.time)(r))
 
 	def world_bound(self) -> 'geo.BBox':
 		return self.w2p.motion_bounds(self.primitive.world_bound(), True)
 
 	def can_intersect(self) -> bool:
-		return self.shape.can_intersect()
+		return self.primitive.can_intersect()
 
 	def refine(self, refined: ['Primitive']):
-		r = self.shape.refine()
-		for sh in r:
-			refined.append(GeometricPrimitive(sh, self.material, self.areaLight))
+		parts = []
+		self.primitive.refine(parts)
+		for prim in parts:
+			refined.append(TransformedPrimitive(prim, self.w2p))
+
+	def get_area_light(self):
+		return self.primitive.get_area_light()
+
+	def get_bsdf(self, dg: 'geo.DifferentialGeometry', o2w: 'trans.Transform'):
+		return self.primitive.get_bsdf(dg, o2w)
+
+	def get_bssrdf(self, dg: 'geo.DifferentialGeometry', o2w: 'trans.Transform'):
+		return self.primitive.get_bssrdf(dg, o2w)
 
 
-- 
2.43.0


From 9384c511f433a9ece17aa10317394d576194797d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:48 +0000
Subject: [PATCH 049/113] fix: SimpleAggregate dropped hits closer than one
 found before

---
 pytracer/aggregate/aggregate.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pytracer/aggregate/aggregate.py b/pytracer/aggregate/aggregate.py
index 029c9a2..cd76bb3 100644
--- a/pytracer/aggregate/aggregate.py
+++ b/pytracer/aggregate/aggregate.py
@@ -81,10 +81,6 @@ class SimpleAggregate(Aggregate):
 		mint = np.inf
 		for pr in self.primitives:
 			if pr.intersect(ray, tmp):
-				t0 = max(t0, ray.maxt)
-				t1 = min(t1, ray.maxt)
-				if t0 > t1:
-					continue
 				any_hit = True
 				if ray.maxt < mint:
 					mint = ray.maxt
-- 
2.43.0


From f79debad4cbea9463d3ffe76c188b338ed40789c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:48 +0000
Subject: [PATCH 050/113] fix: GridAccel walked from the origin of rays that
 start outside, and intersect_p never culled

---
 pytracer/aggregate/aggregate.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pytracer/aggregate/aggregate.py b/pytracer/aggregate/aggregate.py
index cd76bb3..88120b5 100644
--- a/pytracer/aggregate/aggregate.py
+++ b/pytracer/aggregate/aggregate.py
@@ -245,10 +245,8 @@ class GridAccel(Aggregate):
 
 	def intersect(self, ray: 'geo.Ray', isect: 'Intersection') -> bool:
 		# Check ray aginst overall bounds
-		ray_t = 0.
-		if self.bounds.inside(ray(ray.mint)):
-			ray_t = ray.mint
-		elif not self.bounds.intersect_p(ray)[0]:
+		hit, ray_t, _ = self.bounds.intersect_p(ray)
+		if not hit:
 			return False
 
 		grid_intersect = ray(ray_t)
@@ -295,10 +293,8 @@ class GridAccel(Aggregate):
 
 	def intersect_p(self, ray: 'geo.Ray') -> bool:
 		# Check ray aginst overall bounds
-		ray_t = 0.
-		if self.bounds.inside(ray(ray.mint)):
-			ray_t = ray.mint
-		elif not self.bounds.intersect_p(ray):
+		hit, ray_t, _ = self.bounds.intersect_p(ray)
+		if not hit:
 			return False
 
 		grid_intersect = ray(ray_t)
-- 
2.43.0


From c8779c85a46c39d0b33ce545d31b4a4a403dd0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:48 +0000
Subject: [PATCH 051/113] fix: GridAccel computed plane crossings with the
 wrong precedence

---
 pytracer/aggregate/aggregate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/aggregate/aggregate.py b/pytracer/aggregate/aggregate.py
index 88120b5..d3fe910 100644
--- a/pytracer/aggregate/aggregate.py
+++ b/pytracer/aggregate/aggregate.py
@@ -258,7 +258,7 @@ class GridAccel(Aggregate):
 
 		pos = [self.pos2voxel(grid_intersect, axis) for axis in range(3)]
 
-		next_crossing = [ray_t + self.voxel2pos(pos[axis] + 1, axis) - grid_intersect[axis] / ray.d[axis] \
+		next_crossing = [ray_t + (self.voxel2pos(pos[axis] + 1, axis) - grid_intersect[axis]) / ray.d[axis] \
 		                 for axis in range(3)]
 		delta_t = self.width / ray.d
 		step = np.full(3, 1)
@@ -267,7 +267,7 @@ class GridAccel(Aggregate):
 			# compute current voxel
 			if ray.d[axis] < 0:
 				# ray with neg. direction for stepping
-				next_crossing[axis] = ray_t + self.voxel2pos(pos[axis], axis) - grid_intersect[axis] / ray.d[axis]
+				next_crossing[axis] = ray_t + (self.voxel2pos(pos[axis], axis) - grid_intersect[axis]) / ray.d[axis]
 				delta_t[axis] *= -1
 				step[axis] = -1
 				out[axis] = -1
@@ -306,7 +306,7 @@ class GridAccel(Aggregate):
 
 		pos = [self.pos2voxel(grid_intersect, axis) for axis in range(3)]
 
-		next_crossing = [ray_t + self.voxel2pos(pos[axis] + 1, axis) - grid_intersect[axis] / ray.d[axis] \
+		next_crossing = [ray_t + (self.voxel2pos(pos[axis] + 1, axis) - grid_intersect[axis]) / ray.d[axis] \
 		                 for axis in range(3)]
 		delta_t = self.width / ray.d
 		step = np.full(3, 1)
@@ -315,7 +315,7 @@ class GridAccel(Aggregate):
 			# compute current voxel
 			if ray.d[axis] < 0:
 				# ray with neg. direction for stepping
-				next_crossing[axis] = ray_t + self.voxel2pos(pos[axis], axis) - grid_intersect[axis] / ray.d[axis]
+				next_crossing[axis] = ray_t + (self.voxel2pos(pos[axis], axis) - grid_intersect[axis]) / ray.d[axis]
 				delta_t[axis] *= -1
 				step[axis] = -1
 				out[axis] = -1
-- 
2.43.0


From def2307f3c79dc35204416237c3c1c72ee9a560f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:48 +0000
Subject: [PATCH 052/113] fix: GridAccel left the grid at once for rays
 parallel to an axis

---
 pytracer/aggregate/aggregate.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pytracer/aggregate/aggregate.py b/pytracer/aggregate/aggregate.py
index d3fe910..db1379b 100644
--- a/pytracer/aggregate/aggregate.py
+++ b/pytracer/aggregate/aggregate.py
@@ -258,7 +258,9 @@ class GridAccel(Aggregate):
 
 		pos = [self.pos2voxel(grid_intersect, axis) for axis in range(3)]
 
-		next_crossing = [ray_t + (self.voxel2pos(pos[axis] + 1, axis) - grid_intersect[axis]) / ray.d[axis] \
+		# a ray parallel to an axis never leaves its slab
+		next_crossing = [np.inf if ray.d[axis] == 0 else \
+		                 ray_t + (self.voxel2pos(pos[axis] + 1, axis) - grid_intersect[axis]) / ray.d[axis] \
 		                 for axis in range(3)]
 		delta_t = self.width / ray.d
 		step = np.full(3, 1)
@@ -306,7 +308,9 @@ class GridAccel(Aggregate):
 
 		pos = [self.pos2voxel(grid_intersect, axis) for axis in range(3)]
 
-		next_crossing = [ray_t + (self.voxel2pos(pos[axis] + 1, axis) - grid_intersect[axis]) / ray.d[axis] \
+		# a ray parallel to an axis never leaves its slab
+		next_crossing = [np.inf if ray.d[axis] == 0 else \
+		                 ray_t + (self.voxel2pos(pos[axis] + 1, axis) - grid_intersect[axis]) / ray.d[axis] \
 		                 for axis in range(3)]
 		delta_t = self.width / ray.d
 		step = np.full(3, 1)
-- 
2.43.0


From 2d222a6d9ed4320dcaa7a15f5b8f31ca3a0642bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:48 +0000
Subject: [PATCH 053/113] fix: Scene enlarged the bound of its aggregate by
 that of the volume

---
 pytracer/scene/scene.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytracer/scene/scene.py b/pytracer/scene/scene.py
index e81a69e..46133dd 100644
--- a/pytracer/scene/scene.py
+++ b/pytracer/scene/scene.py
@@ -24,7 +24,8 @@ class Scene(object):
 		self.lights = lights
 		self.vr = vr
 
-		self.bound = self.aggregate.world_bound()
+		self.bound = geo.BBox()
+		self.bound.union(self.aggregate.world_bound())
 		if self.vr is not None:
 			self.bound.union(vr.world_bound())
 
-- 
2.43.0


From 47fc56fcadb1a81e3e2861fa8ba69155a8e1167b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:48 +0000
Subject: [PATCH 054/113] fix: GridAccel missed hits where a ray crosses
 several voxel planes at once

---
 pytracer/aggregate/aggregate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytracer/aggregate/aggregate.py b/pytracer/aggregate/aggregate.py
index db1379b..d12d323 100644
--- a/pytracer/aggregate/aggregate.py
+++ b/pytracer/aggregate/aggregate.py
@@ -207,6 +207,10 @@ class GridAccel(Aggregate):
 			pb = prim.world_bound()
 			vmin = [self.pos2voxel(pb.pMin, axis) for axis in range(3)]
 			vmax = [self.pos2voxel(pb.pMax, axis) for axis in range(3)]
+			# a ray through the common plane may leave by either voxel
+			for axis in range(3):
+				if vmin[axis] > 0 and self.voxel2pos(vmin[axis], axis) >= pb.pMin[axis]:
+					vmin[axis] -= 1
 
 			for z in range(vmin[2], vmax[2] + 1):
 				for y in range(vmin[1], vmax[1] + 1):
-- 
2.43.0


From 44f63ab3a999e17a887aed3eaf6177be878eb70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:34 +0000
Subject: [PATCH 055/113] fix: lights passed the time of a sample as the depth
 of the rays leaving them

---
 pytracer/light/light.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index ecc0966..b2cbba7 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -137,7 +137,7 @@ class PointLight(Light):
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
 		ray = geo.Ray(self.pos, mc.uniform_sample_sphere(ls.u_pos[0], ls.u_pos[1]),
-						0., np.inf, time)
+						0., np.inf, time=time)
 		Ns = geo.Normal.fromVector(ray.d)
 		pdf = mc.uniform_sphere_pdf()
 		return [ray, Ns, pdf, self.intensity]
@@ -200,7 +200,7 @@ class SpotLight(Light):
 		
 		v = mc.uniform_sample_cone(ls.u_pos[0], ls.u_pos[1], self.cos_width)
 
-		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time)
+		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time=time)
 		Ns = geo.Normal.fromVector(ray.d)
 		pdf = mc.uniform_cone_pdf(self.cos_width)
 		return [ray, Ns, pdf, self.intensity * self.__falloff(ray.d)]
@@ -309,7 +309,7 @@ class ProjectionLight(Light):
 		
 		v = mc.uniform_sample_cone(ls.u_pos[0], ls.u_pos[1], self.cos_width)
 
-		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time)
+		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time=time)
 		Ns = geo.Normal.fromVector(ray.d)
 		pdf = mc.uniform_cone_pdf(self.cos_width)
 		return [ray, Ns, pdf, self.intensity * self.__projection(ray.d)]
@@ -394,7 +394,7 @@ class GonioPhotometricLight(Light):
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
 		ray = geo.Ray(self.pos, mc.uniform_sample_sphere(ls.u_pos[0], ls.u_pos[1]),
-						0., np.inf, time)
+						0., np.inf, time=time)
 		Ns = geo.Normal.fromVector(ray.d)
 		pdf = mc.uniform_sphere_pdf()
 		return [ray, Ns, pdf, self.intensity * self.__scale(ray.d)]
@@ -444,7 +444,7 @@ class DistantLight(Light):
 		pnt = ctr + rad * (d1 * v1 + d2 * v2)
 
 		# set ray
-		ray = geo.Ray(pnt + rad * self.di, -self.di, 0., np.inf, time)
+		ray = geo.Ray(pnt + rad * self.di, -self.di, 0., np.inf, time=time)
 		Ns = geo.Normal.fromVector(ray.d)
 		pdf = 1. / (PI * rad * rad)
 		return [ray, Ns, pdf, self.l]
@@ -531,7 +531,7 @@ class DiffuseAreaLight(Light):
 		di = mc.uniform_sample_sphere(u1, u2)
 		if di.dot(Ns) < 0.:
 			di *= -1.
-		ray = geo.Ray(org, di, EPS, np.inf, time)
+		ray = geo.Ray(org, di, EPS, np.inf, time=time)
 		pdf = self.shape_set.pdf(org) * INV_2PI
 		return [ray, Ns, pdf, self.l(org, Ns, di)]
 
@@ -666,7 +666,7 @@ class InfiniteAreaLight(Light):
 		pnt = ctr + rad * (d1 * v1 + d2 * v2)
 
 		# set ray
-		ray = geo.Ray(pnt + rad * (-d), d, 0., np.inf, time)
+		ray = geo.Ray(pnt + rad * (-d), d, 0., np.inf, time=time)
 
 		# compute pdf
 		dir_pdf = pdf / (2. * PI * PI * st)
-- 
2.43.0


From 8eb1a6f9328f824576bf3a79aed3346c1f979209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:34 +0000
Subject: [PATCH 056/113] fix: lights called a method Normal does not have

---
 pytracer/light/light.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index b2cbba7..1f96e42 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -138,7 +138,7 @@ class PointLight(Light):
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
 		ray = geo.Ray(self.pos, mc.uniform_sample_sphere(ls.u_pos[0], ls.u_pos[1]),
 						0., np.inf, time=time)
-		Ns = geo.Normal.fromVector(ray.d)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_sphere_pdf()
 		return [ray, Ns, pdf, self.intensity]
 
@@ -201,7 +201,7 @@ class SpotLight(Light):
 		v = mc.uniform_sample_cone(ls.u_pos[0], ls.u_pos[1], self.cos_width)
 
 		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time=time)
-		Ns = geo.Normal.fromVector(ray.d)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_cone_pdf(self.cos_width)
 		return [ray, Ns, pdf, self.intensity * self.__falloff(ray.d)]
 
@@ -310,7 +310,7 @@ class ProjectionLight(Light):
 		v = mc.uniform_sample_cone(ls.u_pos[0], ls.u_pos[1], self.cos_width)
 
 		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time=time)
-		Ns = geo.Normal.fromVector(ray.d)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_cone_pdf(self.cos_width)
 		return [ray, Ns, pdf, self.intensity * self.__projection(ray.d)]
 
@@ -395,7 +395,7 @@ class GonioPhotometricLight(Light):
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
 		ray = geo.Ray(self.pos, mc.uniform_sample_sphere(ls.u_pos[0], ls.u_pos[1]),
 						0., np.inf, time=time)
-		Ns = geo.Normal.fromVector(ray.d)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_sphere_pdf()
 		return [ray, Ns, pdf, self.intensity * self.__scale(ray.d)]
 
@@ -445,7 +445,7 @@ class DistantLight(Light):
 
 		# set ray
 		ray = geo.Ray(pnt + rad * self.di, -self.di, 0., np.inf, time=time)
-		Ns = geo.Normal.fromVector(ray.d)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = 1. / (PI * rad * rad)
 		return [ray, Ns, pdf, self.l]
 
@@ -657,7 +657,7 @@ class InfiniteAreaLight(Light):
 		sp = np.sin(phi)
 		cp = np.cos(phi)
 		d = -self.l2w(geo.Vector(st * cp, st * sp, ct))
-		Ns = geo.Normal.fromVector(d)
+		Ns = geo.Normal.from_arr(d)
 
 		# choose point on disk oriented towards light
 		ctr, rad = scene.world_bound().bounding_sphere()
-- 
2.43.0


From 3a4018d5d5fa5da87c0a948696357f1e0f8324c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:34 +0000
Subject: [PATCH 057/113] fix: the power of a light was a property although it
 takes the scene

---
 pytracer/light/light.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 1f96e42..e214b4c 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -81,7 +81,6 @@ class Light(object, metaclass=ABCMeta):
 		raise NotImplementedError('src.core.light.{}.pdf(): abstract method '
 									'called'.format(self.__class__)) 		
 
-	@property
 	@abstractmethod
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		"""
@@ -144,7 +143,6 @@ class PointLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		return 4. * PI * self.intensity
 
@@ -207,7 +205,6 @@ class SpotLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		"""
 		power()
@@ -316,7 +313,6 @@ class ProjectionLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		"""
 		power()
@@ -401,7 +397,6 @@ class GonioPhotometricLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		return 4. * PI * self.intensity * Spectrum(self.MIPMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
 
@@ -451,7 +446,6 @@ class DistantLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		"""
 		power()
@@ -539,7 +533,6 @@ class DiffuseAreaLight(Light):
 
 
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		return self.emit * self.area * PI
 
@@ -677,7 +670,6 @@ class InfiniteAreaLight(Light):
 
 		return [ray, Ns, pdf, Spectrum.from_rgb(self.radMap.look_up([uv[0], uv[1]]), SpectrumType.ILLUMINANT)]
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		_, rad = scene.world_bound().bounding_sphere()
 		return PI * rad * rad * Spectrum.from_rgb(self.radMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
-- 
2.43.0


From 502e1100b3597f48b8cba7118f1d7a485ae754d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:34 +0000
Subject: [PATCH 058/113] fix: spot, projection and goniophotometric lights
 divided by their profile and ignored the distance

---
 pytracer/light/light.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index e214b4c..c356b99 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -191,7 +191,7 @@ class SpotLight(Light):
 		pdf = 1.
 		vis = VisibilityTester()
 		vis.set_segment(p, pEps, self.pos, 0., time)
-		return [self.intensity / self.__falloff(-wi), wi, pdf, vis]
+		return [self.intensity * self.__falloff(-wi) / (self.pos - p).sq_length(), wi, pdf, vis]
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
@@ -299,7 +299,7 @@ class ProjectionLight(Light):
 		pdf = 1.
 		vis = VisibilityTester()
 		vis.set_segment(p, pEps, self.pos, 0., time)
-		return [self.intensity / self.__projection(-wi), wi, pdf, vis]
+		return [self.intensity * self.__projection(-wi) / (self.pos - p).sq_length(), wi, pdf, vis]
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
@@ -385,7 +385,7 @@ class GonioPhotometricLight(Light):
 		pdf = 1.
 		vis = VisibilityTester()
 		vis.set_segment(p, pEps, self.pos, 0., time)
-		return [self.intensity / self.__scale(-wi), wi, pdf, vis]
+		return [self.intensity * self.__scale(-wi) / (self.pos - p).sq_length(), wi, pdf, vis]
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
-- 
2.43.0


From f9f8f5293d9f34f8547f8a404505915d31160615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:34 +0000
Subject: [PATCH 059/113] fix: lights with an image took three dimensions for
 two and could not do without an image

---
 pytracer/light/light.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index c356b99..953615a 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -234,12 +234,12 @@ class ProjectionLight(Light):
 		try:
 			import pytracer.utility.imageio as iio
 			texels = iio.read_image(texname)
-			width, height = np.shape(texels)
+			height, width = np.shape(texels)[0:2]
 		except:
 			print('src.core.texture.{}.get_texture(): cannot process file {}, '
 					'use default one-valued MIPMap'.format(self.__class__, texname))
 			texels = None
-			width, height = 0, 0
+			width, height = 1, 1
 
 		if texels is not None:
 			from pytracer.texture import MIPMap
@@ -321,8 +321,10 @@ class ProjectionLight(Light):
 		diagonal of the image, scaled
 		by the average intensity.
 		"""
-		return Spectrum( self.projMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT) * \
-					self.intensity * 2. * PI * (1. - self.cos_width)
+		scale = Spectrum(1.)
+		if self.projMap is not None:
+			scale = Spectrum(self.projMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
+		return scale * self.intensity * 2. * PI * (1. - self.cos_width)
 
 	def is_delta_light(self) -> bool:
 		return True
@@ -343,7 +345,7 @@ class GonioPhotometricLight(Light):
 		try:
 			import pytracer.utility.imageio as iio
 			texels = iio.read_image(texname)
-			width, height = np.shape(texels)
+			height, width = np.shape(texels)[0:2]
 		except:
 			print('src.core.texture.{}.get_texture(): cannot process file {}, '
 					'use default one-valued MIPMap'.format(self.__class__, texname))
@@ -398,7 +400,10 @@ class GonioPhotometricLight(Light):
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
 	def power(self, scene: 'Scene') -> 'Spectrum':
-		return 4. * PI * self.intensity * Spectrum(self.MIPMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
+		scale = Spectrum(1.)
+		if self.MIPMap is not None:
+			scale = Spectrum(self.MIPMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
+		return 4. * PI * self.intensity * scale
 
 	def is_delta_light(self) -> bool:
 		return True
@@ -560,7 +565,7 @@ class InfiniteAreaLight(Light):
 			try:
 				import pytracer.utility.imageio as iio
 				texels = iio.read_image(texmap)
-				width, height = np.shape(texels)
+				height, width = np.shape(texels)[0:2]
 			except:
 				print('src.core.texture.{}.get_texture(): cannot process file {}, '
 				'use default one-valued MIPMap'.format(self.__class__, texmap))
-- 
2.43.0


From 8a9ebc0c3b262b230e3660ca96f3d157877b0a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:34 +0000
Subject: [PATCH 060/113] fix: goniophotometric lights looked up a map they do
 not have

---
 pytracer/light/light.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 953615a..750c145 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -373,13 +373,13 @@ class GonioPhotometricLight(Light):
 			return Spectrum(1.)
 
 		wp = geo.normalize(self.w2l(w))
-		wp.z, wp.y = wp.y, wp.z
+		wp = geo.Vector(wp.x, wp.z, wp.y)
 		theta = geo.spherical_theta(wp)
 		phi = geo.spherical_phi(wp)
 		s = phi * INV_2PI
 		t = theta * INV_PI
 
-		return Spectrum(self.projMap.look_up([s, t]), SpectrumType.ILLUMINANT)
+		return Spectrum(self.MIPMap.look_up([s, t]), SpectrumType.ILLUMINANT)
 
 	def sample_l(self, p: 'geo.Point', pEps: FLOAT, ls: 'LightSample',
 			time: FLOAT,) -> ['Spectrum', 'geo.Vector', FLOAT, 'VisibilityTester']:	
-- 
2.43.0


From 4da2305a3b93d9cf6b7a33bf2b630dcdb8d8acdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:34 +0000
Subject: [PATCH 061/113] fix: distant lights set their shadow rays with a
 position they do not have

---
 pytracer/light/light.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 750c145..69c7310 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -427,7 +427,7 @@ class DistantLight(Light):
 		wi = self.di.copy()
 		pdf = 1.
 		vis = VisibilityTester()
-		vis.set_ray(p, pEps, self.pos, wi, time)
+		vis.set_ray(p, pEps, wi, time)
 		return [self.l.copy(), wi, pdf, vis]
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
-- 
2.43.0


From 903a905e50ad5a3f74cca64705bebb5cc69089ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:34 +0000
Subject: [PATCH 062/113] fix: diffuse area lights took the list of areas for
 the area and the wrong density of a point

---
 pytracer/light/light.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 69c7310..eb5966c 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -497,7 +497,7 @@ class DiffuseAreaLight(Light):
 		super().__init__(l2w, ns)
 		self.emit = emit
 		self.shape_set = ShapeSet(shape)
-		self.area = self.shape_set.areas
+		self.area = self.shape_set.sum_area
 
 	# debugging purposes only
 	def le(self, rd: 'geo.RayDifferential'):
@@ -531,7 +531,7 @@ class DiffuseAreaLight(Light):
 		if di.dot(Ns) < 0.:
 			di *= -1.
 		ray = geo.Ray(org, di, EPS, np.inf, time=time)
-		pdf = self.shape_set.pdf(org) * INV_2PI
+		pdf = self.shape_set.pdf_p(org) * INV_2PI
 		return [ray, Ns, pdf, self.l(org, Ns, di)]
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return self.shape_set.pdf(p, wi)
-- 
2.43.0


From e27ee113dd06e5ca39312b9d715fd513f64702c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:34 +0000
Subject: [PATCH 063/113] fix: infinite lights computed wrong densities and
 directions, and failed at the poles

---
 pytracer/light/light.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index eb5966c..4687409 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -596,7 +596,7 @@ class InfiniteAreaLight(Light):
 		wh = geo.normalize(self.w2l(rd.d))
 		s = geo.spherical_phi(wh) * INV_2PI
 		t = geo.spherical_theta(wh) * INV_PI
-		return Spectrum.from_rgb(self.radMap.look_up(s, t), SpectrumType.ILLUMINANT)
+		return Spectrum.from_rgb(self.radMap.look_up([s, t]), SpectrumType.ILLUMINANT)
 
 	def sample_l(self, p: 'geo.Point', pEps: FLOAT, ls: 'LightSample',
 			time: FLOAT,) -> ['Spectrum', 'geo.Vector', FLOAT, 'VisibilityTester']:	
@@ -616,8 +616,8 @@ class InfiniteAreaLight(Light):
 		# compute pdf for sampled inf light direction
 		if st == 0.:
 			pdf = 0.
-		pdf = pdf / (2. * PI * PI * st)
-
+		else:
+			pdf = pdf / (2. * PI * PI * st)
 
 		# return radiance value
 		vis = VisibilityTester()
@@ -633,8 +633,8 @@ class InfiniteAreaLight(Light):
 		st = np.sin(theta)
 		if st == 0.:
 			return 0.
-		return self.dist.pdf(phi * INV_2PI, theta * INV_PI / 
-				(2. * PI * PI * st))
+		return self.dist.pdf(phi * INV_2PI, theta * INV_PI) / \
+				(2. * PI * PI * st)
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
@@ -659,19 +659,20 @@ class InfiniteAreaLight(Light):
 
 		# choose point on disk oriented towards light
 		ctr, rad = scene.world_bound().bounding_sphere()
-		_, v1, v2 = geo.coordinate_system(self.di)
-		d1, d2 = mc.concentric_sample_disk(ls.u_pos[0], ls.u_pos[1])
+		_, v1, v2 = geo.coordinate_system(-d)
+		d1, d2 = mc.concentric_sample_disk(u1, u2)
 		pnt = ctr + rad * (d1 * v1 + d2 * v2)
 
 		# set ray
 		ray = geo.Ray(pnt + rad * (-d), d, 0., np.inf, time=time)
 
 		# compute pdf
-		dir_pdf = pdf / (2. * PI * PI * st)
-		area_pdf = 1. / (PI * rad * rad)
-		pdf = dir_pdf * area_pdf
 		if st == 0.:
-			pdf == 0.
+			pdf = 0.
+		else:
+			dir_pdf = pdf / (2. * PI * PI * st)
+			area_pdf = 1. / (PI * rad * rad)
+			pdf = dir_pdf * area_pdf
 
 		return [ray, Ns, pdf, Spectrum.from_rgb(self.radMap.look_up([uv[0], uv[1]]), SpectrumType.ILLUMINANT)]
 
-- 
2.43.0


From def87350d6d7aeaef7765cf424ed26340b10e909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:34 +0000
Subject: [PATCH 064/113] fix: VisibilityTester dropped the ray it is made with

---
 pytracer/light/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/light/utility.py b/pytracer/light/utility.py
index ccb9dc7..d4f0046 100644
--- a/pytracer/light/utility.py
+++ b/pytracer/light/utility.py
@@ -26,7 +26,7 @@ class VisibilityTester(object):
 	VisibilityTester Class
 	"""
 	def __init__(self, ray: 'geo.Ray'=None):
-		self.ray = None
+		self.ray = ray
 
 	def __repr__(self):
 		return "{}\ngeo.Ray: {}\n".format(self.__class__, self.ray)
-- 
2.43.0


From a3ad1967fa8fb4768d0749b15b8fd0196229c4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:20 +0000
Subject: [PATCH 065/113] fix: lights with an image gave the spectrum class an
 argument it does not take

---
 pytracer/light/light.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 4687409..27fa0d6 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -291,7 +291,7 @@ class ProjectionLight(Light):
 
 		s = (pl.x - self.scr_x0) / (self.scr_x1 - self.scr_x0)
 		t = (pl.y - self.scr_y0) / (self.scr_y1 - self.scr_y0)
-		return Spectrum(self.projMap.look_up([s, t]), SpectrumType.ILLUMINANT) 
+		return Spectrum.from_rgb(self.projMap.look_up([s, t]), SpectrumType.ILLUMINANT) 
 
 	def sample_l(self, p: 'geo.Point', pEps: FLOAT, ls: 'LightSample',
 			time: FLOAT,) -> ['Spectrum', 'geo.Vector', FLOAT, 'VisibilityTester']:	
@@ -323,7 +323,7 @@ class ProjectionLight(Light):
 		"""
 		scale = Spectrum(1.)
 		if self.projMap is not None:
-			scale = Spectrum(self.projMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
+			scale = Spectrum.from_rgb(self.projMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
 		return scale * self.intensity * 2. * PI * (1. - self.cos_width)
 
 	def is_delta_light(self) -> bool:
@@ -379,7 +379,7 @@ class GonioPhotometricLight(Light):
 		s = phi * INV_2PI
 		t = theta * INV_PI
 
-		return Spectrum(self.MIPMap.look_up([s, t]), SpectrumType.ILLUMINANT)
+		return Spectrum.from_rgb(self.MIPMap.look_up([s, t]), SpectrumType.ILLUMINANT)
 
 	def sample_l(self, p: 'geo.Point', pEps: FLOAT, ls: 'LightSample',
 			time: FLOAT,) -> ['Spectrum', 'geo.Vector', FLOAT, 'VisibilityTester']:	
@@ -402,7 +402,7 @@ class GonioPhotometricLight(Light):
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		scale = Spectrum(1.)
 		if self.MIPMap is not None:
-			scale = Spectrum(self.MIPMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
+			scale = Spectrum.from_rgb(self.MIPMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
 		return 4. * PI * self.intensity * scale
 
 	def is_delta_light(self) -> bool:
-- 
2.43.0


From 4ec18a6cd55fae32fe59a58d2707ec5b38d5af9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:36 +0000
Subject: [PATCH 066/113] fix: the cone of a projection light missed the
 corners of wide images

---
 pytracer/light/light.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 27fa0d6..65a6e01 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -266,7 +266,7 @@ class ProjectionLight(Light):
 		self.proj_trans = trans.Transform.perspective(fov, self.hither, self.yon)
 
 		# compute cosine of cone
-		self.cos_width = np.cos(np.arctan(np.tan(np.deg2rad(fov) / 2.) * np.sqrt(1. + 1. / (aspect * aspect))))
+		self.cos_width = np.cos(np.arctan(np.tan(np.deg2rad(fov) / 2.) * np.sqrt(self.scr_x1 * self.scr_x1 + self.scr_y1 * self.scr_y1)))
 
 	def __projection(self, w: 'geo.Vector') -> 'Spectrum':
 		"""
-- 
2.43.0


From 2b143edad572b72dcedca6196bfdf8fadfc856d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:20 +0000
Subject: [PATCH 067/113] fix: Schlick's phase function multiplied by a factor
 it should divide by

---
 pytracer/volume/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/volume/utility.py b/pytracer/volume/utility.py
index 46af7f3..712bcdd 100644
--- a/pytracer/volume/utility.py
+++ b/pytracer/volume/utility.py
@@ -49,7 +49,7 @@ def phase_hg(w: 'geo.Vector', wp: 'geo.Vector', g: FLOAT) -> FLOAT:
 def phase_schlick(w: 'geo.Vector', wp: 'geo.Vector', g: FLOAT) -> FLOAT:
 	k = 1.55 * g - .55 * g * g * g
 	kct = k * w.dot(wp)
-	return ((1. - k * k) / (1. - kct) * (1. - kct)) / (4. * PI);
+	return ((1. - k * k) / ((1. - kct) * (1. - kct))) / (4. * PI);
 
 
 # Utility Functions
-- 
2.43.0


From aa1ca32ac66909b648cedd5230c2a52d0cfb2783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:20 +0000
Subject: [PATCH 068/113] fix: measured absorption and scattering were
 exchanged

---
 pytracer/volume/utility.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pytracer/volume/utility.py b/pytracer/volume/utility.py
index 712bcdd..d3ac1b0 100644
--- a/pytracer/volume/utility.py
+++ b/pytracer/volume/utility.py
@@ -72,8 +72,9 @@ def get_volume_scattering(name: str) -> ['Spectrum', 'Spectrum']:
 	"""
 	from pytracer.data.volume import MEASURED_SUF_SC
 	if name in MEASURED_SUF_SC:
-		return [Spectrum.from_rgb(MEASURED_SUF_SC[name][0]),
-		        Spectrum.from_rgb(MEASURED_SUF_SC[name][1])]
+		# the table lists sigma'_s before sigma_a
+		return [Spectrum.from_rgb(MEASURED_SUF_SC[name][1]),
+		        Spectrum.from_rgb(MEASURED_SUF_SC[name][0])]
 	return [None, None]
 
 
-- 
2.43.0


From 84c02dc5a11d4bd21f9ab9795a0ff4a12a99f2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:20 +0000
Subject: [PATCH 069/113] fix: volumes were intersected with the ray in world
 space

---
 pytracer/volume/volume.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 2a13f79..7465f5a 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -138,7 +138,7 @@ class HomogeneousVolumeDensity(VolumeRegion):
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
 		r = self.w2v(ray)
-		return self.extent.intersect_p(ray)
+		return self.extent.intersect_p(r)
 
 	def sigma_a(self, pnt: 'geo.Point', vec: 'geo.Vector', tm: FLOAT) ->  'Spectrum':
 		return self.sig_a if self.extent.inside(self.w2v(pnt)) else Spectrum(0.)
@@ -301,7 +301,7 @@ class VolumeGridDensity(DensityRegion):
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
 		r = self.w2v(ray)
-		return self.extent.intersect_p(ray)
+		return self.extent.intersect_p(r)
 
 
 class ExponentialDensity(DensityRegion):
@@ -331,7 +331,7 @@ class ExponentialDensity(DensityRegion):
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
 		r = self.w2v(ray)
-		return self.extent.intersect_p(ray)
+		return self.extent.intersect_p(r)
 
 
 class AggregateVolume(VolumeRegion):
-- 
2.43.0


From 6f5e96a4891e48acbc5b24bc6d694b15336817f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:20 +0000
Subject: [PATCH 070/113] fix: volumes took the time for the asymmetry of the
 phase function

---
 pytracer/volume/volume.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 7465f5a..1c9c7e8 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -157,7 +157,7 @@ class HomogeneousVolumeDensity(VolumeRegion):
 		if not self.extent.inside(self.w2v(pnt)):
 			return 0.
 		from pytracer.volume.utility import phase_hg
-		return phase_hg(wi, wo, tm)
+		return phase_hg(wi, wo, self.g)
 
 	def tau(self, ray: 'geo.Ray', step: FLOAT=1., offset: FLOAT=.5) ->  'Spectrum':
 		isec, t0, t1 = self.intersect_p(ray)
@@ -210,7 +210,7 @@ class DensityRegion(VolumeRegion):
 		Does not scale the phase function.
 		"""
 		from pytracer.volume.utility import phase_hg
-		return phase_hg(w, wp, tm)
+		return phase_hg(w, wp, self.g)
 
 	def sigma_t(self, pnt: 'geo.Point', vec: 'geo.Vector', tm: FLOAT) ->  'Spectrum':
 		return self(self.w2v(pnt)) * (self.sig_a + self.sig_s)
-- 
2.43.0


From 15795e16d068a6a1fedd0f48f628bf369f53916a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:20 +0000
Subject: [PATCH 071/113] fix: optical thickness passed the time of a ray as
 its depth

---
 pytracer/volume/volume.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 1c9c7e8..f82647f 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -222,7 +222,7 @@ class DensityRegion(VolumeRegion):
 		if length == 0.:
 			return tau
 
-		rn = geo.Ray(r.o, r.d / length, r.mint * length, r.maxt * length, r.time)
+		rn = geo.Ray(r.o, r.d / length, r.mint * length, r.maxt * length, time=r.time)
 		hit, t0, t1 = self.intersect_p(rn)
 		if not hit:
 			return tau
-- 
2.43.0


From 1aed9bea68fddae9cf2a0d0c6315c931d8453830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:20 +0000
Subject: [PATCH 072/113] fix: AggregateVolume called a field for its emission

---
 pytracer/volume/volume.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index f82647f..5664fde 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -368,7 +368,7 @@ class AggregateVolume(VolumeRegion):
 	def lve(self, pnt: 'geo.Point', w: 'geo.Vector', tm: FLOAT) ->  'Spectrum':
 		s = Spectrum(0.)
 		for region in self.regions:
-			s += region.le(pnt, w, tm)
+			s += region.lve(pnt, w, tm)
 		return s		
 
 	def p(self, pnt: 'geo.Point', wi: 'geo.Vector', wo: 'geo.Vector', tm: FLOAT) ->  FLOAT:
-- 
2.43.0


From 7e1efdb24f2f1ea1fdaee48c51ff06ceeea9cd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:20 +0000
Subject: [PATCH 073/113] fix: AggregateVolume added phase functions up to a
 spectrum that is none

---
 pytracer/volume/volume.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 5664fde..f49c129 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -372,10 +372,14 @@ class AggregateVolume(VolumeRegion):
 		return s		
 
 	def p(self, pnt: 'geo.Point', wi: 'geo.Vector', wo: 'geo.Vector', tm: FLOAT) ->  FLOAT:
-		s = Spectrum(0.)
+		# mean of the phase functions by the scattering of the regions
+		s = 0.
+		sum_wt = 0.
 		for region in self.regions:
-			s += region.p(pnt, wi, wo, tm)
-		return s		
+			wt = region.sigma_s(pnt, wo, tm).y()
+			s += wt * region.p(pnt, wi, wo, tm)
+			sum_wt += wt
+		return s / sum_wt if sum_wt > 0. else 0.
 
 	def tau(self, ray: 'geo.Ray', step: FLOAT=1., offset: FLOAT=.5) ->  'Spectrum':
 		s = Spectrum(0.)
-- 
2.43.0


From c5244c265d353229b105bed22a8e3002037faae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:20 +0000
Subject: [PATCH 074/113] fix: VolumeGridDensity could not be made and took the
 axes of its grid in the wrong order

---
 pytracer/volume/volume.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index f49c129..10edc60 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -243,18 +243,13 @@ class VolumeGridDensity(DensityRegion):
 	"""
 	def __init__(self, sig_a: 'Spectrum', sig_s: 'Spectrum', g: FLOAT, le: 'Spectrum',
 					extent: 'geo.BBox', v2w: 'trans.Transform', d: 'np.ndarray'):
-		super().__init__()
-		self.sig_a = sig_a
-		self.sig_s = sig_s
-		self.g = g
-		self.le = le
+		super().__init__(sig_a, sig_s, g, le, v2w)
 		self.extent = extent
-		self.w2v = v2w.inverse()
 		self.density = d.copy() 	# 3D np array of densities in [z][y][x] order
 
 	@property
 	def nx(self):
-		return np.shape(self.density)[0]
+		return np.shape(self.density)[2]
 
 	@property
 	def ny(self):
@@ -262,10 +257,12 @@ class VolumeGridDensity(DensityRegion):
 
 	@property
 	def nz(self):
-		return np.shape(self.density)[2]
+		return np.shape(self.density)[0]
 
 	def __D(self, x: INT, y: INT, z: INT) -> FLOAT:
-		x, y, z = np.clip([x, y, z], 0, np.shape(self.density) - 1).astype(INT)
+		x = INT(np.clip(x, 0, self.nx - 1))
+		y = INT(np.clip(y, 0, self.ny - 1))
+		z = INT(np.clip(z, 0, self.nz - 1))
 		return self.density[z][y][x]
 	
 	def __call__(self, pnt: 'geo.Point') -> FLOAT:
@@ -274,7 +271,7 @@ class VolumeGridDensity(DensityRegion):
 
 		# compute voxel coordinates and offsets
 		vox = self.extent.offset(pnt)
-		vox *= np.shape(self.density)
+		vox *= [self.nx, self.ny, self.nz]
 		vox -= .5
 		vx = util.ftoi(vox.x)
 		vy = util.ftoi(vox.y)
-- 
2.43.0


From 76c19e6d51f1ba0855a60a32f15677c7e8c6052c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:20 +0000
Subject: [PATCH 075/113] fix: BSSRDF could not be printed

---
 pytracer/volume/bssrdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/volume/bssrdf.py b/pytracer/volume/bssrdf.py
index 58ddccd..8ba6d8d 100644
--- a/pytracer/volume/bssrdf.py
+++ b/pytracer/volume/bssrdf.py
@@ -28,7 +28,7 @@ class BSSRDF(object):
 		self.__sigp_s = sigp_s #reduced scattering coefficient (1. - sigma_s)
 
 	def __repr__(self):
-		return "{}\nEta: {} sigma_a: {} sigma'_s: {}\n".format(self.__class__,
+		return "{}\nEta: {} sigma_a: {} sigma'_s: {}\n".format(self.__class__, self.__e,
 						self.__sig_a, self.__sigp_s)
 
 	@property
-- 
2.43.0


From eaf0b35278081f38f345ca6ff36f87390a28c4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:06 +0000
Subject: [PATCH 076/113] fix: specular transmission took the transmittance for
 the radiance

---
 pytracer/integrator/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/integrator/utility.py b/pytracer/integrator/utility.py
index 6ee7a79..049e80b 100644
--- a/pytracer/integrator/utility.py
+++ b/pytracer/integrator/utility.py
@@ -194,7 +194,7 @@ def specular_transmit(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersec
 			rd.rxDirection = wi + eta * dwodx - geo.Vector.from_arr(mu * dndx + dmudx * n)
 			rd.ryDirection = wi + eta * dwody - geo.Vector.from_arr(mu * dndy + dmudy * n)
 
-		_, Li = renderer.li(scene, rd, sample, isect, rng)
+		Li, _ = renderer.li(scene, rd, sample, isect, rng)
 		L = f * Li * wi.abs_dot(n) / pdf
 
 	return L
-- 
2.43.0


From d3b504c6bb8372b29dc9b472eae7db438b90c211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:06 +0000
Subject: [PATCH 077/113] fix: direct lighting never sampled the reflection
 unless specular

---
 pytracer/integrator/utility.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/pytracer/integrator/utility.py b/pytracer/integrator/utility.py
index 049e80b..44d5072 100644
--- a/pytracer/integrator/utility.py
+++ b/pytracer/integrator/utility.py
@@ -234,25 +234,26 @@ def estimate_direct(scene: 'Scene', renderer: 'Renderer', light: 'Light', p:'geo
 		bsdf_pdf, wi, smp_type, f = bsdf.sample_f(wo, bsdf_smp, flags)
 		if not util.is_black(f) and bsdf_pdf > 0.:
 			wt = 1.
-			if not (smp_type & BDFType.SPECULAR).v == 0:  # MIS not apply to specular direction
+			if not smp_type & BDFType.SPECULAR:  # MIS not apply to specular direction
 				light_pdf = light.pdf(p, wi)
 				if light_pdf == 0.:
 					return Ld
 				from pytracer.montecarlo import power_heuristic
 				wt = power_heuristic(1, bsdf_pdf, 1, light_pdf)
-				# add contribution
-				Li = Spectrum(0.)
-				ray = geo.RayDifferential(p, wi, r_eps, np.inf, time)
-				hit, light_isect = scene.intersect(ray)
-				if hit:
-					if light_isect.primitive.get_area_light() == light:
-						Li = light_isect.le(-wi)
-				else:
-					Li = light.le(ray) # light illum.
-
-				if not util.is_black(Li):
-					Li *= renderer.transmittance(scene, ray, None, rng) # attenuation
-					Ld += f * Li * wi.abs_dot(n) * wt / bsdf_pdf
+			# add contribution
+			from pytracer.aggregate import Intersection
+			Li = Spectrum(0.)
+			ray = geo.RayDifferential(p, wi, r_eps, np.inf, time=time)
+			light_isect = Intersection()
+			if scene.intersect(ray, light_isect):
+				if light_isect.primitive.get_area_light() == light:
+					Li = light_isect.le(-wi)
+			else:
+				Li = light.le(ray) # light illum.
+
+			if not util.is_black(Li):
+				Li *= renderer.transmittance(scene, ray, None, rng) # attenuation
+				Ld += f * Li * wi.abs_dot(n) * wt / bsdf_pdf
 
 	return Ld
 
-- 
2.43.0


From ccc65c7d0137d31d49567b044e8b4d1be7bcf155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:06 +0000
Subject: [PATCH 078/113] fix: direct lighting attenuated the emission of the
 light itself

---
 pytracer/integrator/utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/integrator/utility.py b/pytracer/integrator/utility.py
index 44d5072..f989ad5 100644
--- a/pytracer/integrator/utility.py
+++ b/pytracer/integrator/utility.py
@@ -219,7 +219,7 @@ def estimate_direct(scene: 'Scene', renderer: 'Renderer', light: 'Light', p:'geo
 			# add contribution to reflected radiance
 			## account for attenuation due to participating media,
 			## left for `VolumeIntegrator` to do
-			Li *= vis.transmittance(scene, renderer, None, rng)
+			Li = Li * vis.transmittance(scene, renderer, None, rng)
 			if light.is_delta_light():
 				Ld += f * Li * (wi.abs_dot(n) / light_pdf)
 			else:
@@ -252,7 +252,7 @@ def estimate_direct(scene: 'Scene', renderer: 'Renderer', light: 'Light', p:'geo
 				Li = light.le(ray) # light illum.
 
 			if not util.is_black(Li):
-				Li *= renderer.transmittance(scene, ray, None, rng) # attenuation
+				Li = Li * renderer.transmittance(scene, ray, None, rng) # attenuation
 				Ld += f * Li * wi.abs_dot(n) * wt / bsdf_pdf
 
 	return Ld
-- 
2.43.0


From 4dcf673dcec7298397d219105e7f585d3cdfdafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:06 +0000
Subject: [PATCH 079/113] fix: specular reflection overwrote the intersection
 it was called for

---
 pytracer/integrator/utility.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pytracer/integrator/utility.py b/pytracer/integrator/utility.py
index f989ad5..b4086dd 100644
--- a/pytracer/integrator/utility.py
+++ b/pytracer/integrator/utility.py
@@ -119,6 +119,7 @@ def uniform_sample_one_light(scene: 'Scene', renderer: 'Renderer', p: 'geo.Point
 
 def specular_reflect(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersection',
                      renderer: 'Renderer', scene: 'Scene', sample: 'Sample', rng) -> 'Spectrum':
+	from pytracer.aggregate import Intersection
 	from pytracer.reflection import (BDFType, BSDFSample)
 
 	wo = -ray.d
@@ -149,7 +150,7 @@ def specular_reflect(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersect
 			rd.rxDirection = wi - dwodx + 2. * geo.Vector.from_arr(wo.dot(n) * dndx + dDNdx * n)
 			rd.ryDirection = wi - dwody + 2. * geo.Vector.from_arr(wo.dot(n) * dndy + dDNdy * n)
 
-		Li, _ = renderer.li(scene, rd, sample, isect, rng)
+		Li, _ = renderer.li(scene, rd, sample, Intersection(), rng)
 		L = f * Li * wi.abs_dot(n) / pdf
 
 	return L
@@ -157,6 +158,7 @@ def specular_reflect(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersect
 
 def specular_transmit(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersection',
                       renderer: 'Renderer', scene: 'Scene', sample: 'Sample', rng) -> 'Spectrum':
+	from pytracer.aggregate import Intersection
 	from pytracer.reflection import (BDFType, BSDFSample)
 	wo = -ray.d
 	p = bsdf.dgs.p
@@ -194,7 +196,7 @@ def specular_transmit(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersec
 			rd.rxDirection = wi + eta * dwodx - geo.Vector.from_arr(mu * dndx + dmudx * n)
 			rd.ryDirection = wi + eta * dwody - geo.Vector.from_arr(mu * dndy + dmudy * n)
 
-		Li, _ = renderer.li(scene, rd, sample, isect, rng)
+		Li, _ = renderer.li(scene, rd, sample, Intersection(), rng)
 		L = f * Li * wi.abs_dot(n) / pdf
 
 	return L
-- 
2.43.0


From 3e407484910672855e4ff0157e00c1aa5937c369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:06 +0000
Subject: [PATCH 080/113] fix: refracted ray differentials had the inverse
 index and two signs wrong

---
 pytracer/integrator/utility.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pytracer/integrator/utility.py b/pytracer/integrator/utility.py
index b4086dd..fa8ba22 100644
--- a/pytracer/integrator/utility.py
+++ b/pytracer/integrator/utility.py
@@ -173,10 +173,10 @@ def specular_transmit(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersec
 			rd.rxOrigin = p + isect.dg.dpdx
 			rd.ryOrigin = p + isect.dg.dpdy
 
-			eta = bsdf.eta
+			eta = 1. / bsdf.eta
 			w = -wo
 			if wo.dot(n) < 0.:
-				eta = 1. / eta
+				eta = bsdf.eta
 
 			# compute reflected directions of differentials
 			dndx = bsdf.dgs.dndu * bsdf.dgs.dudx + \
@@ -190,11 +190,11 @@ def specular_transmit(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersec
 			dDNdy = dwody.dot(n) + wo.dot(dndy)
 
 			mu = eta * w.dot(n) - wi.dot(n)
-			dmudx = (eta - (eta * eta * w.dot(n) / wi.dot(n))) * dDNdx
-			dmudy = (eta - (eta * eta * w.dot(n) / wi.dot(n))) * dDNdy
+			dmudx = -(eta - (eta * eta * w.dot(n) / wi.dot(n))) * dDNdx
+			dmudy = -(eta - (eta * eta * w.dot(n) / wi.dot(n))) * dDNdy
 
-			rd.rxDirection = wi + eta * dwodx - geo.Vector.from_arr(mu * dndx + dmudx * n)
-			rd.ryDirection = wi + eta * dwody - geo.Vector.from_arr(mu * dndy + dmudy * n)
+			rd.rxDirection = wi - eta * dwodx - geo.Vector.from_arr(mu * dndx + dmudx * n)
+			rd.ryDirection = wi - eta * dwody - geo.Vector.from_arr(mu * dndy + dmudy * n)
 
 		Li, _ = renderer.li(scene, rd, sample, Intersection(), rng)
 		L = f * Li * wi.abs_dot(n) / pdf
-- 
2.43.0


From 5642b9fcafea0e8054a876850adb59627d272155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:06 +0000
Subject: [PATCH 081/113] fix: direct lighting from one light could not request
 its samples

---
 pytracer/integrator/surface/direct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/integrator/surface/direct.py b/pytracer/integrator/surface/direct.py
index ad5461c..980341b 100644
--- a/pytracer/integrator/surface/direct.py
+++ b/pytracer/integrator/surface/direct.py
@@ -64,7 +64,7 @@ class DirectLightingIntegrator(SurfaceIntegrator):
 			# sampling one light
 			n_lights = len(scene.lights)
 			self.light_sample_offsets = [LightSampleOffset(1, sample)]
-			self.light_num_offset = sample.add1d(1)
+			self.light_num_offset = sample.add_1d(1)
 			self.bsdf_sample_offsets = [BSDFSampleOffset(1, sample)]
 
 	def li(self, scene: 'Scene', renderer: 'Renderer', ray: 'geo.RayDifferential',
@@ -91,7 +91,7 @@ class DirectLightingIntegrator(SurfaceIntegrator):
 			elif self.strategy == LightStrategy.SAMPLE_ONE_UNIFORM:
 				from pytracer.integrator.utility import uniform_sample_one_light
 				L += uniform_sample_one_light(scene, renderer, p, n, wo, isect.rEps, ray.time,
-						bsdf, sample, self.light_num_offset, self.light_sample_offsets, self.bsdf_sample_offsets, rng)
+						bsdf, sample, self.light_num_offset, self.light_sample_offsets[0], self.bsdf_sample_offsets[0], rng)
 
 			else:
 				raise RuntimeError("Unknown LightStrategy")
-- 
2.43.0


From 89f61a803cf7290734e41754bed35d025199fc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:06 +0000
Subject: [PATCH 082/113] fix: path tracing took every bounce for specular

---
 pytracer/integrator/surface/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/integrator/surface/path.py b/pytracer/integrator/surface/path.py
index 0d30e6a..87f2aeb 100644
--- a/pytracer/integrator/surface/path.py
+++ b/pytracer/integrator/surface/path.py
@@ -109,7 +109,7 @@ class PathIntegrator(SurfaceIntegrator):
 			if f.is_black() or pdf == 0.:
 				break
 			# print('+++++')
-			specular_bounce = (flags & BDFType.SPECULAR) != 0
+			specular_bounce = bool(flags & BDFType.SPECULAR)
 			path_throughput *= f * wi.abs_dot(n) / pdf
 			ray = geo.RayDifferential.from_parent(p, wi, ray, isectp.rEps)
 			# print('#')
-- 
2.43.0


From fd014739271e5baba58292864b4c292dd370a6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:06 +0000
Subject: [PATCH 083/113] fix: path tracing did not attenuate the first bounces

---
 pytracer/integrator/surface/path.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pytracer/integrator/surface/path.py b/pytracer/integrator/surface/path.py
index 87f2aeb..3832b53 100644
--- a/pytracer/integrator/surface/path.py
+++ b/pytracer/integrator/surface/path.py
@@ -134,8 +134,7 @@ class PathIntegrator(SurfaceIntegrator):
 						L += path_throughput * light.le(ray)
 				break
 			# print('###')
-			if bounce_cnt > 1:
-				path_throughput *= renderer.transmittance(scene, ray, None, rng)
+			path_throughput *= renderer.transmittance(scene, ray, None, rng)
 
 			isectp = local_isect
 
-- 
2.43.0


From 22179ad3364ed25d962a08b7eb384951b84781f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:06 +0000
Subject: [PATCH 084/113] fix: transmittance without media was nil

---
 pytracer/renderer/renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/renderer/renderer.py b/pytracer/renderer/renderer.py
index 8c82b83..5ad4322 100644
--- a/pytracer/renderer/renderer.py
+++ b/pytracer/renderer/renderer.py
@@ -72,7 +72,7 @@ class SamplerRenderer(Renderer):
 
 			return T * li + lvi, T
 		else:
-			return li, Spectrum(0.)
+			return li, Spectrum(1.)
 
 	def transmittance(self, scene: 'Scene', ray: 'geo.RayDifferential', sample: 'Sample',
 									rng='np.random.rand') -> 'Spectrum':
-- 
2.43.0


From 9be9e96375d4a81d14157747b287ffb37db34805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:06 +0000
Subject: [PATCH 085/113] fix: camera rays that hit nothing did not see the
 lights around

---
 pytracer/renderer/renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/renderer/renderer.py b/pytracer/renderer/renderer.py
index 5ad4322..e8d946b 100644
--- a/pytracer/renderer/renderer.py
+++ b/pytracer/renderer/renderer.py
@@ -174,7 +174,7 @@ class SamplerRendererTask(object):
 					else:
 						Ls[i] = Spectrum(0.)
 				else:
-					if hit and wt > 0.:
+					if wt > 0.:
 						Ls[i], Ts[i] = self.renderer.li(self.scene, rays[i], sample, isects[i], rng)
 						Ls[i] *= wt
 
-- 
2.43.0


From c28e98ea8d938bfafdd70c8d8efd68c7f3da5e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:41 +0000
Subject: [PATCH 086/113] fix: cylindrical mapping called a method it does not
 have

---
 pytracer/texture/texturemap/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/texturemap/__init__.py b/pytracer/texture/texturemap/__init__.py
index e79113b..e92dcda 100644
--- a/pytracer/texture/texturemap/__init__.py
+++ b/pytracer/texture/texturemap/__init__.py
@@ -104,7 +104,7 @@ class CylindricalMapping2D(TextureMapping2D):
 		[s, t].
 		"""
 		v = geo.normalize(self.w2t(p) - geo.Point(0., 0., 0.))
-		return [(PI + self.arctan2(v.y, v.x)) * INV_2PI, v.z]
+		return [(PI + np.arctan2(v.y, v.x)) * INV_2PI, v.z]
 
 	def __call__(self, dg: 'geo.DifferentialGeometry') -> [FLOAT]:
 		s, t = self.__cylinder(dg.p)
-- 
2.43.0


From 74f3aa4b96a6267f319e6d004ded732ea83f1c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:41 +0000
Subject: [PATCH 087/113] fix: mappings took the difference of t to s for the
 vertical differential

---
 pytracer/texture/texturemap/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/texture/texturemap/__init__.py b/pytracer/texture/texturemap/__init__.py
index e92dcda..3749900 100644
--- a/pytracer/texture/texturemap/__init__.py
+++ b/pytracer/texture/texturemap/__init__.py
@@ -84,7 +84,7 @@ class SphericalMapping2D(TextureMapping2D):
 
 		sy, ty = self.__sphere(dg.p + delta * dg.dpdy)
 		dsdy = (sy - s) / delta
-		dtdy = (ty - s) / delta
+		dtdy = (ty - t) / delta
 		if dtdy > .5:
 			dtdy = 1. - dtdy
 		elif dtdy < -.5:
@@ -123,7 +123,7 @@ class CylindricalMapping2D(TextureMapping2D):
 
 		sy, ty = self.__cylinder(dg.p + delta * dg.dpdy)
 		dsdy = (sy - s) / delta
-		dtdy = (ty - s) / delta
+		dtdy = (ty - t) / delta
 		if dtdy > .5:
 			dtdy = 1. - dtdy
 		elif dtdy < -.5:
-- 
2.43.0


From a2bc58a4c07a29239680dd79fe93aa0054d6f37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:41 +0000
Subject: [PATCH 088/113] fix: differentials of mappings around an axis were
 wrong where the coordinate wraps

---
 pytracer/texture/texturemap/__init__.py | 48 ++++++++++++++-----------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/pytracer/texture/texturemap/__init__.py b/pytracer/texture/texturemap/__init__.py
index 3749900..33707ef 100644
--- a/pytracer/texture/texturemap/__init__.py
+++ b/pytracer/texture/texturemap/__init__.py
@@ -67,6 +67,18 @@ class SphericalMapping2D(TextureMapping2D):
 		phi = geo.spherical_phi(v)
 		return [theta * INV_PI, phi * INV_2PI]
 
+	@staticmethod
+	def __wrapped(d: FLOAT) -> FLOAT:
+		"""
+		Difference of two coordinates around
+		the axis, taken the short way round.
+		"""
+		if d > .5:
+			return d - 1.
+		elif d < -.5:
+			return d + 1.
+		return d
+
 	def __call__(self, dg: 'geo.DifferentialGeometry') -> [FLOAT]:
 		s, t = self.__sphere(dg.p)
 		# compute texture coordinate
@@ -76,19 +88,11 @@ class SphericalMapping2D(TextureMapping2D):
 
 		sx, tx = self.__sphere(dg.p + delta * dg.dpdx)
 		dsdx = (sx - s) / delta
-		dtdx = (tx - t) / delta
-		if dtdx > .5:
-			dtdx = 1. - dtdx
-		elif dtdx < -.5:
-			dtdx = -(dtdx + 1.)
+		dtdx = self.__wrapped(tx - t) / delta
 
 		sy, ty = self.__sphere(dg.p + delta * dg.dpdy)
 		dsdy = (sy - s) / delta
-		dtdy = (ty - t) / delta
-		if dtdy > .5:
-			dtdy = 1. - dtdy
-		elif dtdy < -.5:
-			dtdy = -(dtdy + 1.)
+		dtdy = self.__wrapped(ty - t) / delta
 
 		return [s, t, dsdx, dtdx, dsdy, dtdy]
 
@@ -106,6 +110,18 @@ class CylindricalMapping2D(TextureMapping2D):
 		v = geo.normalize(self.w2t(p) - geo.Point(0., 0., 0.))
 		return [(PI + np.arctan2(v.y, v.x)) * INV_2PI, v.z]
 
+	@staticmethod
+	def __wrapped(d: FLOAT) -> FLOAT:
+		"""
+		Difference of two coordinates around
+		the axis, taken the short way round.
+		"""
+		if d > .5:
+			return d - 1.
+		elif d < -.5:
+			return d + 1.
+		return d
+
 	def __call__(self, dg: 'geo.DifferentialGeometry') -> [FLOAT]:
 		s, t = self.__cylinder(dg.p)
 		# compute texture coordinate
@@ -114,20 +130,12 @@ class CylindricalMapping2D(TextureMapping2D):
 		delta = .1
 
 		sx, tx = self.__cylinder(dg.p + delta * dg.dpdx)
-		dsdx = (sx - s) / delta
+		dsdx = self.__wrapped(sx - s) / delta
 		dtdx = (tx - t) / delta
-		if dtdx > .5:
-			dtdx = 1. - dtdx
-		elif dtdx < -.5:
-			dtdx = -(dtdx + 1.)
 
 		sy, ty = self.__cylinder(dg.p + delta * dg.dpdy)
-		dsdy = (sy - s) / delta
+		dsdy = self.__wrapped(sy - s) / delta
 		dtdy = (ty - t) / delta
-		if dtdy > .5:
-			dtdy = 1. - dtdy
-		elif dtdy < -.5:
-			dtdy = -(dtdy + 1.)
 
 		return [s, t, dsdx, dtdx, dsdy, dtdy]
 
-- 
2.43.0


From d893d8cb33a5f5391795c3b20257712cad709b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:41 +0000
Subject: [PATCH 089/113] fix: filtered checkerboards mixed their textures with
 wrong weights

---
 pytracer/texture/texture/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/texture/texture/__init__.py b/pytracer/texture/texture/__init__.py
index e186e38..cf300bb 100644
--- a/pytracer/texture/texture/__init__.py
+++ b/pytracer/texture/texture/__init__.py
@@ -173,10 +173,10 @@ class Chekcerboard2DTexture(Texture):
 			ti = ((util.ftoi(t1 / 2) + 2. * max(t1 / 2 - util.ftoi(t1 / 2) - .5, 0)) -
 				  (util.ftoi(t0 / 2) + 2. * max(t0 / 2 - util.ftoi(t0 / 2) - .5, 0))) / \
 				 (2. * dt)
-			area_sq = si * ti - 2. * si * ti
+			area_sq = si + ti - 2. * si * ti
 			if ds > 1. or dt > 1.:
 				area_sq = .5
-			return (1. - area_sq * self.tex1(dg)) + area_sq * self.tex2(dg)
+			return (1. - area_sq) * self.tex1(dg) + area_sq * self.tex2(dg)
 
 
 class Checkboard3DTexture(Texture):
-- 
2.43.0


From 97fb19e60ccfc42a08d37c47b8a357991161f90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:41 +0000
Subject: [PATCH 090/113] fix: filtered checkerboards divided by zero where
 only one coordinate changes

---
 pytracer/texture/texture/__init__.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pytracer/texture/texture/__init__.py b/pytracer/texture/texture/__init__.py
index cf300bb..ff1ae8a 100644
--- a/pytracer/texture/texture/__init__.py
+++ b/pytracer/texture/texture/__init__.py
@@ -143,6 +143,18 @@ class Chekcerboard2DTexture(Texture):
 			self.method = Chekcerboard2DTexture.aaMethod.CLOSEDFORM
 
 
+	@staticmethod
+	def __odd_part(x: FLOAT, x0: FLOAT, x1: FLOAT) -> FLOAT:
+		"""
+		Part of the interval [x0, x1] around x
+		that lies in checks of odd number.
+		"""
+		if x1 == x0:
+			return FLOAT(util.ftoi(x) % 2)
+		return ((util.ftoi(x1 / 2) + 2. * max(x1 / 2 - util.ftoi(x1 / 2) - .5, 0)) -
+				(util.ftoi(x0 / 2) + 2. * max(x0 / 2 - util.ftoi(x0 / 2) - .5, 0))) / \
+			   (x1 - x0)
+
 	def __call__(self, dg: 'geo.DifferentialGeometry'):
 		s, t, dsdx, dtdx, dsdy, dtdy = self.mapping(dg)
 		if self.method == Chekcerboard2DTexture.aaMethod.NONE:
@@ -166,13 +178,8 @@ class Chekcerboard2DTexture(Texture):
 				return self.tex2(dg)
 
 			## box filtering check region
-			# util.ftoi(x / 2) + 2. * max(x / 2 - util.ftoi(x / 2) -.5, 0)
-			si = ((util.ftoi(s1 / 2) + 2. * max(s1 / 2 - util.ftoi(s1 / 2) - .5, 0)) -
-				  (util.ftoi(s0 / 2) + 2. * max(s0 / 2 - util.ftoi(s0 / 2) - .5, 0))) / \
-				 (2. * ds)
-			ti = ((util.ftoi(t1 / 2) + 2. * max(t1 / 2 - util.ftoi(t1 / 2) - .5, 0)) -
-				  (util.ftoi(t0 / 2) + 2. * max(t0 / 2 - util.ftoi(t0 / 2) - .5, 0))) / \
-				 (2. * dt)
+			si = self.__odd_part(s, s0, s1)
+			ti = self.__odd_part(t, t0, t1)
 			area_sq = si + ti - 2. * si * ti
 			if ds > 1. or dt > 1.:
 				area_sq = .5
-- 
2.43.0


From 897264536de6ca45bf99c19558ac79f599bcfa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:41 +0000
Subject: [PATCH 091/113] fix: dots could not call the noise and never returned
 their inside

---
 pytracer/texture/texture/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/texture/texture/__init__.py b/pytracer/texture/texture/__init__.py
index ff1ae8a..504546e 100644
--- a/pytracer/texture/texture/__init__.py
+++ b/pytracer/texture/texture/__init__.py
@@ -224,16 +224,16 @@ class DotsTexture(Texture):
 		from pytracer.texture.utility import noise
 
 		# return insidedot result if inside
-		if noise(sc + .5 , tc + .5) > 0. :
+		if noise([sc + .5, tc + .5, .5]) > 0.:
 			rad = .35
 			max_shift = .5 - rad
-			s_ctr = sc + max_shift * noise(sc + 1.5, tc + 2.8)
-			t_ctr = tc + max_shift * noise(sc + 4.5, tc + 9.8)
+			s_ctr = sc + max_shift * noise([sc + 1.5, tc + 2.8, .5])
+			t_ctr = tc + max_shift * noise([sc + 4.5, tc + 9.8, .5])
 			ds = s - s_ctr
 			dt = t - t_ctr
 			if ds * ds + dt * dt < rad * rad:
 				# inside
-				self.inside_dot(dg)
+				return self.inside_dot(dg)
 
 
 		return self.outside_dot(dg)
-- 
2.43.0


From d6e32e35e80927fd4b23cc9425c8e338f4496bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:41 +0000
Subject: [PATCH 092/113] fix: marble looked its spline up out of range

---
 pytracer/texture/texture/__init__.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pytracer/texture/texture/__init__.py b/pytracer/texture/texture/__init__.py
index 504546e..6e77b8f 100644
--- a/pytracer/texture/texture/__init__.py
+++ b/pytracer/texture/texture/__init__.py
@@ -302,7 +302,7 @@ class MarbleTexture(Texture):
 	spline = [  [ .58, .58, .6 ], [ .58, .58, .6 ], [ .58, .58, .6 ],
 				[ .5, .5, .5 ], [ .6, .59, .58 ], [ .58, .58, .6 ],
 				[ .58, .58, .6 ], [.2, .2, .33 ], [ .58, .58, .6 ], ]
-	spline_num = INT(27)
+	spline_num = INT(9)
 	def __init__(self, octaves: INT, roughness: FLOAT, scale: FLOAT, var: FLOAT, mapping: 'TextureMapping3D'):
 		self.octaves = octaves
 		self.omega = roughness
@@ -315,17 +315,16 @@ class MarbleTexture(Texture):
 		p, dpdx, dpdy = self.mapping(dg)
 		p *= self.scale
 		marble = p.y + self.var * FBm(p, self.scale * dpdx, self.scale * dpdy, self.omega, self.octaves)
-		wind = FBm(.1 * p, .1 * dpdx, .1 * dpdy, .5, 3)
-		wave = FBm(p, dpdx, dpdy, .5, 6)
-		t = .5 * .5 * np.sin(marble)
+		t = .5 + .5 * np.sin(marble)
 
 		# evaluate marble spline at $t$
-		fst = util.ftoi(t * self.spline_num - 3)
-		t = t * (self.spline_num - 3) - fst
-		c0 = Spectrum.from_rgb(self.spline[fst:fst + 3])
-		c1 = Spectrum.from_rgb(self.spline[fst + 1:fst + 4])
-		c2 = Spectrum.from_rgb(self.spline[fst + 2:fst + 5])
-		c3 = Spectrum.from_rgb(self.spline[fst + 3:fst + 6])
+		segments = self.spline_num - 3
+		fst = min(util.ftoi(t * segments), segments - 1)
+		t = t * segments - fst
+		c0 = Spectrum.from_rgb(self.spline[fst])
+		c1 = Spectrum.from_rgb(self.spline[fst + 1])
+		c2 = Spectrum.from_rgb(self.spline[fst + 2])
+		c3 = Spectrum.from_rgb(self.spline[fst + 3])
 
 		# Bezier spline evaluated with de Castilejau's algorithm
 		s0 = (1. - t) * c0 + t * c1
-- 
2.43.0


From 02d9fd8e4b3664f192a5e439012c9a66eb2b878a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:41 +0000
Subject: [PATCH 093/113] fix: fractional Brownian motion added up to a builtin

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index dbe61bf..492fadb 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -66,7 +66,7 @@ def FBm(p: 'geo.Point', dpdx: 'geo.Vector', dpdy: 'geo.Vector', omega: FLOAT, ma
 	l = 1.
 	o = 1.
 	for i in range(octaves):
-		sum += o * noise(l * p)
+		s += o * noise(l * p)
 		l *= 1.99  # not 2, since noise() returns 0. at integral grids
 		o *= omega
 	par = foct - octaves
-- 
2.43.0


From 44aa70133116c90c4237cc951601ae55fb99bdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:41 +0000
Subject: [PATCH 094/113] fix: noise gradients were not odd in their first
 component

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 492fadb..8de9a27 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -108,7 +108,7 @@ def _grad(x: INT, y: INT, z: INT, dx, dy, dz):
 	u = dx if h < 8 or h == 12 or h == 13 else dy
 	v = dy if h < 4 or h == 12 or h == 13 else dz
 	if h & 1:
-		u = -1
+		u = -u
 	if h & 2:
 		v = -v
 	return u + v
-- 
2.43.0


From 02a207a1688cb460703e72a2317eec0e11c0e041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:41 +0000
Subject: [PATCH 095/113] fix: noise was not continuous across cells (wrong
 weight for the upper edges)

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 8de9a27..923924e 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -160,7 +160,7 @@ def noise(pnt: 'geo.Point') -> FLOAT:
 	x01 = util.lerp(wx, w001, w101)
 	x11 = util.lerp(wx, w011, w111)
 	y0 = util.lerp(wy, x00, x10)
-	y1 = util.lerp(wz, x01, x11)
+	y1 = util.lerp(wy, x01, x11)
 	return util.lerp(wz, y0, y1)
 
 
-- 
2.43.0


From 148a270daba5a6497a98da291e4484a9ca64b003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:41 +0000
Subject: [PATCH 096/113] fix: smooth_step did not rescale its range to the
 unit interval

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 923924e..ae58b82 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -46,7 +46,7 @@ def smooth_step(lo: FLOAT, hi: FLOAT, val: FLOAT):
 
 	Clip but with smooth interpolation
 	"""
-	v = np.clip(val, lo, hi)
+	v = np.clip((val - lo) / (hi - lo), 0., 1.)
 	return v * v * (3. - 2. * v)
 
 
-- 
2.43.0


From be18f75b4fea8ff5ffab0be261b70a8947e6a4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:45 +0000
Subject: [PATCH 097/113] fix: image maps exchanged rows and columns above
 their finest level

---
 pytracer/texture/utility.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index ae58b82..e53b774 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -223,7 +223,7 @@ class MIPMap(object):
 		self.max_aniso = max_aniso
 		self.wrap = wrap
 
-		sres, tres = img.shape[0:2]
+		tres, sres = img.shape[0:2]
 
 		resampled = None
 
@@ -288,7 +288,7 @@ class MIPMap(object):
 
 		for i in range(1, self.__n_levels):
 			# bottom-up init
-			u, v = self.__pyramid[i - 1].shape[0:2]
+			v, u = self.__pyramid[i - 1].shape[0:2]
 			s_res = max(1, UINT(u // 2))
 			t_res = max(1, UINT(v // 2))
 			self.__pyramid[i] = np.empty([t_res, s_res], dtype=object)
@@ -308,7 +308,7 @@ class MIPMap(object):
 
 	def texel(self, level: UINT, s: INT, t: INT):
 		l = self.__pyramid[level]
-		u, v = l.shape[0:2]
+		v, u = l.shape[0:2]
 		# compute texel (s, t)
 		if self.wrap == ImageWrap.REPEAT:
 			s = s % u
@@ -320,7 +320,7 @@ class MIPMap(object):
 			if s < 0 or s >= u or t < 0 or t >= v:
 				return self.typename(0.)
 
-		return l[s, t].view(self.typename)
+		return l[t, s].view(self.typename)
 
 	@property
 	def width(self):
@@ -336,7 +336,7 @@ class MIPMap(object):
 
 	def __triangle(self, level: UINT, s: FLOAT, t: FLOAT):
 		level = np.clip(level, 0, self.__n_levels - 1)
-		s, t = np.array([s, t]) * self.__pyramid[level].shape[0:2] - .5
+		s, t = np.array([s, t]) * self.__pyramid[level].shape[1::-1] - .5
 		s0, t0 = util.ftoi(s), util.ftoi(t)
 		ds = s - s0
 		dt = t - t0
@@ -349,7 +349,7 @@ class MIPMap(object):
 		if level >= self.__n_levels:
 			return self.texel(self.__n_levels - 1, 0, 0)
 		# convert EWA coord to proper scale for level
-		u, v = self.__pyramid[level].shape[0:2]
+		v, u = self.__pyramid[level].shape[0:2]
 		s = s * u - .5
 		t = t * v - .5
 		ds0 *= u
-- 
2.43.0


From 6229e2514dffa8af9a1882e98ecc1f980ecfc7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:45 +0000
Subject: [PATCH 098/113] fix: image maps could hold neither numbers nor
 resampled colours

---
 pytracer/texture/utility.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index e53b774..b35d617 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -240,7 +240,7 @@ class MIPMap(object):
 			s_wts = MIPMap.resample(sres, sp)
 
 			# init, take advantage of numba.jit
-			resampled = np.empty([tp, sp], dtype=typename)
+			resampled = np.empty([tp, sp], dtype=object)
 			for t in range(tres):
 				for s in range(sp):
 					resampled[t, s] = typename(0.)
@@ -256,7 +256,7 @@ class MIPMap(object):
 							resampled[t, s] += s_wts[s][1 + j] * img[t, orig_s]
 			## t
 			t_wts = MIPMap.resample(tres, tp)
-			t_tmp = np.zeros(tp, dtype=img.dtype)
+			t_tmp = np.empty(tp, dtype=object)
 			for s in range(sp):
 				for t in range(tp):
 					# (s, t) in s-zoomed image
@@ -282,7 +282,7 @@ class MIPMap(object):
 
 		# init levels of MIPMap
 		self.__n_levels = 1 + INT(np.log2(max(sres, tres)))
-		self.__pyramid = np.empty(self.__n_levels, dtype=self.typename)
+		self.__pyramid = np.empty(self.__n_levels, dtype=object)
 		# most detailed level
 		self.__pyramid[0] = img if resampled is None else resampled
 
-- 
2.43.0


From 32c0058cb2eecee21e5f8d238d0615ba068360ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:45 +0000
Subject: [PATCH 099/113] fix: coarse levels of 8 bit images overflowed

---
 pytracer/texture/utility.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index b35d617..e4c8367 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -224,6 +224,9 @@ class MIPMap(object):
 		self.wrap = wrap
 
 		tres, sres = img.shape[0:2]
+		if img.dtype != object:
+			# sums of integer texels would overflow
+			img = img.astype(FLOAT)
 
 		resampled = None
 
-- 
2.43.0


From d6baee56f29bb377e882da50915dab7a2e577066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:45 +0000
Subject: [PATCH 100/113] fix: the coarsest level of an image map was darkened
 by its black surrounding

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index e4c8367..9a8b979 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -430,7 +430,7 @@ class MIPMap(object):
 			if level < 0:
 				return self.__triangle(0, s, t)
 			elif level >= self.__n_levels - 1:
-				return self.__triangle(self.__n_levels, 0, 0)
+				return self.texel(self.__n_levels - 1, 0, 0)
 			else:
 				i_level = util.ftoi(level)
 				delta = level - i_level
-- 
2.43.0


From ac958a5bfdee75bc5cb4503e87b148fd8e7869ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:45 +0000
Subject: [PATCH 101/113] fix: elliptically weighted lookups of image maps
 failed

---
 pytracer/texture/utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 9a8b979..441bdc4 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -378,7 +378,7 @@ class MIPMap(object):
 		det = -B * B + 4. * A * C
 		invDet = 1. / det
 		u_sq = np.sqrt(det * C)
-		v_sq = np.srqt(det * A)
+		v_sq = np.sqrt(det * A)
 		s0 = util.ctoi(s - 2. * invDet * u_sq)
 		s1 = util.ftoi(s + 2. * invDet * u_sq)
 		t0 = util.ctoi(t - 2. * invDet * v_sq)
@@ -395,7 +395,7 @@ class MIPMap(object):
 				r2 = A * ss * ss + B * ss * tt + C * tt * tt
 				if r2 < 1.:
 					# inside
-					wt = MIPMap.weight_lut[min(r2 * MIPMap.weight_lut_size, MIPMap.weight_lut_size - 1)]
+					wt = MIPMap.weight_lut[INT(min(r2 * MIPMap.weight_lut_size, MIPMap.weight_lut_size - 1))]
 					ret += self.texel(level, si, ti) * wt
 					sum_wt += wt
 
-- 
2.43.0


From 8f280a3761df8e3c982ca0dfec36d940f4738968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:45 +0000
Subject: [PATCH 102/113] fix: the eccentricity of filter ellipses was clamped
 by stretching the wrong axis

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 441bdc4..debe810 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -453,8 +453,8 @@ class MIPMap(object):
 			# clamp eccentricity if too large
 			if minor_len * self.max_aniso < major_len and minor_len > 0.:
 				scale = major_len / (minor_len * self.max_aniso)
-				ds0 *= scale
 				ds1 *= scale
+				dt1 *= scale
 				minor_len *= scale
 
 			if minor_len == 0.:
-- 
2.43.0


From 6732d80e3ab883781c8e063ec865919dd67ba1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:45 +0000
Subject: [PATCH 103/113] fix: image textures could not convert what they look
 up

---
 pytracer/texture/texture/image.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/texture/texture/image.py b/pytracer/texture/texture/image.py
index db243a5..4b645d1 100644
--- a/pytracer/texture/texture/image.py
+++ b/pytracer/texture/texture/image.py
@@ -94,7 +94,7 @@ class ImageTexture(Texture):
 						type_mem is spec.RGBSpectrum:
 			return spec.RGBSpectrum( (scale * texel) ** gamma )
 		elif isinstance(texel, np.ndarray) and \
-						type_mem is (FLOAT or float):
+						type_mem in (float, FLOAT):
 			return (scale * spec.RGBSpectrum(texel).y()) ** gamma
 		else:
 			raise TypeError('src.core.texture.ImageTexture.__convert__in__: '
@@ -109,11 +109,11 @@ class ImageTexture(Texture):
 
 		# print(type(texel), type(type_ret))
 		# return Spectrum.from_rgb(texel)
-		if isinstance(texel, 'RGBSpectrum') and \
+		if isinstance(texel, spec.RGBSpectrum) and \
 						type_ret is Spectrum:
-			return Spectrum.from_rgb(texel.toRGB())
+			return Spectrum.from_rgb(texel.to_rgb())
 		elif (isinstance(texel, float) or isinstance(texel, FLOAT)) and \
-						type_ret is (float or FLOAT):
+						type_ret in (float, FLOAT):
 			return texel
 		else:
 			raise TypeError('src.core.texture.ImageTexture.__convert__in__: '
-- 
2.43.0


From fd745a4acc0fa76e9e76f1ad85b41bc21d15280b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:45 +0000
Subject: [PATCH 104/113] fix: image textures of unequal sides were read out of
 bounds

---
 pytracer/texture/texture/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/texture/image.py b/pytracer/texture/texture/image.py
index 4b645d1..fa33abd 100644
--- a/pytracer/texture/texture/image.py
+++ b/pytracer/texture/texture/image.py
@@ -132,7 +132,7 @@ class ImageTexture(Texture):
 
 		try:
 			texels = iio.read_image(filename)
-			width, height = texels.shape[0:2]
+			height, width = texels.shape[0:2]
 		except:
 			print('{}.get_texture(): cannot process file {}, '
 			      'use default one-valued MIPMap'.format(self.__class__, filename))
-- 
2.43.0


From f28aa3f41f13472e885f78cd05edddbb1da4def0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:45 +0000
Subject: [PATCH 105/113] fix: image textures without a file called a method
 they do not have

---
 pytracer/texture/texture/image.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytracer/texture/texture/image.py b/pytracer/texture/texture/image.py
index fa33abd..bf447d0 100644
--- a/pytracer/texture/texture/image.py
+++ b/pytracer/texture/texture/image.py
@@ -149,7 +149,8 @@ class ImageTexture(Texture):
 
 		else:
 			# one-valued MIPMap
-			val = [[self.power(scale, gamma)]]
+			val = np.empty([1, 1], dtype=object)
+			val[0, 0] = self.type_mem(scale ** gamma)
 			ret = MIPMap(self.type_mem, val)
 
 		ImageTexture.textures[tex_info] = ret
-- 
2.43.0


From 1ee03ead5a7fcaa7b96f971a46f7a8c7830ed2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:45 +0000
Subject: [PATCH 106/113] fix: image textures of colours and of numbers shared
 one cached map

---
 pytracer/texture/texture/image.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pytracer/texture/texture/image.py b/pytracer/texture/texture/image.py
index bf447d0..b41c252 100644
--- a/pytracer/texture/texture/image.py
+++ b/pytracer/texture/texture/image.py
@@ -38,22 +38,23 @@ class ImageTexture(Texture):
 		"""
 
 		def __init__(self, filename: str, trilinear: bool, max_aniso: FLOAT, wrap: 'ImageWrap',
-		             scale: FLOAT, gamma: FLOAT):
+		             scale: FLOAT, gamma: FLOAT, type_mem: type=None):
 			self.filename = filename
 			self.trilinear = trilinear
 			self.max_aniso = max_aniso
 			self.wrap = wrap
 			self.scale = scale
 			self.gamma = gamma
+			self.type_mem = type_mem
 
 		def __repr__(self):
 			return "{}\nFilename: {}\nTrilinear: {}\nMax Aniso: {}, Wrap: {}\nScale: {}, Gamma: {}" \
-				.format(self.__class__, self.trilinear, self.max_aniso, self.wrap, self.scale,
+				.format(self.__class__, self.filename, self.trilinear, self.max_aniso, self.wrap, self.scale,
 			            self.gamma)
 
 		def __hash__(self):
 			return hash((self.filename, self.trilinear, self.max_aniso, self.wrap,
-			             self.scale, self.gamma))
+			             self.scale, self.gamma, self.type_mem))
 
 		def __eq__(self, other):
 			return (self.filename == other.filename) and \
@@ -61,7 +62,8 @@ class ImageTexture(Texture):
 			       (self.max_aniso == other.max_aniso) and \
 			       (self.wrap == other.wrap) and \
 			       (self.scale == other.scale) and \
-			       (self.gamma == other.gamma)
+			       (self.gamma == other.gamma) and \
+			       (self.type_mem is other.type_mem)
 
 		def __ne__(self, other):
 			return not (self == other)
@@ -126,7 +128,7 @@ class ImageTexture(Texture):
 	def get_texture(self, filename: str, trilinear: bool, max_aniso: FLOAT,
 	                wrap: 'ImageWrap', scale: FLOAT, gamma: FLOAT) -> 'MIPMap':
 		# look in the cache
-		tex_info = ImageTexture.TexInfo(filename, trilinear, max_aniso, wrap, scale, gamma)
+		tex_info = ImageTexture.TexInfo(filename, trilinear, max_aniso, wrap, scale, gamma, self.type_mem)
 		if tex_info in ImageTexture.textures:
 			return ImageTexture.textures[tex_info]
 
-- 
2.43.0


From 4678e01a96838191845064e2c31b8d2c298bc5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:47 +0000
Subject: [PATCH 107/113] fix: copies of differential geometry lost its
 differentials, so that textures were never filtered

---
 pytracer/geometry/diffgeom.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pytracer/geometry/diffgeom.py b/pytracer/geometry/diffgeom.py
index 447879e..0869102 100644
--- a/pytracer/geometry/diffgeom.py
+++ b/pytracer/geometry/diffgeom.py
@@ -45,7 +45,12 @@ class DifferentialGeometry(object):
 		return "{}\nNormal Vector: {}\n".format(self.__class__, self.nn)
 
 	def copy(self):
-		return DifferentialGeometry(self.p, self.dpdu, self.dpdv, self.dndu, self.dndv, self.u, self.v, self.shape)
+		dg = DifferentialGeometry(self.p, self.dpdu, self.dpdv, self.dndu, self.dndv, self.u, self.v, self.shape)
+		dg.nn = self.nn.copy()
+		dg.dudx, dg.dvdx = self.dudx, self.dvdx
+		dg.dudy, dg.dvdy = self.dudy, self.dvdy
+		dg.dpdx, dg.dpdy = self.dpdx.copy(), self.dpdy.copy()
+		return dg
 
 	def compute_differential(self, ray: 'RayDifferential'):
 		if ray.has_differentials:
-- 
2.43.0


From 32150ea7d70ee2e71017e1ef0f93fdfe1326a4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:47 +0000
Subject: [PATCH 108/113] fix: bump mapping without differentials divided by a
 displacement of nil

---
 pytracer/material/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 456e7fd..acf1014 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -72,7 +72,7 @@ class Material(object, metaclass=ABCMeta):
 
 		# shift du in v
 		dv = .5 * (np.fabs(dgs.dvdx) + np.fabs(dgs.dvdy))
-		if dv == 0.1:
+		if dv == 0.:
 			dv = 0.01
 		dg.p = dgs.p + dv * dgs.dpdv
 		dg.u = dgs.u
-- 
2.43.0


From 4f352f418b448789d17e57f013cca5a96dbbe68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:47 +0000
Subject: [PATCH 109/113] fix: bump mapping called a method Vector does not
 have and compared normals as vectors

---
 pytracer/material/material.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index acf1014..265f745 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -87,14 +87,15 @@ class Material(object, metaclass=ABCMeta):
 		dg = dgs.copy()
 
 		# geo.Vector * geo.Normal -> geo.Vector
-		dg.dpdu = dgs.dpdu + (u_disp - disp) / du * dgs.nn + disp * geo.Vector.fromNormal(dgs.dndu)
-		dg.dpdv = dgs.dpdv + (v_disp - disp) / dv * dgs.nn + disp * geo.Vector.fromNormal(dgs.dndv)
+		nn = geo.Vector.from_arr(dgs.nn)
+		dg.dpdu = dgs.dpdu + (u_disp - disp) / du * nn + disp * geo.Vector.from_arr(dgs.dndu)
+		dg.dpdv = dgs.dpdv + (v_disp - disp) / dv * nn + disp * geo.Vector.from_arr(dgs.dndv)
 		dg.nn = geo.Normal.from_arr(geo.normalize(dg.dpdu.cross(dg.dpdv)))
 		if dgs.shape.ro ^ dgs.shape.transform_swaps_handedness:
 			dg.nn *= -1.
 
 		# orient shding normal to match goemtric normal
-		dg.nn = geo.face_forward(dg.nn, dgg.nn)
+		dg.nn = geo.face_forward(dg.nn, geo.Vector.from_arr(dgg.nn))
 
 		return dg
 
-- 
2.43.0


From 7474fd3a6e5a24dc7550a7a48c7e3f6245454217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:47 +0000
Subject: [PATCH 110/113] fix: mixed materials took components for pairs

---
 pytracer/material/material.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 265f745..da02b77 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -393,9 +393,9 @@ class MixMaterial(Material):
 		s1 = self.scale(dg_s).clip()
 		s2 = (Spectrum(1.) - s1).clip()
 
-		for i, b in b1.bdfs:
+		for i, b in enumerate(b1.bdfs):
 			b1.bdfs[i] = ScaledBDF(b, s1)
-		for i, b in b2.bdfs:
+		for b in b2.bdfs:
 			b1.push_back(ScaledBDF(b, s2))
 
 		return b1
-- 
2.43.0


From b0373f8ac0c6740992cbc8fa3a65bcc2279c9f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:47 +0000
Subject: [PATCH 111/113] fix: subsurface materials did not evaluate their
 reflection

---
 pytracer/material/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index da02b77..0ef804b 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -547,7 +547,7 @@ class SubsurfaceMaterial(Material):
 			dgs = Material.bump(self.bump_map, dg_g, dg_s)
 		else:
 			dgs = dg_s.copy()
-		util.clip(R = self.kr(dgs))
+		R = util.clip(self.kr(dgs))
 		bsdf = BSDF(dgs, dg_g.nn)
 
 		if not util.is_black(R):
-- 
2.43.0


From 6db4610ecbfb34c4dd94d77536a30a001602351f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:47 +0000
Subject: [PATCH 112/113] fix: measured materials read before had no samples,
 and shared those of other files of the same name

---
 pytracer/material/material.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 0ef804b..de989f9 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -430,9 +430,9 @@ class MeasuredMaterial(Material):
 
 		# Irregular Sampled Isotropic BRDF
 		if ext == '.brdf' or ext == '.BRDF':
-			if file in IrIsotropicData:
+			if filename in IrIsotropicData:
 				# already read
-				self.theta_phi_sample, self.theta_phi_tree = IrIsotropicData[file]
+				self.theta_phi_samples, self.theta_phi_tree = IrIsotropicData[filename]
 				return
 
 			# read file
@@ -483,7 +483,7 @@ class MeasuredMaterial(Material):
 
 			self.theta_phi_samples = np.array(samples, dtype=object)
 			self.theta_phi_tree = KdTree(tree_data)
-			IrIsotropicData[file] = [self.theta_phi_samples, self.theta_phi_tree]
+			IrIsotropicData[filename] = [self.theta_phi_samples, self.theta_phi_tree]
 
 		elif ext == '.binary':
 			# Regular Halfangle BRDF
-- 
2.43.0


From 4f6e3c98f9619530a5e9808c906bc560dbe8268b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:47 +0000
Subject: [PATCH 113/113] fix: scaled components failed where the component has
 no sample

---
 pytracer/reflection/bdf/bdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytracer/reflection/bdf/bdf.py b/pytracer/reflection/bdf/bdf.py
index 2c9dd8e..94017e6 100644
--- a/pytracer/reflection/bdf/bdf.py
+++ b/pytracer/reflection/bdf/bdf.py
@@ -225,6 +225,8 @@ class ScaledBDF(BDF):
 
 	def sample_f(self, wo: 'geo.Vector', u1: FLOAT, u2: FLOAT):
 		pdf, wi, f = self.bdf.sample_f(wo, u1, u2)
+		if f is None:
+			return pdf, wi, f
 		return pdf, wi, self.s * f
 
 	def rho_hd(self, wo: 'geo.Vector', samples: [FLOAT]): return self.s * self.bdf.rho_hd(wo, samples)
-- 
2.43.0

