From d70896221241b105dbdba6a9d42761e3713ec92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:51 +0000
Subject: [PATCH 01/34] fix: NurbsSurface::clear also resets the closed flags

---
 src/NurbsSurface.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/NurbsSurface.cpp b/src/NurbsSurface.cpp
index 91c78cf..4c9236d 100644
--- a/src/NurbsSurface.cpp
+++ b/src/NurbsSurface.cpp
@@ -28,6 +28,8 @@ void NurbsSurface::clear()
 	_points.clear();
 	_iNbPointsU = 0;
 	_iNbPointsV = 0;
+	_bClosedU = false;
+	_bClosedV = false;
 }
 
 void NurbsSurface::set_degree(int degreeU, int degreeV)
-- 
2.43.0


From d7e07bdb97ffa3a7679fcd716f27a5fe12d27236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:54 +0000
Subject: [PATCH 02/34] fix: NurbsSurface::set_equals_weights overwrites
 existing weights

---
 src/NurbsSurface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NurbsSurface.cpp b/src/NurbsSurface.cpp
index 4c9236d..d789eae 100644
--- a/src/NurbsSurface.cpp
+++ b/src/NurbsSurface.cpp
@@ -132,7 +132,7 @@ void NurbsSurface::set_weights(const vector <double>& weights)
 
 void NurbsSurface::set_equals_weights() //non rational
 {
-	_weights.resize(_points.size(), 1.);
+	_weights.assign(_points.size(), 1.);
 }
 
 const vector<double>& NurbsSurface::weights() const
-- 
2.43.0


From bfc81d96a1d3ce39e86a39bc95f49d2a1aba4c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:29 +0000
Subject: [PATCH 03/34] fix: Mesh::split_edge_with_vertex keeps the orientation
 and covers both triangles

---
 src/Mesh.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index 8d8ebee..288e4e2 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -9,7 +9,7 @@
 #include "Transform.h"
 
 #define swap(a,b) { auto tmp=a; a=b; b=tmp; }  
-#define rotate(a,b,c) { auto tmp=a; a=b; b=c; c=a; }  
+#define rotate(a,b,c) { auto tmp=a; a=b; b=c; c=tmp; }  
 
 ///////////////////////////////////////////////////////////////////////////
 Mesh::Mesh()
@@ -272,16 +272,16 @@ void Mesh::split_edge_with_vertex(int iTriangle1, int iTriangle2, int iVertex1,
 	_pKernel->add_triangle(iVertexSplit, iV2, iV3);
 	_pKernel->unlink_triangle(iTriangle1);
 
-	//split triangle2
+	//split triangle2, the edge is in the opposite direction
 	_pKernel->get_triangle_vertices(iTriangle2, iV1, iV2, iV3);
-	if (iV2 != iVertex2)
+	if (iV1 != iVertex2)
 		rotate(iV1, iV2, iV3);
-	if (iV2 != iVertex2)
+	if (iV1 != iVertex2)
 		rotate(iV1, iV2, iV3);
-	assert(iV2 == iVertex2);
+	assert(iV1 == iVertex2);
 
-	_pKernel->add_triangle(iV2, iVertexSplit, iV3);
-	_pKernel->add_triangle(iVertexSplit, iV1, iV3);
+	_pKernel->add_triangle(iV1, iVertexSplit, iV3);
+	_pKernel->add_triangle(iVertexSplit, iV2, iV3);
 	_pKernel->unlink_triangle(iTriangle2);
 }
 //////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From daede95b18c2234a881206c18f82282f64495c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:32 +0000
Subject: [PATCH 04/34] fix: Mesh assignment and add_mesh accept the mesh
 itself, no kernel leak

---
 src/Mesh.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index 288e4e2..b90df9a 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -22,6 +22,8 @@ Mesh::Mesh()
 
 Mesh::Mesh(const Mesh& m)
 {
+	_pKernel = new MeshKernelLinkedTriangles;
+	_iColor = -1;
 	this->operator=(m);
 }
 
@@ -109,7 +111,9 @@ void Mesh::unlink_triangle(int iTriangle)
 
 Mesh& Mesh::operator=(const Mesh& m)
 {
-	_pKernel = new MeshKernelLinkedTriangles;
+	if (this == &m)
+		return *this;
+
 	clear();
 	add_mesh(m);
 	set_color(m.get_color());
@@ -123,8 +127,11 @@ void Mesh::add_mesh(const Mesh& f)
 	//todo manage color by vertex
 	_iColor = f.get_color();
 
+	// sizes are read first, f may be this mesh
 	int iNbVertices = nb_vertices();
-	for (int i = 0; i < f.nb_vertices(); i++)
+	int iNbVerticesToAdd = f.nb_vertices();
+	int iNbTrianglesToAdd = f.nb_triangles();
+	for (int i = 0; i < iNbVerticesToAdd; i++)
 	{
 		Point3 v;
 		f.get_vertex(i, v);
@@ -132,7 +139,7 @@ void Mesh::add_mesh(const Mesh& f)
 	}
 
 	int iVertex1, iVertex2, iVertex3;
-	for (int i = 0; i < f.nb_triangles(); i++)
+	for (int i = 0; i < iNbTrianglesToAdd; i++)
 	{
 		if (f.is_triangle_unlinked(i))
 			continue;
-- 
2.43.0


From 9a381282f032dc95bdd30ae531dd01df985efbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:35 +0000
Subject: [PATCH 05/34] fix: MeshFactory::create_cylinder caps have no extra
 triangles

---
 src/MeshFactory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MeshFactory.cpp b/src/MeshFactory.cpp
index ae30697..09d206a 100644
--- a/src/MeshFactory.cpp
+++ b/src/MeshFactory.cpp
@@ -204,14 +204,14 @@ namespace MeshFactory
 		m.add_quad(2 * iNbSegmentLongitude - 2, 2 * iNbSegmentLongitude - 1, 1, 0);
 
 		// associates triangles, up face 
-		for (int i = 0; i < iNbSegmentLongitude; i++)
+		for (int i = 0; i < iNbSegmentLongitude - 1; i++)
 		{
 			m.add_triangle(iNbSegmentLongitude * 2, 2 * i, 2 * i + 2);
 		}
 		m.add_triangle(iNbSegmentLongitude * 2, 2 * iNbSegmentLongitude - 2, 0);
 
 		// associates triangles, down face 
-		for (int i = 0; i < iNbSegmentLongitude; i++)
+		for (int i = 0; i < iNbSegmentLongitude - 1; i++)
 		{
 			m.add_triangle(iNbSegmentLongitude * 2 + 1, 2 * i + 3, 2 * i + 1);
 		}
-- 
2.43.0


From d80d91468fcb712df050ac6f5caa9987fbd3deaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:43 +0000
Subject: [PATCH 06/34] fix: ImageIoBmp::read skips the right number of padding
 bytes per line

---
 src/ImageIoBmp.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ImageIoBmp.cpp b/src/ImageIoBmp.cpp
index 39a9336..b82b3c7 100644
--- a/src/ImageIoBmp.cpp
+++ b/src/ImageIoBmp.cpp
@@ -74,7 +74,8 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 	if (sBPP == 24)
 	{
 		int iLineWidthPerfect = iWidth * iNbByte;
-		int iLineWidth = (iLineWidthPerfect + 3) % 4;
+		int iLineWidth = (iLineWidthPerfect + 3);
+		iLineWidth -= iLineWidth % 4;
 		int iPack = iLineWidth - iLineWidthPerfect;
 
 		// read data buffer
@@ -99,7 +100,8 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 
 	if (sBPP == 8)
 	{   //assume grey level, no color LUT for now
-		int iLineWidth = iWidth + (iWidth % 4);
+		int iLineWidth = (iWidth + 3);
+		iLineWidth -= iLineWidth % 4;
 		int iPack = iLineWidth - iWidth;
 		unsigned char cTmp[3] = { 0 }, * pLineY;
 
-- 
2.43.0


From 220d66ce2a318c0826287adb47d9e15f37707124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:45 +0000
Subject: [PATCH 07/34] fix: ImageIoBmp::read refuses truncated files and
 invalid sizes

---
 src/ImageIoBmp.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/ImageIoBmp.cpp b/src/ImageIoBmp.cpp
index b82b3c7..bec530d 100644
--- a/src/ImageIoBmp.cpp
+++ b/src/ImageIoBmp.cpp
@@ -46,7 +46,27 @@ bool ImageIoBmp::read(const string& sFilename, Image* pImage)
 	fbmp.read((char*)&iTmp, 4); //clrused
 	fbmp.read((char*)&iTmp, 4); //clr important
 
+	if ((sBPP != 8) && (sBPP != 24) && (sBPP != 32))
+		return false; //format not handled for now
+
 	int iNbByte = sBPP >> 3;
+
+	// header must be complete and valid
+	if (!fbmp || (iWidth <= 0) || (iHeight <= 0))
+		return false;
+
+	// file must contain all the lines (padding of the last one may be missing)
+	long long llBegin = fbmp.tellg();
+	fbmp.seekg(0, std::ios::end);
+	long long llRemaining = (long long)fbmp.tellg() - llBegin;
+	fbmp.seekg(llBegin);
+	if (sBPP == 8)
+		llRemaining -= 256 * 4; // lut
+	long long llLine = (long long)iWidth * iNbByte;
+	long long llLinePad = (llLine + 3) / 4 * 4;
+	if ((llRemaining < llLine) || ((llRemaining - llLine) / llLinePad < iHeight - 1))
+		return false;
+
 	pImage->resize(iWidth, iHeight, iNbByte);
 
 	if (sBPP == 32)
-- 
2.43.0


From dd09f770652d9955fca6bc5280d69cb1ae97af97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:48 +0000
Subject: [PATCH 08/34] fix: ImageIoBmp::write refuses images it cannot store

---
 src/ImageIoBmp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ImageIoBmp.cpp b/src/ImageIoBmp.cpp
index bec530d..8cc4567 100644
--- a/src/ImageIoBmp.cpp
+++ b/src/ImageIoBmp.cpp
@@ -146,6 +146,9 @@ bool ImageIoBmp::write(const string& sFilename, const Image* pImage)
 {
 	assert(pImage != 0);
 
+	if ((pImage->planes() != 1) && (pImage->planes() != 3) && (pImage->planes() != 4))
+		return false; // format not handled
+
 	//create file
 	std::fstream fbmp(sFilename.data(), std::ios::binary | std::ios::out);
 	if (!fbmp)
-- 
2.43.0


From 491ed2d21fdc559dee70fdb1aa289c6e25772e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:18 +0000
Subject: [PATCH 09/34] fix: Image::to_double stores the pixels row by row
 inside the vector

---
 src/Image.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Image.h b/src/Image.h
index 74dbe0d..714c026 100644
--- a/src/Image.h
+++ b/src/Image.h
@@ -105,10 +105,10 @@ public:
 
     void to_double(vector<double>& img)
     {
-        img.resize(size());
+        img.resize((size_t)width() * (size_t)height());
         for (size_t ligne = 0; ligne < (size_t)width(); ligne++)
             for (size_t colonne = 0; colonne < (size_t)height(); colonne++)
-                img[colonne + ligne * width()] = (*this)((int)ligne, (int)colonne);
+                img[ligne + colonne * width()] = (*this)((int)ligne, (int)colonne);
     }
 
 private:
-- 
2.43.0


From 7a213230eaf4af3faace25c7afe07c5be93c2149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:20 +0000
Subject: [PATCH 10/34] fix: ImageUtil::scale saturates instead of wrapping

---
 src/ImageUtil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ImageUtil.cpp b/src/ImageUtil.cpp
index 6389031..4caffc0 100644
--- a/src/ImageUtil.cpp
+++ b/src/ImageUtil.cpp
@@ -27,6 +27,6 @@ void ImageUtil::scale(Image& im, double dScale)
 	for (int i = 0; i < im.width(); i++)
 		for (int j = 0; j < im.height(); j++)
 			for (int p= 0;p< im.planes();p++)
-				im(i, j, p) = (unsigned char)(im(i, j, p) * dScale + 0.5);
+				im(i, j, p) = (unsigned char)std::min(std::max(im(i, j, p) * dScale + 0.5, 0.), 255.);
 }
 ///////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 81b9c8e728cd4e17bc2f1c4c0d1539f7a199c69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:34 +0000
Subject: [PATCH 11/34] fix: OBJWriter polylines use 1-based indices and end
 their line

---
 src/OBJFile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/OBJFile.cpp b/src/OBJFile.cpp
index eb0d2a1..390afcf 100644
--- a/src/OBJFile.cpp
+++ b/src/OBJFile.cpp
@@ -141,8 +141,9 @@ void OBJWriter::write(const vector<Point3>& polyline)
 	_f << "l ";
 	for (int i = 0; i < polyline.size(); i++)
 	{
-		_f << i + _verticesCount << " ";
+		_f << i + 1 + _verticesCount << " ";
 	}
+	_f << endl;
 
 	_verticesCount += polyline.size();
 }
\ No newline at end of file
-- 
2.43.0


From 4f22c10a2e4c45d6de2d9cc2b364a438915d458c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:36 +0000
Subject: [PATCH 12/34] fix: OBJFile::load refuses malformed vertices and faces
 instead of using unset values

---
 src/OBJFile.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/OBJFile.cpp b/src/OBJFile.cpp
index 390afcf..918ba38 100644
--- a/src/OBJFile.cpp
+++ b/src/OBJFile.cpp
@@ -43,7 +43,9 @@ namespace OBJFile
 			if (sType == "v")
 			{
 				double x, y, z;
-				ss >> x >> y >> z;
+				if (!(ss >> x >> y >> z))
+					return false; // format not handled
+
 				to_mesh.add_vertex(Point3(x, y, z));
 			}
 
@@ -51,7 +53,12 @@ namespace OBJFile
 			if (sType == "f")
 			{
 				int i1, i2, i3;
-				ss >> i1 >> i2 >> i3;
+				if (!(ss >> i1 >> i2 >> i3))
+					return false; // format not handled
+
+				int iNbVertices = to_mesh.nb_vertices();
+				if ((i1 < 1) || (i2 < 1) || (i3 < 1) || (i1 > iNbVertices) || (i2 > iNbVertices) || (i3 > iNbVertices))
+					return false; // unknown vertex
 
 				to_mesh.add_triangle(i1 - 1, i2 - 1, i3 - 1);
 			}
-- 
2.43.0


From da9970fd3bd657c1452a1ab8049567a045c62b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:39 +0000
Subject: [PATCH 13/34] fix: STLFile::load detects truncated files

---
 src/STLFile.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/STLFile.cpp b/src/STLFile.cpp
index 52f41e0..c677015 100644
--- a/src/STLFile.cpp
+++ b/src/STLFile.cpp
@@ -75,6 +75,8 @@ namespace STLFile
 
 		int32_t nbFacet = 0;
 		f.read((char*)(&nbFacet), 4);
+		if (!f || (nbFacet < 0))
+			return false;
 
 		// read facets
 		float p1x = 0.f, p1y = 0.f, p1z = 0.f;
@@ -101,6 +103,8 @@ namespace STLFile
 
 			//ignore color
 			f.read((char*)(&tmp), 2);
+			if (!f)
+				return false; // truncated file
 
 			to_mesh.add_vertex(p1x, p1y, p1z);
 			to_mesh.add_vertex(p2x, p2y, p2z);
-- 
2.43.0


From e5da1b5be7ddf0f8a81438d2d0ed57d8f89b7e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:21 +0000
Subject: [PATCH 14/34] fix: StepWriter lists control points and weights with u
 as the outer index

---
 src/StepFile.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/StepFile.cpp b/src/StepFile.cpp
index 69adcda..cbfdf42 100644
--- a/src/StepFile.cpp
+++ b/src/StepFile.cpp
@@ -86,20 +86,19 @@ void StepWriter::write(const NurbsSurface& n)
 	_f << endl << "#" << _iItemIndent << "=(" << endl << "BOUNDED_SURFACE()" << endl;
 	_iItemIndent++;
 
-	//write control points
+	//write control points, the outer list runs along u
 	_f << "B_SPLINE_SURFACE(" << n.degree_u() << "," << n.degree_v() << ",(" << endl;
-	for (int j = 0; j < n.nb_points_v(); j++)
+	for (int i = 0; i < n.nb_points_u(); i++)
 	{
 		_f << "(";
-		for (int i = 0; i < n.nb_points_u(); i++)
+		for (int j = 0; j < n.nb_points_v(); j++)
 		{
-			_f << "#" << iPointIndex;
-			iPointIndex++;
-			if (i + 1 != n.nb_points_u())
+			_f << "#" << iPointIndex + n.nb_points_u() * j + i;
+			if (j + 1 != n.nb_points_v())
 				_f << ",";
 		}
 		_f << ")";
-		if (j + 1 != n.nb_points_v())
+		if (i + 1 != n.nb_points_u())
 			_f << "," << endl;
 	}
 
@@ -148,17 +147,17 @@ void StepWriter::write(const NurbsSurface& n)
 
 	//write weights
 	_f << endl << "RATIONAL_B_SPLINE_SURFACE((" << endl;
-	for (int j = 0; j < n.nb_points_v(); j++)
+	for (int i = 0; i < n.nb_points_u(); i++)
 	{
 		_f << "(";
-		for (int i = 0; i < n.nb_points_u(); i++)
+		for (int j = 0; j < n.nb_points_v(); j++)
 		{
 			_f << n.weights()[n.nb_points_u() * j + i];
-			if (i + 1 != n.nb_points_u())
+			if (j + 1 != n.nb_points_v())
 				_f << ",";
 		}
 		_f << ")";
-		if (j + 1 != n.nb_points_v())
+		if (i + 1 != n.nb_points_u())
 			_f << "," << endl;
 	}
 	_f << endl << "))";
-- 
2.43.0


From dca37befbe37ed31d72e045ce5a6391e8d467766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:25 +0000
Subject: [PATCH 15/34] fix: StepWriter writes distinct knots with their
 multiplicities

---
 src/StepFile.cpp | 63 ++++++++++++++++++++++++++++++------------------
 1 file changed, 39 insertions(+), 24 deletions(-)

diff --git a/src/StepFile.cpp b/src/StepFile.cpp
index cbfdf42..266ec50 100644
--- a/src/StepFile.cpp
+++ b/src/StepFile.cpp
@@ -12,6 +12,33 @@ namespace StepFile
 
 }
 
+// distinct knots, in order, and how many times each one is repeated
+static void knots_multiplicity(const vector<double>& knots, vector<double>& values, vector<int>& multiplicities)
+{
+	for (const auto& k : knots)
+	{
+		if (values.empty() || (k != values.back()))
+		{
+			values.push_back(k);
+			multiplicities.push_back(0);
+		}
+		multiplicities.back()++;
+	}
+}
+
+template<class T>
+static void write_list(ofstream& f, const vector<T>& v)
+{
+	f << "(";
+	for (size_t i = 0; i < v.size(); i++)
+	{
+		f << v[i];
+		if (i + 1 != v.size())
+			f << ",";
+	}
+	f << ")";
+}
+
 StepWriter::StepWriter() :
 	_iItemIndent(10)
 {
@@ -113,33 +140,21 @@ void StepWriter::write(const NurbsSurface& n)
 	_f << "B_SPLINE_SURFACE_WITH_KNOTS(" << endl;
 
 	//write knot multiplicity
-	_f << "(" << n.degree_u() + 1 << ",";
-	for (int i = 0; i < ku.size() - n.degree_u() * 2 - 2; i++)
-		_f << "1,";
-	_f << n.degree_u() + 1 << ")," << endl;
+	vector<double> vu, vv;
+	vector<int> mu, mv;
+	knots_multiplicity(ku, vu, mu);
+	knots_multiplicity(kv, vv, mv);
 
-	_f << "(" << n.degree_v() + 1 << ",";
-	for (int i = 0; i < kv.size() - n.degree_v() * 2 - 2; i++)
-		_f << "1,";
-	_f << n.degree_v() + 1 << ")," << endl;
-	_f << "(";
+	write_list(_f, mu);
+	_f << "," << endl;
+	write_list(_f, mv);
+	_f << "," << endl;
 
 	//write knot values
-	for (int i = n.degree_u(); i < ku.size() - n.degree_u(); i++)
-	{
-		_f << ku[i];
-		if (i != ku.size() - n.degree_u() - 1)
-			_f << ",";
-	}
-	_f << ")," << endl << "(";
-
-	for (int i = n.degree_v(); i < kv.size() - n.degree_v(); i++)
-	{
-		_f << kv[i];
-		if (i != kv.size() - n.degree_v() - 1)
-			_f << ",";
-	}
-	_f << ")," << endl;
+	write_list(_f, vu);
+	_f << "," << endl;
+	write_list(_f, vv);
+	_f << "," << endl;
 
 	_f << ".UNSPECIFIED.)";
 
-- 
2.43.0


From 74a6454d657f75d219d384571a1053db29ac2e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:42 +0000
Subject: [PATCH 16/34] fix: NurbsUtil::create_from_z builds the control points
 row by row

---
 src/NurbsUtil.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/NurbsUtil.cpp b/src/NurbsUtil.cpp
index 41770bd..9e2f9d1 100644
--- a/src/NurbsUtil.cpp
+++ b/src/NurbsUtil.cpp
@@ -19,8 +19,8 @@ void NurbsUtil::create_from_z(const vector<double>& z, int iSizeX, int iSizeY, i
 	vector < Point3> points;
 
 	int idx = 0;
-	for (int x = 0; x < iSizeX; x++)
-		for (int y = 0; y < iSizeY; y++)
+	for (int y = 0; y < iSizeY; y++)
+		for (int x = 0; x < iSizeX; x++)
 		{
 			Point3 p;
 			p.x() = x;
-- 
2.43.0


From 3c9c9e9cc6b7e12926a0f457497aa952b36c8618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:45 +0000
Subject: [PATCH 17/34] fix: NurbsUtil::create_from_mesh skips unlinked
 triangles

---
 src/NurbsUtil.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/NurbsUtil.cpp b/src/NurbsUtil.cpp
index 9e2f9d1..0067e76 100644
--- a/src/NurbsUtil.cpp
+++ b/src/NurbsUtil.cpp
@@ -43,6 +43,9 @@ void NurbsUtil::create_from_mesh(const Mesh& m, NurbsSolid& n)
 	n.clear();
 	for (int i = 0; i < m.nb_triangles(); i++)
 	{
+		if (m.is_triangle_unlinked(i))
+			continue;
+
 		Triangle3 t;
 		m.get_triangle(i, t);
 
-- 
2.43.0


From fed81a77e7803fd7552345e3a8bfa1d8adf4ab66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:55 +0000
Subject: [PATCH 18/34] fix: NurbsCurve::to_polyline always includes the last
 point

---
 src/NurbsCurve.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/NurbsCurve.cpp b/src/NurbsCurve.cpp
index c8699f4..6bcd521 100644
--- a/src/NurbsCurve.cpp
+++ b/src/NurbsCurve.cpp
@@ -267,11 +267,11 @@ void NurbsCurve::to_polyline(vector<Point3>& polyline) const
 	if (_points.empty())
 		return;
 
-	double deltaT = 1. / (_points.size() * 10.); //todo set 10 dynamic
+	int iNbSegments = (int)_points.size() * 10; //todo set 10 dynamic
 	Point3 p;
-	for (double t = 0; t <= 1.; t += deltaT) // todo last point?
+	for (int i = 0; i <= iNbSegments; i++)
 	{
-		evaluate(t, p);
+		evaluate((double)i / iNbSegments, p);
 		polyline.push_back(p);
 	}
 }
-- 
2.43.0


From 0b407dc2ae9f05b45a4469f8a6f255bc5dd079c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:30 +0000
Subject: [PATCH 19/34] fix: Triangle3::contains accepted points on the
 extension of the side p2 p3

---
 src/Geometry.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Geometry.cpp b/src/Geometry.cpp
index a2b87d8..fc9aa5d 100644
--- a/src/Geometry.cpp
+++ b/src/Geometry.cpp
@@ -369,6 +369,10 @@ bool Triangle3::contains(const Point3& p) const
 	if (u.dot_product(w) < 0.)
 		return false;
 
+	// u is null if p is on the line (_p2,_p3)
+	if (v.dot_product(w) < 0.)
+		return false;
+
 	return true;
 }
 
-- 
2.43.0


From ed3e5e96d513b5087a30a294dbc51046bdfa1177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:33 +0000
Subject: [PATCH 20/34] fix: Segment3::intersect ignored the extent of the
 other segment

---
 src/Geometry.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Geometry.cpp b/src/Geometry.cpp
index fc9aa5d..bb23a43 100644
--- a/src/Geometry.cpp
+++ b/src/Geometry.cpp
@@ -281,13 +281,13 @@ bool Segment3::intersect(const Segment3& s, Point3& pIntersection) const
 	if ((mua < 0.) || (mua > 1.))
 		return false;
 
-	pIntersection = P1 + p21 * mua; //is the nearest point on first segment, the intersection if coplanar
-
-	// can compute the nearest point on the other segment
-	// double mub = (d1343 + d4321 * mua) / d4343;
+	// compute the nearest point on the other segment
+	double mub = (d1343 + d4321 * mua) / d4343;
 	// pIntersectionb = P3 + p43 * mub;
-	//if ((mub < 0.) || (mub > 1.))
-	//	return false;
+	if ((mub < 0.) || (mub > 1.))
+		return false;
+
+	pIntersection = P1 + p21 * mua; //is the nearest point on first segment, the intersection if coplanar
 
 	return true;
 }
-- 
2.43.0


From fc13e3bfe1d4d7f38dbe25b00caecbbaed8fbdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:36 +0000
Subject: [PATCH 21/34] fix: QuadBezierTriangle::add_to_mesh left holes in the
 mesh and reversed the orientation of the patch

---
 src/QuadBezierTriangle.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/QuadBezierTriangle.cpp b/src/QuadBezierTriangle.cpp
index ba6d1c2..2b91069 100644
--- a/src/QuadBezierTriangle.cpp
+++ b/src/QuadBezierTriangle.cpp
@@ -93,14 +93,14 @@ void QuadBezierTriangle::add_to_mesh(Mesh& m, int iNbSegments) const
 		int lineSize = iNbSegments - is + 1;
 
 		// add 1st triangle
-		m.add_triangle(pos, pos + 1, pos + lineSize);
-		pos += lineSize;
+		m.add_triangle(pos, pos + lineSize, pos + 1);
 
-		for (int iu = 1; iu <= lineSize - 4; iu++)
+		for (int iu = 1; iu <= lineSize - 2; iu++)
 		{
-			m.add_triangle(pos + iu, pos + iu + lineSize, pos + iu + lineSize - 1);
-			m.add_triangle(pos + iu, pos + iu + 1, pos + iu + lineSize);
+			m.add_triangle(pos + iu, pos + iu + lineSize - 1, pos + iu + lineSize);
+			m.add_triangle(pos + iu, pos + iu + lineSize, pos + iu + 1);
 		}
+		pos += lineSize;
 	}
 }
 ///////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From dc108ced375036d49dc04a513ee5cc639d8e76d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:38 +0000
Subject: [PATCH 22/34] fix: SmoothMesh self-assignment emptied the mesh and
 adding a mesh to itself did not terminate

---
 src/SmoothMesh.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/SmoothMesh.cpp b/src/SmoothMesh.cpp
index 6ba3c29..bbfbece 100644
--- a/src/SmoothMesh.cpp
+++ b/src/SmoothMesh.cpp
@@ -44,6 +44,9 @@ int SmoothMesh::nb_triangles() const
 
 SmoothMesh& SmoothMesh::operator=(const SmoothMesh& m)
 {
+	if (this == &m)
+		return *this;
+
 	clear();
 	add_mesh(m);
 	return *this;
@@ -51,7 +54,8 @@ SmoothMesh& SmoothMesh::operator=(const SmoothMesh& m)
 
 void SmoothMesh::add_mesh(const SmoothMesh& vst)
 {
-	for (int i = 0; i < vst.nb_triangles(); i++)
+	int iNbTriangles = vst.nb_triangles(); // can be our own size
+	for (int i = 0; i < iNbTriangles; i++)
 	{
 		_vst.push_back(vst.triangle(i));
 	}
-- 
2.43.0


From c85d49de8865e14fd5cbd997e8723aaab7549633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:56 +0000
Subject: [PATCH 23/34] fix: SmoothMeshFactory::create_sphere mixed octants
 facing outside and inside

---
 src/SmoothMeshFactory.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/SmoothMeshFactory.cpp b/src/SmoothMeshFactory.cpp
index 6458eee..64b6398 100644
--- a/src/SmoothMeshFactory.cpp
+++ b/src/SmoothMeshFactory.cpp
@@ -192,22 +192,22 @@ namespace SmoothMeshFactory
 
 		{
 			QuadBezierTriangle st;
-			st.set_points(Point3(-d, 0, 0), Point3(0, d, 0), Point3(0, 0, d));
-			st.set_control_points(Point3(-d, d, 0), Point3(-d, 0, d), Point3(0, d, d));
+			st.set_points(Point3(-d, 0, 0), Point3(0, 0, d), Point3(0, d, 0));
+			st.set_control_points(Point3(-d, 0, d), Point3(-d, d, 0), Point3(0, d, d));
 			m.add_triangle(st);
 		}
 
 		{
 			QuadBezierTriangle st;
-			st.set_points(Point3(d, 0, 0), Point3(0, -d, 0), Point3(0, 0, d));
-			st.set_control_points(Point3(d, -d, 0), Point3(d, 0, d), Point3(0, -d, d));
+			st.set_points(Point3(d, 0, 0), Point3(0, 0, d), Point3(0, -d, 0));
+			st.set_control_points(Point3(d, 0, d), Point3(d, -d, 0), Point3(0, -d, d));
 			m.add_triangle(st);
 		}
 
 		{
 			QuadBezierTriangle st;
-			st.set_points(Point3(d, 0, 0), Point3(0, d, 0), Point3(0, 0, -d));
-			st.set_control_points(Point3(d, d, 0), Point3(d, 0, -d), Point3(0, d, -d));
+			st.set_points(Point3(d, 0, 0), Point3(0, 0, -d), Point3(0, d, 0));
+			st.set_control_points(Point3(d, 0, -d), Point3(d, d, 0), Point3(0, d, -d));
 			m.add_triangle(st);
 		}
 
@@ -220,8 +220,8 @@ namespace SmoothMeshFactory
 
 		{
 			QuadBezierTriangle st;
-			st.set_points(Point3(-d, 0, 0), Point3(0, -d, 0), Point3(0, 0, -d));
-			st.set_control_points(Point3(-d, -d, 0), Point3(-d, 0, -d), Point3(0, -d, -d));
+			st.set_points(Point3(-d, 0, 0), Point3(0, 0, -d), Point3(0, -d, 0));
+			st.set_control_points(Point3(-d, 0, -d), Point3(-d, -d, 0), Point3(0, -d, -d));
 			m.add_triangle(st);
 		}
 
-- 
2.43.0


From 4e8c41604029557b405fb4ceaaca959e437003dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:52 +0000
Subject: [PATCH 24/34] fix: Face assignment left the face unchanged and leaked
 a copy of it

---
 src/Face.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Face.cpp b/src/Face.cpp
index 004d796..5aa3334 100644
--- a/src/Face.cpp
+++ b/src/Face.cpp
@@ -25,7 +25,9 @@ Face::~Face()
 
 Face& Face::operator=(const Face& other)
 {
-	return *new Face(*this);
+	_mesh = other._mesh;
+	_iColor = other._iColor;
+	return *this;
 }
 
 void Face::set_color(int iColor)
-- 
2.43.0


From 7dc4a4c986ae3afcfe0951bf74b1b040857d104c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:55 +0000
Subject: [PATCH 25/34] fix: Solid assignment left the solid unchanged and
 leaked, copies lost the faces

---
 src/Solid.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Solid.cpp b/src/Solid.cpp
index f5d8815..6d935ec 100644
--- a/src/Solid.cpp
+++ b/src/Solid.cpp
@@ -7,7 +7,8 @@ Solid::Solid()
 }
 
 Solid::Solid(const Solid& f) :
-	_mesh(f._mesh)
+	_mesh(f._mesh),
+	_faces(f._faces)
 {
 }
 
@@ -22,7 +23,9 @@ Solid::~Solid()
 
 Solid& Solid::operator=(const Solid& other)
 {
-	return *new Solid(*this);
+	_mesh = other._mesh;
+	_faces = other._faces;
+	return *this;
 }
 
 
-- 
2.43.0


From 398b660738d11540509a3f62936ecc1a859bdd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:38 +0000
Subject: [PATCH 26/34] fix: points left of or above the screen were drawn in
 its first column or row (projection rounded towards zero)

---
 src/RendererCamera.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/RendererCamera.cpp b/src/RendererCamera.cpp
index e605354..9ec6aa2 100644
--- a/src/RendererCamera.cpp
+++ b/src/RendererCamera.cpp
@@ -51,8 +51,8 @@ void RendererCamera::project(const Point3& pPixels, int& screenx, int& screeny,
 {
 	Point3 pc = local_ref(pPixels);
 
-	screenx = (int)(pc.x() * _zoomFactor / pc.z() + _screenCenterX + 0.5);
-	screeny = (int)(pc.y() * _zoomFactor / pc.z() + _screenCenterY + 0.5);
+	screenx = (int)floor(pc.x() * _zoomFactor / pc.z() + _screenCenterX + 0.5);
+	screeny = (int)floor(pc.y() * _zoomFactor / pc.z() + _screenCenterY + 0.5);
 	if (pc.z() != 0.)
 		w = 1. / pc.z();
 	else
-- 
2.43.0


From dfffad53e8b0df950c8785fd62cf6e958d6d2fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:41 +0000
Subject: [PATCH 27/34] fix: triangles going below the screen were not drawn in
 its last row

---
 src/Renderer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index 45fba8a..2754f5c 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -219,13 +219,13 @@ bool Renderer::draw_trapeze(double ax, double aw, double bx, double bw, int ay,
 		bx = dx * t + (1. - t)*bx;
 		bw = dw * t + (1. - t)*bw;
 	}
-	if (cy >= _Ymax )
+	if (cy > _Ymax )
 	{
-		double t = (double)(cy - (_Ymax-1)) / (cy - ay);
+		double t = (double)(cy - _Ymax) / (cy - ay);
 		assert(t >= 0.);
 		assert(t <= 1.);
  
-		cy = _Ymax-1;
+		cy = _Ymax;
 		cx = ax * t + (1. - t)*cx;
 		cw = aw * t + (1. - t)*cw;
 		dx = bx * t + (1. - t)*dx;
@@ -234,7 +234,7 @@ bool Renderer::draw_trapeze(double ax, double aw, double bx, double bw, int ay,
 
 	assert(ay >= 0);
 	assert(ay <= cy);
-	assert(cy < _Ymax);
+	assert(cy <= _Ymax);
 
 	//plot trapeze
 	assert(ay <= cy);
-- 
2.43.0


From bd99dd350ae347ce8ff866fe376c54943e11d2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:44 +0000
Subject: [PATCH 28/34] fix: wrong depth for the part of a triangle cut by the
 left of the screen

---
 src/Renderer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index 2754f5c..fafd595 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -278,7 +278,7 @@ void Renderer::draw_horizontal_line(int ax, double aw, int bx, double bw, int y,
 		assert(t <= 1.);
 
 		ax = 0; // bx* t + (1. - t) * ax;
-		aw = bw * t + (1. - t)*aw;
+		aw = aw * t + (1. - t)*bw;
 	}
 	if (bx >= _Xmax)
 	{
-- 
2.43.0


From ded5ca4bfcbf6a0e8d575218065bf5f1c1d8a28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:47 +0000
Subject: [PATCH 29/34] fix: triangles partly left of or above the screen were
 drawn up to two pixels off (rounding towards zero)

---
 src/Renderer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Renderer.cpp b/src/Renderer.cpp
index fafd595..97fb498 100644
--- a/src/Renderer.cpp
+++ b/src/Renderer.cpp
@@ -167,8 +167,8 @@ bool Renderer::draw_triangle_1color(const Point3& A, const Point3& B, const Poin
 	assert(t >= 0.);
 	assert(t <= 1.);
 
-	int dx = (int)(cx * t + (1. - t)*ax+0.5);
-	int dy = (int)(cy * t + (1. - t)*ay+0.5);
+	int dx = (int)floor(cx * t + (1. - t)*ax+0.5);
+	int dy = (int)floor(cy * t + (1. - t)*ay+0.5);
 	double dw = cw * t + (1. - t)*aw;
 
 	//reorder in x such that bx<dx
@@ -245,9 +245,9 @@ bool Renderer::draw_trapeze(double ax, double aw, double bx, double bw, int ay,
 		assert(t >= 0.);
 		assert(t <= 1.);
 
-		int p1x = (int)(cx * t + ax * (1. - t)+0.5);
+		int p1x = (int)floor(cx * t + ax * (1. - t)+0.5);
 		double p1w = (cw * t + aw * (1. - t));
-		int p2x = (int)(dx * t + bx * (1. - t)+0.5);
+		int p2x = (int)floor(dx * t + bx * (1. - t)+0.5);
 		double p2w = (dw * t + bw * (1. - t));
 
 		assert(p1x <= p2x);
-- 
2.43.0


From 59ad61d9a9bcc61c7e7be40ed9459ce7c31c4e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:50 +0000
Subject: [PATCH 30/34] fix: splitting a triangle that is already split added
 its pieces to the mesh a second time

---
 src/Mesh.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index b90df9a..2ce3ede 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -358,6 +358,9 @@ void Mesh::apply_transform(const Transform& t)
 //////////////////////////////////////////////////////////////////////////////////
 void Mesh::split_triangle(int iTriangle, const Triangle3 & tSplitter)
 {
+	if (is_triangle_unlinked(iTriangle))
+		return; // already replaced by its pieces
+
 	Triangle3 tA; get_triangle(iTriangle, tA);
 	Point3 pIntersection;
 
-- 
2.43.0


From edef9436c039a7a2e30608861be075cb50b2b7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:53 +0000
Subject: [PATCH 31/34] fix: splitting a triangle along a line through one of
 its corners aborted

---
 src/Mesh.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Mesh.cpp b/src/Mesh.cpp
index 2ce3ede..d5f02ad 100644
--- a/src/Mesh.cpp
+++ b/src/Mesh.cpp
@@ -419,8 +419,7 @@ void Mesh::split_triangle(int iTriangle, const Triangle3 & tSplitter)
 		if ((b12 || b13 || b23) == false)
 			return; // not intersection
 
-		assert((b12 && b13 && b23) == false); //not possible to intersect all 3 sides
-
+		// all 3 sides are hit when the segment goes through a corner
 	}
 
 	/*
-- 
2.43.0


From 195dac3c0c5a54d1423bb42f6a4554c4b87dcbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:21 +0000
Subject: [PATCH 32/34] fix: OBJWriter numbers the vertices of a reopened file
 from 1 again

---
 src/OBJFile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/OBJFile.cpp b/src/OBJFile.cpp
index 918ba38..c5329d9 100644
--- a/src/OBJFile.cpp
+++ b/src/OBJFile.cpp
@@ -83,6 +83,7 @@ OBJWriter::~OBJWriter()
 void OBJWriter::open(const string& filename)
 {
 	_f.open(filename);
+	_verticesCount = 0; // vertices are numbered from the start of each file
 }
 
 bool OBJWriter::is_open()
-- 
2.43.0


From 65732a48703609786c8de55e4c3a4f2ac7184d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:25 +0000
Subject: [PATCH 33/34] fix: Plane3::intersect_with a plane reported an
 intersection without computing the line

---
 src/Geometry.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/Geometry.cpp b/src/Geometry.cpp
index bb23a43..474cee0 100644
--- a/src/Geometry.cpp
+++ b/src/Geometry.cpp
@@ -515,12 +515,10 @@ bool Plane3::intersect_with(const Plane3& p, Line3& pIntersection) const
 	if (direction.norm_square() < espilon * espilon)
 		return false;
 
-	//compute one intersection point
+	// compute one intersection point, the nearest to the origin
+	Point3 point = (direction.cross_product(p.normal()) * _d + normal().cross_product(direction) * p._d) / direction.norm_square();
 
-	//Plane3 p4(Point3(), this->normal() * this->_d, p.normal() * p._d);
-
-
-	//todo
+	pIntersection = Line3(point, point + direction);
 
 	return true;
 }
-- 
2.43.0


From 4bb3b8a1d00fdacb7a732d336835d9a716c95272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:58 +0000
Subject: [PATCH 34/34] fix: Segment3::intersect took short crossing segments
 for parallel ones

---
 src/Geometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Geometry.cpp b/src/Geometry.cpp
index 474cee0..01285ef 100644
--- a/src/Geometry.cpp
+++ b/src/Geometry.cpp
@@ -270,7 +270,7 @@ bool Segment3::intersect(const Segment3& s, Point3& pIntersection) const
 	double d2121 = p21.dot_product(p21);
 
 	double denom = d2121 * d4343 - d4321 * d4321;
-	if (fabs(denom) < EPS)
+	if ((fabs(denom) < EPS) && (fabs(denom) < EPS * d2121 * d4343)) // parallel, whatever the length of the segments
 		return false;
 
 	double d1321 = p13.dot_product(p21);
-- 
2.43.0

