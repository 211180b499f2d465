From bb91c5d61ce8880452f1eb743bdcb3f4c601b275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 01/80] fix: build the invalid Nastran DOF code message without
 pointer arithmetic

"literal" + int moved the pointer past the end of the literal, so rejecting
a code read out of bounds (and could crash) instead of naming the code.
---
 Abstract/Dof.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Dof.cpp b/Abstract/Dof.cpp
index 80084b2..26afc2d 100644
--- a/Abstract/Dof.cpp
+++ b/Abstract/Dof.cpp
@@ -190,7 +190,7 @@ DOFS DOFS::nastranCodeToDOFS(int nastranCode) {
 		number = number / 10;
 		auto codeiter = DOF_BY_NASTRANCODE.left.find(nastranDigit);
 		if (codeiter == DOF_BY_NASTRANCODE.left.end()) {
-			throw invalid_argument("Invalid Nastran code: " + nastranCode);
+			throw invalid_argument("Invalid Nastran code: " + to_string(nastranCode));
 		}
 		DOFS internalDOFCode {static_cast<char>(codeiter->second)};
 		dofs += internalDOFCode;
-- 
2.43.0


From f6af9bbeff46995d93cc8a79f343740b3cb5efab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:16 +0000
Subject: [PATCH 02/80] fix: keep the orientation of shell elements when
 writing Nastran

---
 Nastran/NastranWriter.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 0e16330..3d0ef18 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -153,11 +153,11 @@ Line& Line::add(const VectorialValue vector) noexcept {
 
 const unordered_map<CellType::Code, vector<int>, EnumClassHash> NastranWriter::med2nastranNodeConnectByCellType =
         {
-                { CellType::Code::TRI3_CODE, { 0, 2, 1 } },
-                { CellType::Code::TRI6_CODE, { 0, 2, 1, 5, 4, 3 } },
-                { CellType::Code::QUAD4_CODE, { 0, 3, 2, 1 } },
-                { CellType::Code::QUAD8_CODE, { 0, 3, 2, 1, 7, 6, 5, 4 } },
-                { CellType::Code::QUAD9_CODE, { 0, 3, 2, 1, 7, 6, 5, 4, 8 } },
+                { CellType::Code::TRI3_CODE, { 0, 1, 2 } },
+                { CellType::Code::TRI6_CODE, { 0, 1, 2, 3, 4, 5 } },
+                { CellType::Code::QUAD4_CODE, { 0, 1, 2, 3 } },
+                { CellType::Code::QUAD8_CODE, { 0, 1, 2, 3, 4, 5, 6, 7 } },
+                { CellType::Code::QUAD9_CODE, { 0, 1, 2, 3, 4, 5, 6, 7, 8 } },
                 { CellType::Code::TETRA4_CODE, { 0, 2, 1, 3 } },
                 { CellType::Code::TETRA10_CODE, { 0, 2, 1, 3, 6, 5, 4, 7, 9, 8 } },
                 { CellType::Code::PYRA5_CODE, { 0, 3, 2, 1, 4 } },
-- 
2.43.0


From 1c393fed49ea34d98c5f5e7cbec1109e382f31e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:16 +0000
Subject: [PATCH 03/80] fix: write CROD and PROD cards for truss elements

---
 Nastran/NastranWriter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 3d0ef18..ac34e66 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -253,6 +253,8 @@ void NastranWriter::writeCells(const Model& model, ofstream& out) const
 			string keyword;
 			if (elementSet->isBeam()) {
                 keyword = isCosmic() ? "CBAR" : "CBEAM";
+            } else if (elementSet->isTruss()) {
+                keyword = "CROD";
             } else if (elementSet->isDiscrete() and cell.type.code == CellType::Code::SEG2_CODE) {
                 keyword = "CBUSH";
 			} else if (elementSet->isShell()) {
@@ -795,7 +797,7 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 		prod.add(truss->mainMaterial()->bestId());
 		prod.add(truss->getAreaCrossSection());
 		prod.add(truss->getTorsionalConstant());
-		out << truss;
+		out << prod;
 		truss->markAsWritten();
 	}
 	for (const auto& beam : model.getBeams()) {
-- 
2.43.0


From 8de1f1ee477a3df8d1cd103069edf7b4ff46d8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:16 +0000
Subject: [PATCH 04/80] fix: write Nastran GRID positions in the basic system
 instead of dismissing CP

---
 Nastran/NastranWriter.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index ac34e66..73e0b70 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -371,11 +371,9 @@ void NastranWriter::writeCells(const Model& model, ofstream& out) const
 void NastranWriter::writeNodes(const Model& model, ofstream& out) const
 		{
 	for (Node node : model.mesh.nodes) {
-	    if (node.positionCS!= CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID)
-	        cerr << "Warning in GRID "<<node.id<<" CP not supported and dismissed."<<endl;
         if (node.displacementCS!= CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID)
             cerr << "Warning in GRID "<<node.id<<" CD not supported and dismissed."<<endl;
-		out << Line("GRID").add(node.id).add().add(node.lx).add(node.ly).add(node.lz);
+		out << Line("GRID").add(node.id).add().add(node.x).add(node.y).add(node.z);
 	}
 }
 
-- 
2.43.0


From a19470470c3e0b62fe03ef7b7be0059f0daca8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:00 +0000
Subject: [PATCH 05/80] fix: keep GRDSET default coordinate systems as input
 ids

---
 Nastran/NastranParser_geometry.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/Nastran/NastranParser_geometry.cpp b/Nastran/NastranParser_geometry.cpp
index fa8884a..7104421 100644
--- a/Nastran/NastranParser_geometry.cpp
+++ b/Nastran/NastranParser_geometry.cpp
@@ -55,17 +55,12 @@ const unordered_map<CellType::Code, vector<int>, EnumClassHash> NastranParser::n
                         14, 13, 12 } }
         };
 
-void NastranParser::parseGRDSET(NastranTokenizer& tok, Model& model) {
+void NastranParser::parseGRDSET(NastranTokenizer& tok, Model&) {
     tok.skip(1);
-    int cp = tok.nextInt(true, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
-    if (cp != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID){
-        grdSet.cp = model.mesh.findOrReserveCoordinateSystem(Reference<CoordinateSystem>(CoordinateSystem::Type::ABSOLUTE, cp));
-        }
+    // The defaults are kept as input ids: parseGRID turns them into positions.
+    grdSet.cp = tok.nextInt(true, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
     tok.skip(3);
-    int cd = tok.nextInt(true, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
-    if (cd != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID){
-        grdSet.cd = model.mesh.findOrReserveCoordinateSystem(Reference<CoordinateSystem>(CoordinateSystem::Type::ABSOLUTE, cd));
-        }
+    grdSet.cd = tok.nextInt(true, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
     grdSet.ps = tok.nextInt(true, 0);
     grdSet.seid = tok.nextInt(true, 0);
 
-- 
2.43.0


From 8a587d962f338114d980b4b9c2d1da522434beb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:41 +0000
Subject: [PATCH 06/80] fix: build the frames that the points of a CORD1R lie
 in before it

---
 Abstract/CoordinateSystem.cpp | 21 ++++++++++++++++++++-
 Abstract/CoordinateSystem.h   |  4 ++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/Abstract/CoordinateSystem.cpp b/Abstract/CoordinateSystem.cpp
index 2fb85f6..2d52e18 100644
--- a/Abstract/CoordinateSystem.cpp
+++ b/Abstract/CoordinateSystem.cpp
@@ -58,6 +58,15 @@ ostream &operator<<(ostream &out, const CoordinateSystem& coordinateSystem) {
     return out;
 }
 
+void CoordinateSystem::buildWithReferences() {
+    if (rcs != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM) {
+        const auto& reference = mesh.findCoordinateSystem(rcs);
+        if (reference != nullptr)
+            reference->buildWithReferences();
+    }
+    build();
+}
+
 VectorialValue CoordinateSystem::getEulerAnglesIntrinsicZYX(const CoordinateSystem *cs) const {
     double ax, ay, az = 0;
     VectorialValue EX, EY, EZ;
@@ -152,6 +161,17 @@ unique_ptr<CoordinateSystem> CartesianCoordinateSystem::clone() const {
 void CartesianCoordinateSystem::build(){
 
     if (isVirtual){
+        isVirtual=false;
+        // The definition nodes may lie in coordinate systems that have to be built before this one
+        for (const int nodeId : this->nodesId) {
+            const pos_t cpos = mesh.findNode(mesh.findNodePosition(nodeId)).positionCS;
+            if (cpos == CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID)
+                continue;
+            const auto& coordSystem = mesh.getCoordinateSystemByPosition(cpos);
+            if (coordSystem != nullptr)
+                coordSystem->buildWithReferences();
+        }
+
         int nO  = this->nodesId[0];
         int nZ  = this->nodesId[1];
         int nXZ = this->nodesId[2];
@@ -167,7 +187,6 @@ void CartesianCoordinateSystem::build(){
 
         this->ex = v.orthonormalized(this->ez);
         this->ey = this->ez.cross(this->ex);
-        isVirtual=false;
     }
 
     boost::numeric::ublas::matrix<double> m(3, 3);
diff --git a/Abstract/CoordinateSystem.h b/Abstract/CoordinateSystem.h
index 6105b3f..de78498 100644
--- a/Abstract/CoordinateSystem.h
+++ b/Abstract/CoordinateSystem.h
@@ -84,6 +84,10 @@ public:
     }
     virtual void build(){
     }
+    /**
+     *  Build the coordinate systems this one refers to, then this one.
+     */
+    void buildWithReferences();
     /**
      *  Translate a position (x,y,z) expressed in this local Coordinate system,
      *   to its global counterpart.
-- 
2.43.0


From 1f02ce194c43663b4233d4819d90bda73da48662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:23 +0000
Subject: [PATCH 07/80] fix: give tube sections their outer radius and compute
 their section from it

---
 Abstract/Element.cpp      | 6 +++---
 Nastran/NastranParser.cpp | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/Abstract/Element.cpp b/Abstract/Element.cpp
index e8a46b3..3a81826 100644
--- a/Abstract/Element.cpp
+++ b/Abstract/Element.cpp
@@ -247,11 +247,11 @@ unique_ptr<ElementSet> TubeSectionBeam::clone() const {
 }
 
 double TubeSectionBeam::getAreaCrossSection() const {
-	return M_PI * (pow(radius, 2) - pow(thickness, 2)) ;
+	return M_PI * (pow(radius, 2) - pow(radius - thickness, 2));
 }
 
 double TubeSectionBeam::getMomentOfInertiaY() const {
-	return (pow(radius, 4) - pow(thickness, 4)) * M_PI / 4;
+	return (pow(radius, 4) - pow(radius - thickness, 4)) * M_PI / 4;
 }
 
 double TubeSectionBeam::getMomentOfInertiaZ() const {
@@ -260,7 +260,7 @@ double TubeSectionBeam::getMomentOfInertiaZ() const {
 
 double TubeSectionBeam::getTorsionalConstant() const {
 	// http://en.wikipedia.org/wiki/Torsion_constant
-	return (pow(radius, 4) - pow(thickness, 4)) * M_PI / 2;
+	return (pow(radius, 4) - pow(radius - thickness, 4)) * M_PI / 2;
 }
 
 double TubeSectionBeam::getShearAreaFactorY() const {
diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index fa2ccab..6457846 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2191,7 +2191,7 @@ void NastranParser::parsePBARL(NastranTokenizer& tok, Model& model) {
         double extRadius = tok.nextDouble();
         double intRadius = tok.nextDouble();
         nsm = tok.nextDouble(true, 0.0);
-        const auto& tubeSectionBeam = make_shared<TubeSectionBeam>(model, intRadius, extRadius - intRadius, Beam::BeamModel::TIMOSHENKO, nsm, propertyId);
+        const auto& tubeSectionBeam = make_shared<TubeSectionBeam>(model, extRadius, extRadius - intRadius, Beam::BeamModel::TIMOSHENKO, nsm, propertyId);
         tubeSectionBeam->assignMaterial(Reference<Material>(Material::Type::MATERIAL,mid));
         tubeSectionBeam->add(*getOrCreateCellGroup(propertyId, model, "PBARL"));
         tubeSectionBeam->setInputContext(tok.getInputContext());
@@ -2369,7 +2369,7 @@ void NastranParser::parsePBEAML(NastranTokenizer& tok, Model& model) {
         double extRadius = tok.nextDouble();
         double intRadius = tok.nextDouble();
         nsm = tok.nextDouble(true, 0.0);
-        const auto& tubeSectionBeam = make_shared<TubeSectionBeam>(model, intRadius, extRadius - intRadius, Beam::BeamModel::TIMOSHENKO, nsm, pid);
+        const auto& tubeSectionBeam = make_shared<TubeSectionBeam>(model, extRadius, extRadius - intRadius, Beam::BeamModel::TIMOSHENKO, nsm, pid);
         tubeSectionBeam->assignMaterial(Reference<Material>(Material::Type::MATERIAL,mid));
         tubeSectionBeam->add(*getOrCreateCellGroup(pid, model,"PBEAML"));
         tubeSectionBeam->setInputContext(tok.getInputContext());
-- 
2.43.0


From 551e26c0ad7978965acc3136c7260f5093319e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:23 +0000
Subject: [PATCH 08/80] fix: compute the torsion constant of rectangular
 sections from their long side

---
 Abstract/Element.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Abstract/Element.cpp b/Abstract/Element.cpp
index 3a81826..a54f047 100644
--- a/Abstract/Element.cpp
+++ b/Abstract/Element.cpp
@@ -298,7 +298,9 @@ double RectangularSectionBeam::getTorsionalConstant() const {
 	//	return height * pow(width, 3) / 3;
 	//}
 
-	return width*pow(height, 3)*(1.0/3 -0.21*height*(1- pow(height,4)/(12*pow(width,4)))/width);
+	const double a = std::max(width, height);
+	const double b = std::min(width, height);
+	return a*pow(b, 3)*(1.0/3 -0.21*b*(1- pow(b,4)/(12*pow(a,4)))/a);
 }
 
 double RectangularSectionBeam::getShearAreaFactorY() const {
-- 
2.43.0


From ab96b77837015274ba8e174c41b349d060384bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:23 +0000
Subject: [PATCH 09/80] fix: write PBAR without the I12 field of PBEAM

---
 Nastran/NastranWriter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 73e0b70..3ee71ae 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -806,7 +806,9 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 		pbeam.add(beam->getAreaCrossSection());
 		pbeam.add(beam->getMomentOfInertiaZ());
 		pbeam.add(beam->getMomentOfInertiaY());
-		pbeam.add(0.0);
+		if (not isCosmic()) {
+			pbeam.add(0.0); // I12, not in PBAR
+		}
 		pbeam.add(beam->getTorsionalConstant());
 		out << pbeam;
 		beam->markAsWritten();
-- 
2.43.0


From dfdf8f6f7ca07e9d1772c6812836c6a47a8210ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:24 +0000
Subject: [PATCH 10/80] fix: write the offset of CQUAD8 after its corner
 thicknesses

---
 Nastran/NastranWriter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 3ee71ae..afb2b4a 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -360,6 +360,9 @@ void NastranWriter::writeCells(const Model& model, ofstream& out) const
                     F = "1";
                 cellLine.add(x1x2x3).add(F);
             } else if (elementSet->isShell()) {
+                if (cell.type.code == CellType::Code::QUAD8_CODE) {
+                    cellLine.skip(4); // T1 to T4
+                }
                 cellLine.add(); // theta (real) or matid (int)
                 cellLine.add(cell.offset);
             }
-- 
2.43.0


From b5a38438923c01a51f57898f4d34f007b9876376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:24 +0000
Subject: [PATCH 11/80] fix: read K1 and K2 of PBAR as the shear factors of
 planes 1 and 2

---
 Nastran/NastranParser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 6457846..176708d 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2117,8 +2117,8 @@ void NastranParser::parsePBAR(NastranTokenizer& tok, Model& model) {
 
     // K1, K2: Area factors for shear. VEGA works with 1/K1 and 1/K2
     // Default values is infinite
-    const double k1 = tok.nextDouble(true); // K1 = Kzz
-    const double k2 = tok.nextDouble(true); // K2 = Kyy
+    const double k1 = tok.nextDouble(true); // K1: plane 1, shear along y
+    const double k2 = tok.nextDouble(true); // K2: plane 2, shear along z
     double invk1, invk2;
     if (is_equal(k1, Globals::UNAVAILABLE_DOUBLE)){
         invk1= 0.0;
@@ -2136,7 +2136,7 @@ void NastranParser::parsePBAR(NastranTokenizer& tok, Model& model) {
         handleParsingWarning("PBAR i12 not implemented.", tok, model);
     }
 
-    const auto& genericSectionBeam = make_shared<GenericSectionBeam>(model, area, i2, i1, j, invk2, invk1, Beam::BeamModel::TIMOSHENKO, nsm,
+    const auto& genericSectionBeam = make_shared<GenericSectionBeam>(model, area, i2, i1, j, invk1, invk2, Beam::BeamModel::TIMOSHENKO, nsm,
             elemId);
     genericSectionBeam->assignMaterial(Reference<Material>(Material::Type::MATERIAL,mid));
     genericSectionBeam->add(*getOrCreateCellGroup(elemId, model, "PBAR"));
-- 
2.43.0


From 38495a8287be1ac009f93e0b88805e0d74290ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:02 +0000
Subject: [PATCH 12/80] fix: split shells by their exact cell offsets, each
 property on its own

---
 Abstract/Model.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index e3eb356..73ab765 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -2126,46 +2126,50 @@ void Model::createSetGroups() {
 void Model::splitElementsByCellOffsets() {
     vector<shared_ptr<ElementSet>> elementSetsToAdd;
     vector<shared_ptr<ElementSet>> elementSetsToRemove;
-    map<long, shared_ptr<CellContainer>> cellPositionsByRoundedOffset;
 
     for (const auto& elementSet : elementSets.filter(ElementSet::Type::SHELL)) {
         const auto& shell = static_pointer_cast<Shell>(elementSet);
         if (not shell->containsNonzeroOffsetCell())
             continue;
         elementSetsToRemove.push_back(shell);
+        map<double, shared_ptr<CellContainer>> cellContainerByOffset;
         for (const Cell& cell : shell->getCellsIncludingGroups()) {
-            long offsetRounded = lround(pow(cell.offset,6));
-            const auto& it = cellPositionsByRoundedOffset.find(offsetRounded);
-            if (it == cellPositionsByRoundedOffset.end()) {
+            const auto& it = cellContainerByOffset.find(cell.offset);
+            if (it == cellContainerByOffset.end()) {
                 const shared_ptr<ElementSet>& clonedElement = shell->clone();
                 const auto& clonedShell = dynamic_pointer_cast<Shell>(clonedElement);
+                if (not cellContainerByOffset.empty()) {
+                    clonedShell->resetId(); // the first part keeps the id
+                }
                 clonedShell->clear();
                 clonedShell->offset = shell->offset + cell.offset;
                 clonedShell->add(cell);
-                cellPositionsByRoundedOffset[offsetRounded] = clonedShell;
+                cellContainerByOffset[cell.offset] = clonedShell;
                 elementSetsToAdd.push_back(clonedShell);
             } else {
                 it->second->add(cell);
             }
         }
     }
-    cellPositionsByRoundedOffset.clear();
 
     for (const auto& elementSet : elementSets.filter(ElementSet::Type::COMPOSITE)) {
         const auto& composite = static_pointer_cast<Composite>(elementSet);
         if (not composite->containsNonzeroOffsetCell())
             continue;
         elementSetsToRemove.push_back(composite);
+        map<double, shared_ptr<CellContainer>> cellContainerByOffset;
         for (const Cell& cell : composite->getCellsIncludingGroups()) {
-            long offsetRounded = lround(pow(cell.offset,6));
-            const auto& it = cellPositionsByRoundedOffset.find(offsetRounded);
-            if (it == cellPositionsByRoundedOffset.end()) {
+            const auto& it = cellContainerByOffset.find(cell.offset);
+            if (it == cellContainerByOffset.end()) {
                 const shared_ptr<ElementSet>& clonedElement = composite->clone();
                 const auto& clonedComposite = static_pointer_cast<Composite>(clonedElement);
+                if (not cellContainerByOffset.empty()) {
+                    clonedComposite->resetId(); // the first part keeps the id
+                }
                 clonedComposite->clear();
                 clonedComposite->offset = composite->offset + cell.offset;
                 clonedComposite->add(cell);
-                cellPositionsByRoundedOffset[offsetRounded] = clonedComposite;
+                cellContainerByOffset[cell.offset] = clonedComposite;
                 elementSetsToAdd.push_back(clonedComposite);
             } else {
                 it->second->add(cell);
-- 
2.43.0


From f91d62746eefdef029db8a4b54e9f94bdbc8519a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:03 +0000
Subject: [PATCH 13/80] fix: put only the additional mass, not the stiffness,
 on the cells that emulate it

---
 Abstract/Model.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 73ab765..2833bfe 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -912,6 +912,11 @@ void Model::emulateAdditionalMass() {
             const auto& cellElementSet = dynamic_pointer_cast<CellElementSet>(newElementSet);
             if (cellElementSet == nullptr)
                 throw logic_error("additional mass but elementset is not a cellcontainer?");
+            // the copy only carries the additional mass: neither the cells nor the materials of the original
+            cellElementSet->clear();
+            for (const auto& material : elementSet->getMaterials()) {
+                cellElementSet->unassignMaterial(material);
+            }
 
             // assign new material
             const auto& newMaterial = make_shared<Material>(*this);
@@ -923,13 +928,12 @@ void Model::emulateAdditionalMass() {
             oss << "created by emulateAdditionalMass() because of elementSet: " << elementSet << " additional rho:" << rho;
             const auto& newCellGroup = mesh.createCellGroup(
                     "VAM_" + to_string(newElementSets.size()), Group::NO_ORIGINAL_ID, oss.str());
-            const auto& cellContainer = dynamic_pointer_cast<CellContainer>(elementSet);
-            cellContainer->add(*newCellGroup);
+            cellElementSet->add(*newCellGroup);
             newElementSets.push_back(newElementSet);
             for (const auto cellPosition : elementSet->cellPositions()) {
                 const Cell& cell = mesh.findCell(cellPosition);
                 const auto newCellPosition = mesh.addCell(Cell::AUTO_ID, cell.type, cell.nodeIds, cell.isvirtual,
-                        cell.cspos, cell.elementId);
+                        cell.cspos, cell.elementId, cell.offset);
                 newCellGroup->addCellPosition(newCellPosition);
             }
         }
-- 
2.43.0


From 965d437aaca8e6b8be162c34427f19f73f9181ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:12 +0000
Subject: [PATCH 14/80] fix: write the non structural mass of beams and shells
 to Nastran

---
 Abstract/Element.cpp      |  8 ++++++++
 Abstract/Element.h        |  2 ++
 Abstract/Model.cpp        |  7 +++++++
 Abstract/Model.h          |  3 +++
 Nastran/NastranWriter.cpp | 11 +++++++++++
 5 files changed, 31 insertions(+)

diff --git a/Abstract/Element.cpp b/Abstract/Element.cpp
index a54f047..8f7d75d 100644
--- a/Abstract/Element.cpp
+++ b/Abstract/Element.cpp
@@ -170,6 +170,10 @@ DOFS Beam::getDOFSForNode(const pos_t nodePosition) const {
     return DOFS::ALL_DOFS;
 }
 
+double Beam::getAdditionalMass() const {
+	return additional_mass * model.massMultiplier();
+}
+
 RecoveryPoint::RecoveryPoint(const Model& model, const double lx, const double ly, const double lz) :
     model(model), localCoords(lx, ly, lz) {
 }
@@ -362,6 +366,10 @@ Shell::Shell(Model& model, double thickness, double additional_mass, double offs
 		additional_mass(additional_mass), thickness(thickness), offset(offset) {
 }
 
+double Shell::getAdditionalMass() const {
+	return additional_mass * model.massMultiplier();
+}
+
 bool Shell::containsNonzeroOffsetCell() const {
     for (const Cell& cell : this->getCellsIncludingGroups()) {
         if (not is_zero(cell.offset)) return true;
diff --git a/Abstract/Element.h b/Abstract/Element.h
index 0f286c5..ecd3cf4 100644
--- a/Abstract/Element.h
+++ b/Abstract/Element.h
@@ -163,6 +163,7 @@ public:
 	double getAdditionalRho() const override {
 		return additional_mass / std::max(getAreaCrossSection(), DBL_MIN);
 	}
+	double getAdditionalMass() const;
 	/**
 	 * True only for elements having rotational stiffness in linear static analysis, false for Truss elements (also see isTruss() method )
 	 */
@@ -305,6 +306,7 @@ public:
 	double getAdditionalRho() const override {
 		return additional_mass / std::max(thickness, DBL_MIN);
 	}
+	double getAdditionalMass() const;
 	bool containsNonzeroOffsetCell() const;
 	bool isShell() const override final {
 		return true;
diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 2833bfe..a830988 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -823,6 +823,13 @@ string Model::getParameter(const ModelParameter& parameter) const noexcept {
     return "";
 }
 
+double Model::massMultiplier() const {
+    if (not this->contains(ModelParameter::MASS_OVER_FORCE_MULTIPLIER)) {
+        return 1.0;
+    }
+    return stod(this->getParameter(ModelParameter::MASS_OVER_FORCE_MULTIPLIER));
+}
+
 bool Model::needsLargeDisplacements() const {
     int largeDisp = 0;
     auto it = this->parameters.find(ModelParameter::LARGE_DISPLACEMENTS);
diff --git a/Abstract/Model.h b/Abstract/Model.h
index e3c551f..b2836d9 100644
--- a/Abstract/Model.h
+++ b/Abstract/Model.h
@@ -322,6 +322,9 @@ public:
 
     std::string getParameter(const ModelParameter& parameter) const noexcept;
 
+    /** Factor by which the input masses are multiplied (1 by default) */
+    double massMultiplier() const;
+
     /* Get the Id of all elements belonging to set */
     //TODO: make a template, general function?
     std::vector<int> getMaterialsId() const;
diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index afb2b4a..75f80ad 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -798,6 +798,10 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 		prod.add(truss->mainMaterial()->bestId());
 		prod.add(truss->getAreaCrossSection());
 		prod.add(truss->getTorsionalConstant());
+		if (!is_zero(truss->getAdditionalMass())) {
+			prod.add(0.0); // C, torsional stress coefficient
+			prod.add(truss->getAdditionalMass());
+		}
 		out << prod;
 		truss->markAsWritten();
 	}
@@ -813,6 +817,9 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 			pbeam.add(0.0); // I12, not in PBAR
 		}
 		pbeam.add(beam->getTorsionalConstant());
+		if (!is_zero(beam->getAdditionalMass())) {
+			pbeam.add(beam->getAdditionalMass());
+		}
 		out << pbeam;
 		beam->markAsWritten();
 	}
@@ -823,6 +830,10 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
 		pshell.add(shell->mainMaterial()->bestId());
 		pshell.add(shell->thickness);
 		pshell.add(shell->mainMaterial()->bestId()); // MID2 for bending
+		if (!is_zero(shell->getAdditionalMass())) {
+			pshell.skip(3); // 12I/T**3, MID3, TS/T
+			pshell.add(shell->getAdditionalMass());
+		}
 		out << pshell;
 		shell->markAsWritten();
 	}
-- 
2.43.0


From 5d6f94f2f0d664852366349adf1db81ee5bfd02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:44 +0000
Subject: [PATCH 15/80] fix: Nastran writer: select the common SPCs, write
 imposed values and SPCD cards

---
 Nastran/NastranWriter.cpp | 56 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 52 insertions(+), 4 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 75f80ad..4f997e5 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -373,10 +373,32 @@ void NastranWriter::writeCells(const Model& model, ofstream& out) const
 
 void NastranWriter::writeNodes(const Model& model, ofstream& out) const
 		{
+    map<pos_t, DOFS> permanentDOFSByNodePosition; // single point constraints that belong to every analysis
+    for (const auto& constraintSet : model.constraintSets) {
+        if (constraintSet->type != ConstraintSet::Type::ALL)
+            continue;
+        for (const auto& constraint : constraintSet->getConstraintsByType(Constraint::Type::SPC)) {
+            const auto& spc = static_pointer_cast<SinglePointConstraint>(constraint);
+            for (const auto nodePosition : spc->nodePositions()) {
+                for (const DOF dof : spc->getDOFSForNode(nodePosition)) {
+                    if (not is_zero(spc->getDoubleForDOF(dof))) {
+                        handleWritingError("Permanent single point constraint with a non zero value");
+                    }
+                    permanentDOFSByNodePosition[nodePosition] += dof;
+                }
+            }
+        }
+    }
 	for (Node node : model.mesh.nodes) {
         if (node.displacementCS!= CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID)
             cerr << "Warning in GRID "<<node.id<<" CD not supported and dismissed."<<endl;
-		out << Line("GRID").add(node.id).add().add(node.x).add(node.y).add(node.z);
+        Line grid("GRID");
+        grid.add(node.id).add().add(node.x).add(node.y).add(node.z);
+        const auto& it = permanentDOFSByNodePosition.find(node.position);
+        if (it != permanentDOFSByNodePosition.end()) {
+            grid.add().add(it->second);
+        }
+		out << grid;
 	}
 }
 
@@ -419,11 +441,24 @@ void NastranWriter::writeConstraints(const Model& model, ofstream& out) const
 		const auto& spcs = constraintSet->getConstraintsByType(Constraint::Type::SPC);
         for (const auto& constraint : spcs) {
             const auto& spc = static_pointer_cast<SinglePointConstraint>(constraint);
+            if (constraintSet->type == ConstraintSet::Type::ALL) {
+                spc->markAsWritten(); // written in the GRID cards
+                continue;
+            }
             for (const auto nodePosition : spc->nodePositions()) {
                 const int nodeId = model.mesh.findNodeId(nodePosition);
-                out
-                        << Line("SPC1").add(constraintSet->bestId()).add(
-                                spc->getDOFSForNode(nodePosition)).add(nodeId);
+                DOFS blockedDOFS;
+                for (const DOF dof : spc->getDOFSForNode(nodePosition)) {
+                    const double value = spc->getDoubleForDOF(dof);
+                    if (is_zero(value)) {
+                        blockedDOFS += dof;
+                    } else {
+                        out << Line("SPC").add(constraintSet->bestId()).add(nodeId).add(DOFS(dof)).add(value);
+                    }
+                }
+                if (not blockedDOFS.empty()) {
+                    out << Line("SPC1").add(constraintSet->bestId()).add(blockedDOFS).add(nodeId);
+                }
             }
             spc->markAsWritten();
         }
@@ -762,6 +797,17 @@ void NastranWriter::writeLoadings(const Model& model, ofstream& out) const
             nodalForce->markAsWritten();
         }
 
+        for (const auto& loading : loadingSet->getLoadingsByType(Loading::Type::IMPOSED_DISPLACEMENT)) {
+            const auto& imposedDisplacement = static_pointer_cast<ImposedDisplacement>(loading);
+            for (const auto nodePosition : imposedDisplacement->nodePositions()) {
+                for (const DOF dof : imposedDisplacement->getDOFSForNode(nodePosition)) {
+                    out << Line("SPCD").add(loadingSet->bestId()).add(model.mesh.findNodeId(nodePosition)).add(
+                            DOFS(dof)).add(imposedDisplacement->getDoubleForDOF(dof));
+                }
+            }
+            imposedDisplacement->markAsWritten();
+        }
+
         for (const auto& loading : nodalForces) {
             const auto& staticPressure = dynamic_pointer_cast<StaticPressure>(loading);
             if (staticPressure == nullptr)
@@ -1008,6 +1054,8 @@ string NastranWriter::writeModel(Model& model,
 			out << "  " << typeName << "=" << loadSet->bestId() << endl;
 		}
 		for (const auto& constraintSet : analysis->getConstraintSets()) {
+			if (constraintSet->type == ConstraintSet::Type::ALL)
+				continue; // applies to every subcase without being selected
 			string typeName = constraintSet->stringByType.find(constraintSet->type)->second;
 			out << "  " << typeName << "=" << constraintSet->bestId() << endl;
 		}
-- 
2.43.0


From fbd65b203a528db230698683bced93eff5e4e6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:44 +0000
Subject: [PATCH 16/80] fix: keep every SPCD of a node when removing
 constrained imposed displacements

---
 Abstract/Model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index a830988..f248594 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -1481,7 +1481,7 @@ void Model::removeConstrainedImposed() {
             for (const auto& load : loads) {
                 const auto& impo = static_pointer_cast<ImposedDisplacement>(load);
                 for (const auto nodePosition : impo->nodePositions()) {
-                    imposedDofsByNodePosition[nodePosition] = impo->getDOFSForNode(nodePosition);
+                    imposedDofsByNodePosition[nodePosition] += impo->getDOFSForNode(nodePosition);
                 }
             }
         }
-- 
2.43.0


From f1814eb6b81c7ac18832a8add9e2c6aa27854d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:44 +0000
Subject: [PATCH 17/80] fix: scale imposed displacements once, not once per
 component

---
 Abstract/Loading.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/Abstract/Loading.cpp b/Abstract/Loading.cpp
index 580e093..13e1d38 100644
--- a/Abstract/Loading.cpp
+++ b/Abstract/Loading.cpp
@@ -271,10 +271,7 @@ double ImposedDisplacement::getDoubleForDOF(const DOF& dof) const {
 }
 
 void ImposedDisplacement::scale(const double factor) {
-    for(DOF dof : DOFS::ALL_DOFS) {
-        if (not is_equal(displacements[dof.position], Globals::UNAVAILABLE_DOUBLE))
-            displacements *= factor;
-    }
+    displacements *= factor;
 }
 
 NodalForce::NodalForce(Model& model, const std::shared_ptr<LoadSet> loadset, const VectorialValue& force,
-- 
2.43.0


From 199d127ad20bd1242bf27a2d237d5cc046a2c7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:44 +0000
Subject: [PATCH 18/80] fix: an analysis reaching a SPC through SPCADD keeps
 its constraint

---
 Abstract/Analysis.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Abstract/Analysis.cpp b/Abstract/Analysis.cpp
index 6dd8896..ce7154c 100644
--- a/Abstract/Analysis.cpp
+++ b/Abstract/Analysis.cpp
@@ -468,7 +468,15 @@ void Analysis::removeSPCNodeDofs(SinglePointConstraint& spc, const pos_t nodePos
                 continue;
             }
             for (const auto& constraintSet : otherAnalysis->getConstraintSets()) {
-                if (affectedConstraintSets.find(constraintSet) == affectedConstraintSets.end()) {
+                // the set may contain the spc directly or through the sets it combines (see parseSPCADD)
+                bool affected = false;
+                for (const auto& constraint : constraintSet->getConstraints()) {
+                    if (constraint->getReference() == spc.getReference()) {
+                        affected = true;
+                        break;
+                    }
+                }
+                if (not affected) {
                     continue;
                 }
                 otherAnalysis->add(*otherAnalysesCS);
-- 
2.43.0


From b1a5aa74e27d5094461f5b406589c5a17682a442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:44 +0000
Subject: [PATCH 19/80] fix: SPC1 THRU ranges do not create the missing grid
 points

---
 Nastran/NastranParser.cpp | 14 +++++++++++++-
 Nastran/NastranParser.h   |  3 +++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 176708d..8ad201f 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -602,6 +602,7 @@ unique_ptr<Model> NastranParser::parse(const ConfigurationParameters& configurat
     }
     tok.bulkSection();
     parseBULKSection(tok, *model);
+    addDefinedNodes(*model);
     istream.close();
 
     if (model->configuration.logLevel >= LogLevel::DEBUG) {
@@ -611,6 +612,17 @@ unique_ptr<Model> NastranParser::parse(const ConfigurationParameters& configurat
     return model;
 }
 
+void NastranParser::addDefinedNodes(Model& model) {
+    for (const auto& entry : nodeIdsByNodeContainer) {
+        for (const int nodeId : entry.second) {
+            if (model.mesh.findNodePosition(nodeId) != Node::UNAVAILABLE_NODE) {
+                entry.first->addNodeId(nodeId);
+            }
+        }
+    }
+    nodeIdsByNodeContainer.clear();
+}
+
 string NastranParser::defaultAnalysis() const {
     return ""; // instead of "101": see github #15
 }
@@ -3520,7 +3532,7 @@ void NastranParser::parseSPC1(NastranTokenizer& tok, Model& model) {
     //shared_ptr<NodeGroup> spcNodeGroup = model.mesh.findOrCreateNodeGroup(name,NodeGroup::NO_ORIGINAL_ID,"SPC1");
 
     // Parsing Nodes
-    spc->addNodeIds(tok.nextInts());
+    nodeIdsByNodeContainer.push_back({spc, tok.nextInts()});
 
     // Adding the constraint to the model
     spc->setInputContext(tok.getInputContext());
diff --git a/Nastran/NastranParser.h b/Nastran/NastranParser.h
index 7d7e76e..0c5ed33 100644
--- a/Nastran/NastranParser.h
+++ b/Nastran/NastranParser.h
@@ -69,6 +69,9 @@ private:
         int seid;
     };
     GrdSet grdSet;
+    /** Ranges of nodes may hold ids of undefined nodes, so they can be resolved only once all the nodes are known. */
+    std::vector<std::pair<std::shared_ptr<NodeContainer>, std::list<int>>> nodeIdsByNodeContainer;
+    void addDefinedNodes(Model& model);
 
     std::unordered_map<std::string, Reference<ElementSet>> directMatrixByName;
     static const std::unordered_map<std::string, NastranAnalysis> ANALYSIS_BY_LABEL;
-- 
2.43.0


From 09b5bd0440807b531ef08a3c83b652481d779706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:44 +0000
Subject: [PATCH 20/80] fix: THRU BY ranges step from the second value

---
 Nastran/NastranTokenizer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index 71eb511..7c19ce4 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -481,9 +481,12 @@ list<int> NastranTokenizer::nextInts() {
                 skip(1);
                 step = nextInt();
             }
-            for(int i=start+1;i<=endint;i+=step) {
+            for(int i=start+step;i<=endint;i+=step) {
                 result.push_back(i);
             }
+            if (result.back() != endint) {
+                result.push_back(endint); // the last id belongs to the list even if the increment does not lead to it
+            }
         }
 	}
 	return result;
-- 
2.43.0


From 2ea2b33c8a855217ae36dd26a4d126c56b461647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:39 +0000
Subject: [PATCH 21/80] fix: Nastran writer: RBE2 ids, RBE3 reference node, MPC
 set id and layout

---
 Nastran/NastranWriter.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 4f997e5..9d1daf3 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -494,7 +494,7 @@ void NastranWriter::writeConstraints(const Model& model, ofstream& out) const
                 out << rbar;
             } else {
                 Line rbe2("RBE2");
-                rbe2.add(constraintSet->bestId());
+                rbe2.add(quasiRigid->bestId());
                 const int masterId = model.mesh.findNodeId(quasiRigid->getMaster());
                 rbe2.add(masterId);
                 rbe2.add(quasiRigid->getDOFS());
@@ -514,7 +514,7 @@ void NastranWriter::writeConstraints(const Model& model, ofstream& out) const
             Line rbe3("RBE3");
             rbe3.add(rbe3Constraint->bestId());
             rbe3.add();
-            const int masterPosition = model.mesh.findNodeId(rbe3Constraint->getMaster());
+            const auto masterPosition = rbe3Constraint->getMaster();
             rbe3.add(model.mesh.findNodeId(masterPosition));
             rbe3.add(rbe3Constraint->getDOFSForNode(masterPosition));
             for (const auto slavePosition : rbe3Constraint->getSlaves()) {
@@ -532,7 +532,7 @@ void NastranWriter::writeConstraints(const Model& model, ofstream& out) const
             const auto& lmpc =
                     static_pointer_cast<LinearMultiplePointConstraint>(constraint);
             Line mpc("MPC");
-            mpc.add(constraintSet->getId());
+            mpc.add(constraintSet->bestId());
             int fieldNum = 2;
 			for (const auto nodePosition : lmpc->nodePositions()) {
 			    DOFCoefs dofcoef = lmpc->getDoFCoefsForNode(nodePosition);
@@ -541,6 +541,7 @@ void NastranWriter::writeConstraints(const Model& model, ofstream& out) const
                         if (fieldNum % 8 == 0) {
                             mpc.add();
                             mpc.add();
+                            fieldNum += 2;
                         }
 
                         mpc.add(model.mesh.findNodeId(nodePosition));
-- 
2.43.0


From 5e8b9ccc5d3810aea672b0646712628e1dcc02b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:39 +0000
Subject: [PATCH 22/80] fix: keep RBE2 with some components as RBE2 in Nastran
 output

---
 Abstract/ConfigurationParameters.cpp | 1 +
 Abstract/ConfigurationParameters.h   | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/Abstract/ConfigurationParameters.cpp b/Abstract/ConfigurationParameters.cpp
index 83ab3c1..ec79ca5 100644
--- a/Abstract/ConfigurationParameters.cpp
+++ b/Abstract/ConfigurationParameters.cpp
@@ -82,6 +82,7 @@ ModelConfiguration ConfigurationParameters::getModelConfiguration() const {
         configuration.splitElementsByCellOffsets = true;
     } else if (this->outputSolver.getSolverName() == SolverName::NASTRAN) {
         // default should be always false
+        configuration.emulateQuasiRigids = false; // RBE2 cards hold any set of components
         configuration.autoDetectAnalysis = true;
         configuration.replaceCombinedLoadSets = true; // tentative workaround for problem in LOAD BULK detection
     } else {
diff --git a/Abstract/ConfigurationParameters.h b/Abstract/ConfigurationParameters.h
index 10e22ac..29b4097 100644
--- a/Abstract/ConfigurationParameters.h
+++ b/Abstract/ConfigurationParameters.h
@@ -79,6 +79,8 @@ public:
      */
     bool addSkinToModel = false;
     bool emulateLocalDisplacement = false;
+    /** If true, rigid constraints that are not completely rigid are replaced by multi point constraints */
+    bool emulateQuasiRigids = true;
     bool displayMasterSlaveConstraint = false;
     bool emulateAdditionalMass = false;
     bool replaceCombinedLoadSets = false;
-- 
2.43.0


From 156a70c8959a8a9ab87133ea34bb3751cb1663d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:57 +0000
Subject: [PATCH 23/80] fix: RBAR and RBAR1 are rigid bodies around their
 independent node

---
 Nastran/NastranParser.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 8ad201f..e5a26b2 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -3131,13 +3131,15 @@ void NastranParser::parseRBAR(NastranTokenizer& tok, Model& model) {
     }
     if (cna != 0) {
         const auto& qrc = make_shared<QuasiRigidConstraint>(model, DOFS::nastranCodeToDOFS(cna), ga, original_id);
+        qrc->addRotations = true;
         qrc->addSlave(gb);
         qrc->setInputContext(tok.getInputContext());
         model.add(qrc);
         model.addConstraintIntoConstraintSet(*qrc, *model.commonConstraintSet);
     } else if (cnb != 0) {
-        const auto& qrc = make_shared<QuasiRigidConstraint>(model, DOFS::nastranCodeToDOFS(cnb), ga, original_id);
-        qrc->addSlave(gb);
+        const auto& qrc = make_shared<QuasiRigidConstraint>(model, DOFS::nastranCodeToDOFS(cnb), gb, original_id);
+        qrc->addRotations = true;
+        qrc->addSlave(ga);
         qrc->setInputContext(tok.getInputContext());
         model.add(qrc);
         model.addConstraintIntoConstraintSet(*qrc, *model.commonConstraintSet);
@@ -3157,10 +3159,11 @@ void NastranParser::parseRBAR1(NastranTokenizer& tok, Model& model) {
     int original_id=tok.nextInt();
     int ga = tok.nextInt();
     int gb = tok.nextInt();
-    int cna = tok.nextInt(true, 0);
+    const int cb = tok.nextInt(true, 123456);
 
-    const auto& qrc = make_shared<QuasiRigidConstraint>(model, DOFS::nastranCodeToDOFS(cna), MasterSlaveConstraint::UNAVAILABLE_MASTER, original_id);
-    qrc->addSlave(ga);
+    // All the components of GA are independent, CB are the dependent components of GB
+    const auto& qrc = make_shared<QuasiRigidConstraint>(model, DOFS::nastranCodeToDOFS(cb), ga, original_id);
+    qrc->addRotations = true;
     qrc->addSlave(gb);
     qrc->setInputContext(tok.getInputContext());
     model.add(qrc);
-- 
2.43.0


From de84f3e1de151c35c2bf8c8dfa507f11d3e9dce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:57 +0000
Subject: [PATCH 24/80] fix: build the relations of a constraint set once for
 all its analyses

---
 Abstract/Element.cpp    |  7 ++++++-
 Abstract/Element.h      |  3 ++-
 Abstract/Model.cpp      | 16 ++++++++++++++--
 Systus/SystusWriter.cpp |  6 +++---
 4 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/Abstract/Element.cpp b/Abstract/Element.cpp
index 8f7d75d..421ccf9 100644
--- a/Abstract/Element.cpp
+++ b/Abstract/Element.cpp
@@ -1208,7 +1208,12 @@ unique_ptr<ElementSet> Rbe3::clone() const {
 
 Lmpc::Lmpc(Model& model, int analysisId, int original_id) :
                 RigidSet(model, ElementSet::Type::LMPC, Globals::UNAVAILABLE_INT, original_id),
-analysisId(analysisId) {
+analysisIds{analysisId} {
+}
+
+bool Lmpc::isUsedBy(const vector<int>& otherAnalysisIds) const noexcept {
+    return any_of(otherAnalysisIds.begin(), otherAnalysisIds.end(),
+            [this](int id) {return this->analysisIds.find(id) != this->analysisIds.end();});
 }
 
 unique_ptr<ElementSet> Lmpc::clone() const {
diff --git a/Abstract/Element.h b/Abstract/Element.h
index ecd3cf4..1d46d5a 100644
--- a/Abstract/Element.h
+++ b/Abstract/Element.h
@@ -635,7 +635,8 @@ class Lmpc: public RigidSet {
     dof_int dofcount = 0;
 public:
     Lmpc(Model&, int analysisId, int original_id = NO_ORIGINAL_ID);
-    const int analysisId;
+    std::set<int> analysisIds; /**< The analyses these relations apply to **/
+    bool isUsedBy(const std::vector<int>& otherAnalysisIds) const noexcept;
     static constexpr dof_int LMPCCELL_DOFNUM = 6;
     std::vector<std::vector<DOFCoefs>> dofCoefsByDof;
     std::unique_ptr<ElementSet> clone() const override;
diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index f248594..5a47699 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -1680,10 +1680,21 @@ void Model::makeCellsFromDirectMatrices() {
 void Model::makeCellsFromLMPC() {
 
     shared_ptr<Material> materialLMPC = nullptr;
+    map<int, vector<shared_ptr<Lmpc>>> lmpcsByConstraintSetId;
 
     for (const auto& analysis : this->analyses) {
         for (const auto& constraintSet : analysis->getConstraintSets()) {
 
+            // The relations of a constraint set are built once, whatever the number of analyses using it
+            const auto& builtLmpcs = lmpcsByConstraintSetId.find(constraintSet->getId());
+            if (builtLmpcs != lmpcsByConstraintSetId.end()) {
+                for (const auto& lmpc : builtLmpcs->second) {
+                    lmpc->analysisIds.insert(analysis->getId());
+                }
+                continue;
+            }
+            auto& lmpcSets = lmpcsByConstraintSetId[constraintSet->getId()];
+
             // Group lmpcs by nodePositions
             map<set<pos_t>, vector<shared_ptr<LinearMultiplePointConstraint>>> lmpcsByNodepositions;
             for (const auto& constraint : constraintSet->getConstraintsByType(Constraint::Type::LMPC)) {
@@ -1734,10 +1745,11 @@ void Model::makeCellsFromLMPC() {
                         elementsetLMPC = make_shared<Lmpc>(*this, analysis->getId());
                         elementsetLMPC->assignMaterial(materialLMPC);
                         elmpcByDOFCoefs[cellDofCoefsSlice] = elementsetLMPC;
-                        for (const auto& lmpcDofCoefs : cellDofCoefs) {
+                        for (const auto& lmpcDofCoefs : cellDofCoefsSlice) {
                             elementsetLMPC->appendDofCoefs(lmpcDofCoefs);
                         }
                         this->add(elementsetLMPC);
+                        lmpcSets.push_back(elementsetLMPC);
                         if (configuration.logLevel >= LogLevel::DEBUG){
                             cout << "Created a new elementSet " << *elementsetLMPC << " for cell " << cellPosition << " for lmpcs " << cellDofCoefs << " ." << endl;
                         }
@@ -2275,7 +2287,7 @@ void Model::finish() {
 
     for (const auto& constraint : constraints.filter(Constraint::Type::QUASI_RIGID)) {
         const auto& rigid = static_pointer_cast<QuasiRigidConstraint>(constraint);
-        if (this->configuration.convertCompletelyRigidsIntoMPCs or not rigid->isCompletelyRigid())
+        if (this->configuration.convertCompletelyRigidsIntoMPCs or (this->configuration.emulateQuasiRigids and not rigid->isCompletelyRigid()))
             rigid->emulateWithMPCs();
     }
 
diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index 5cb70f4..607e3a3 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -1870,7 +1870,7 @@ void SystusWriter::fillTables(const SystusModel& systusModel, const int idSubcas
         // If the LMPC is not relevant to the current subcase, we skip it
         const auto& lmpc = static_pointer_cast<Lmpc>(elementSet);
         const auto& analysisOfSubcase =  systusSubcases[idSubcase];
-        if (std::find(analysisOfSubcase.begin(), analysisOfSubcase.end(), lmpc->analysisId) == analysisOfSubcase.end()){
+        if (not lmpc->isUsedBy(analysisOfSubcase)){
             continue;
         }
         // The Table for Lmpc is simply the list of coef by dof by nodes
@@ -2090,7 +2090,7 @@ void SystusWriter::fillMaterial(const SystusModel& systusModel, const int idSubc
                         // If the LMPC is not relevant to the current subcase, we skip it
                         const auto& lmpc = static_pointer_cast<Lmpc>(elementSet);
                         const auto& analysisOfSubcase =  systusSubcases[idSubcase];
-                        if (std::find(analysisOfSubcase.begin(), analysisOfSubcase.end(), lmpc->analysisId) == analysisOfSubcase.end()){
+                        if (not lmpc->isUsedBy(analysisOfSubcase)){
                             continue;
                         }
                         auto it = tableByElementSet.find(elementSet->getId());
@@ -2814,7 +2814,7 @@ void SystusWriter::writeElements(const SystusModel& systusModel, const int idSub
             // If the LMPC is not relevant to the current subcase, we skip it
             const auto& lmpc = static_pointer_cast<Lmpc>(elementSet);
             const auto& analysisOfSubcase =  systusSubcases[idSubcase];
-            if (std::find(analysisOfSubcase.begin(), analysisOfSubcase.end(), lmpc->analysisId) == analysisOfSubcase.end()){
+            if (not lmpc->isUsedBy(analysisOfSubcase)){
                 continue;
             }
             // Else, it'a a 19XX element
-- 
2.43.0


From d541a8981ac8559e4f8e9b9a6d08296bf3f1078e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:23 +0000
Subject: [PATCH 25/80] fix: accept an SPCADD no subcase selects

---
 Nastran/NastranParser.cpp | 40 +++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index e5a26b2..91609a5 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -3547,29 +3547,29 @@ void NastranParser::parseSPC1(NastranTokenizer& tok, Model& model) {
 
 void NastranParser::parseSPCADD(NastranTokenizer& tok, Model& model) {
     int set_id = tok.nextInt();
-    // retrieve the ConstraintSet that was created in the executive section
+    // retrieve the ConstraintSet created in the executive section, if any subcase selects it
     shared_ptr<ConstraintSet> constraintSet_ptr = model.find(
             Reference<ConstraintSet>(ConstraintSet::Type::SPC, set_id));
 
-    if (!constraintSet_ptr)
-        handleParsingError("ConstraintSet "+ to_string(set_id)+ " does not exist in Executive section",
-                tok, model);
-    else {
-        while (tok.isNextInt()) {
-            int constraintSet_id = tok.nextInt();
-            // Need to add referenced SPCs in the same constraintset, otherwise it will not be found
-            // Example: case of SPC in local coordinate system later replaced by MPCs during finish()
-            // Possible alternative: make sure that these SPCs are found also with methods like
-            // Model.getConstraintsByConstraintSet() etc. which seems not to be the case now
-            const Reference<ConstraintSet>& constraintSetReference{ConstraintSet::Type::SPC, constraintSet_id};
-            auto constraintSet = model.constraintSets.find(constraintSetReference);
-            if (constraintSet == nullptr) {
-                constraintSet = make_shared<ConstraintSet>(model, ConstraintSet::Type::SPC, constraintSet_id);
-                constraintSet->setInputContext(tok.getInputContext());
-                model.add(constraintSet);
-            }
-            constraintSet_ptr->add(constraintSetReference);
-        }
+    if (constraintSet_ptr == nullptr) {
+        constraintSet_ptr = make_shared<ConstraintSet>(model, ConstraintSet::Type::SPC, set_id);
+        constraintSet_ptr->setInputContext(tok.getInputContext());
+        model.add(constraintSet_ptr);
+    }
+    while (tok.isNextInt()) {
+        int constraintSet_id = tok.nextInt();
+        // Need to add referenced SPCs in the same constraintset, otherwise it will not be found
+        // Example: case of SPC in local coordinate system later replaced by MPCs during finish()
+        // Possible alternative: make sure that these SPCs are found also with methods like
+        // Model.getConstraintsByConstraintSet() etc. which seems not to be the case now
+        const Reference<ConstraintSet>& constraintSetReference{ConstraintSet::Type::SPC, constraintSet_id};
+        auto constraintSet = model.constraintSets.find(constraintSetReference);
+        if (constraintSet == nullptr) {
+            constraintSet = make_shared<ConstraintSet>(model, ConstraintSet::Type::SPC, constraintSet_id);
+            constraintSet->setInputContext(tok.getInputContext());
+            model.add(constraintSet);
+        }
+        constraintSet_ptr->add(constraintSetReference);
     }
 }
 
-- 
2.43.0


From 5e72fed1918c7909f5245999a1eccfdb085a7ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:24 +0000
Subject: [PATCH 26/80] fix: FORCE1 is not ineffective

---
 Abstract/Loading.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Loading.cpp b/Abstract/Loading.cpp
index 13e1d38..38c8eea 100644
--- a/Abstract/Loading.cpp
+++ b/Abstract/Loading.cpp
@@ -372,7 +372,7 @@ void NodalForceTwoNodes::scale(const double factor) {
 }
 
 bool NodalForceTwoNodes::ineffective() const {
-	return is_zero(magnitude) or force.iszero();
+	return is_zero(magnitude);
 }
 
 NodalForceFourNodes::NodalForceFourNodes(Model& model, const std::shared_ptr<LoadSet> loadset, const int node1_id,
-- 
2.43.0


From 2f3603b7c679563b48c6b59ad1ce8150802ed874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:24 +0000
Subject: [PATCH 27/80] fix: blank components of a MOMENT are zero

---
 Nastran/NastranParser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 91609a5..6c68e75 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2039,10 +2039,10 @@ void NastranParser::parseMOMENT(NastranTokenizer& tok, Model& model) {
     int loadset_id = tok.nextInt();
     int node_id = tok.nextInt();
     int csid = tok.nextInt(true, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
-    double scale = tok.nextDouble(true);
-    double frx = tok.nextDouble(true) * scale;
-    double fry = tok.nextDouble(true) * scale;
-    double frz = tok.nextDouble(true) * scale;
+    double scale = tok.nextDouble(true, 0.0);
+    double frx = tok.nextDouble(true, 0.0) * scale;
+    double fry = tok.nextDouble(true, 0.0) * scale;
+    double frz = tok.nextDouble(true, 0.0) * scale;
 
     const auto& loadSet = model.getOrCreateLoadSet(loadset_id, LoadSet::Type::LOAD);
     const auto& moment1 = make_shared<NodalForce>(model, loadSet,
-- 
2.43.0


From 8a7fba0c7bdeb6f8ce580f17630f7ff4957f2ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:24 +0000
Subject: [PATCH 28/80] fix: write nodal moments in Nastran output

---
 Nastran/NastranWriter.cpp | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 9d1daf3..a7dfa1f 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -781,19 +781,30 @@ void NastranWriter::writeLoadings(const Model& model, ofstream& out) const
 
             const auto& nodalForce = static_pointer_cast<NodalForce>(loading);
             for (const auto nodePosition : nodalForce->getNodePositionsIncludingGroups()) {
-                Line force("FORCE");
-                force.add(loadingSet->bestId());
-                force.add(model.mesh.findNodeId(nodePosition));
-                force.add(0);
                 const auto& forceVector = nodalForce->getForceInGlobalCS(nodePosition);
-                force.add(1.0);
-                force.add(forceVector.x());
-                force.add(forceVector.y());
-                force.add(forceVector.z());
-                if (!nodalForce->getMomentInGlobalCS(nodePosition).iszero()) {
-                    handleWritingError("Unimplemented moment in FORCE");
+                const auto& momentVector = nodalForce->getMomentInGlobalCS(nodePosition);
+                if (!forceVector.iszero() or momentVector.iszero()) {
+                    Line force("FORCE");
+                    force.add(loadingSet->bestId());
+                    force.add(model.mesh.findNodeId(nodePosition));
+                    force.add(0);
+                    force.add(1.0);
+                    force.add(forceVector.x());
+                    force.add(forceVector.y());
+                    force.add(forceVector.z());
+                    out << force;
+                }
+                if (!momentVector.iszero()) {
+                    Line moment("MOMENT");
+                    moment.add(loadingSet->bestId());
+                    moment.add(model.mesh.findNodeId(nodePosition));
+                    moment.add(0);
+                    moment.add(1.0);
+                    moment.add(momentVector.x());
+                    moment.add(momentVector.y());
+                    moment.add(momentVector.z());
+                    out << moment;
                 }
-                out << force;
             }
             nodalForce->markAsWritten();
         }
-- 
2.43.0


From 8aed17d3ea2a9c5dcdc3462aa80f3febd9417537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:24 +0000
Subject: [PATCH 29/80] fix: directions of a cylindrical frame given in another
 frame

---
 Abstract/CoordinateSystem.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Abstract/CoordinateSystem.cpp b/Abstract/CoordinateSystem.cpp
index 2d52e18..280748e 100644
--- a/Abstract/CoordinateSystem.cpp
+++ b/Abstract/CoordinateSystem.cpp
@@ -208,8 +208,16 @@ CylindricalCoordinateSystem::CylindricalCoordinateSystem(const Mesh& mesh,
 // TODO : LD What's this ? Should this method be renamed moveOrigin ?
 void CylindricalCoordinateSystem::updateLocalBase(const VectorialValue& point) {
     VectorialValue localOrigin = point - origin;
+    if (rcs != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM) {
+        // origin and axes are expressed in the reference coordinate system
+        const auto& coordSystem = mesh.findCoordinateSystem(rcs);
+        const VectorialValue& fromOrigin = point - coordSystem->positionToGlobal(origin);
+        localOrigin = VectorialValue(fromOrigin.dot(coordSystem->vectorToGlobal(VectorialValue(1, 0, 0))),
+                fromOrigin.dot(coordSystem->vectorToGlobal(VectorialValue(0, 1, 0))),
+                fromOrigin.dot(coordSystem->vectorToGlobal(VectorialValue(0, 0, 1))));
+    }
     if (!localOrigin.iszero()) {
-        utheta = ez.cross(point - origin).normalized();
+        utheta = ez.cross(localOrigin).normalized();
         ur = utheta.cross(ez);
     }
 }
-- 
2.43.0


From f2a4256af99370d19d40c24000a2e40eba79fc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:27 +0000
Subject: [PATCH 30/80] fix: faces of 20-node hexahedra had a wrong mid-side
 node and a wrong orientation

---
 Abstract/MeshComponents.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Abstract/MeshComponents.cpp b/Abstract/MeshComponents.cpp
index 4d8fcbf..361252d 100644
--- a/Abstract/MeshComponents.cpp
+++ b/Abstract/MeshComponents.cpp
@@ -382,8 +382,8 @@ unordered_map<CellType::Code, vector<vector<int>>, EnumClassHash > Cell::init_fa
     };
     vector<vector<int> > hexa20list = { //
         {1,2,3,4,9,10,11,12}, //
-        {5,8,7,6,16,15,14,16}, //
-        {1,2,6,5,9,18,13,17}, //
+        {5,8,7,6,16,15,14,13}, //
+        {1,5,6,2,17,13,18,9}, //
         {2,6,7,3,18,14,19,10}, //
         {3,7,8,4,19,15,20,11}, //
         {1,4,8,5,12,20,16,17} //
-- 
2.43.0


From dd82d616147642840e534b6d71c86624fb909d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:27 +0000
Subject: [PATCH 31/80] fix: forces per area on shells are written with
 FORCE_COQUE in Code_Aster

---
 Aster/AsterWriter.cpp | 70 +++++++++++++++++++++++++++++--------------
 Aster/AsterWriter.h   |  2 ++
 2 files changed, 49 insertions(+), 23 deletions(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index ee03f05..9a4614d 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -2051,7 +2051,14 @@ void AsterWriter::writePression(const LoadSet& loadSet) {
 
 void AsterWriter::writeForceCoque(const LoadSet& loadSet) {
 	const auto& pressionFaces = loadSet.getLoadingsByType(Loading::Type::NORMAL_PRESSION_SHELL);
-	if (not pressionFaces.empty()) {
+	vector<shared_ptr<ForceSurface>> shellForces;
+	for (const auto& loading : loadSet.getLoadingsByType(Loading::Type::FORCE_SURFACE)) {
+		const auto& forceSurface = static_pointer_cast<ForceSurface>(loading);
+		if (not isForceFace(forceSurface)) {
+			shellForces.push_back(forceSurface);
+		}
+	}
+	if (not pressionFaces.empty() or not shellForces.empty()) {
 		comm_file_ofs << "           FORCE_COQUE=(" << endl;
 		for (const auto& pressionFace : pressionFaces) {
 			const auto& normalPressionFace = static_pointer_cast<NormalPressionShell>(pressionFace);
@@ -2063,6 +2070,9 @@ void AsterWriter::writeForceCoque(const LoadSet& loadSet) {
 			comm_file_ofs << "                         )," << endl;
 			normalPressionFace->markAsWritten();
 		}
+		for (const auto& forceSurface : shellForces) {
+			writeForceSurface(forceSurface);
+		}
 		comm_file_ofs << "            )," << endl;
 	}
 }
@@ -2120,30 +2130,44 @@ void AsterWriter::writeForceLine(const LoadSet& loadset) {
 	}
 
 }
+bool AsterWriter::isForceFace(const shared_ptr<ForceSurface>& forceSurface) const {
+	// FORCE_FACE is only available on the faces of solids, those are identified by two nodes
+	return dynamic_pointer_cast<ForceSurfaceTwoNodes>(forceSurface) != nullptr;
+}
+
+void AsterWriter::writeForceSurface(const shared_ptr<ForceSurface>& forceSurface) {
+	VectorialValue force = forceSurface->getForce();
+	VectorialValue moment = forceSurface->getMoment();
+	comm_file_ofs << "                       _F(";
+	writeCellContainer(static_pointer_cast<CellContainer>(forceSurface));
+	if (!is_equal(force.x(), 0))
+		comm_file_ofs << "FX=" << force.x() << ",";
+	if (!is_equal(force.y(),0))
+		comm_file_ofs << "FY=" << force.y() << ",";
+	if (!is_equal(force.z(),0))
+		comm_file_ofs << "FZ=" << force.z() << ",";
+	if (!is_equal(moment.x(), 0))
+		comm_file_ofs << "MX=" << moment.x() << ",";
+	if (!is_equal(moment.y(), 0))
+		comm_file_ofs << "MY=" << moment.y() << ",";
+	if (!is_equal(moment.z(), 0))
+		comm_file_ofs << "MZ=" << moment.z() << ",";
+	comm_file_ofs << ")," << endl;
+	forceSurface->markAsWritten();
+}
+
 void AsterWriter::writeForceSurface(const LoadSet& loadSet) {
-	const auto& forceSurfaces = loadSet.getLoadingsByType(Loading::Type::FORCE_SURFACE);
-	if (not forceSurfaces.empty()) {
+	vector<shared_ptr<ForceSurface>> faceForces;
+	for (const auto& loading : loadSet.getLoadingsByType(Loading::Type::FORCE_SURFACE)) {
+		const auto& forceSurface = static_pointer_cast<ForceSurface>(loading);
+		if (isForceFace(forceSurface)) {
+			faceForces.push_back(forceSurface);
+		}
+	}
+	if (not faceForces.empty()) {
 		comm_file_ofs << "           FORCE_FACE=(" << endl;
-		for (const auto& loading : forceSurfaces) {
-			const auto& forceSurface = static_pointer_cast<ForceSurface>(loading);
-			VectorialValue force = forceSurface->getForce();
-			VectorialValue moment = forceSurface->getMoment();
-			comm_file_ofs << "                       _F(";
-			writeCellContainer(static_pointer_cast<CellContainer>(forceSurface));
-			if (!is_equal(force.x(), 0))
-				comm_file_ofs << "FX=" << force.x() << ",";
-			if (!is_equal(force.y(),0))
-				comm_file_ofs << "FY=" << force.y() << ",";
-			if (!is_equal(force.z(),0))
-				comm_file_ofs << "FZ=" << force.z() << ",";
-			if (!is_equal(moment.x(), 0))
-				comm_file_ofs << "MX=" << moment.x() << ",";
-			if (!is_equal(moment.y(), 0))
-				comm_file_ofs << "MY=" << moment.y() << ",";
-			if (!is_equal(moment.z(), 0))
-				comm_file_ofs << "MZ=" << moment.z() << ",";
-			comm_file_ofs << ")," << endl;
-			forceSurface->markAsWritten();
+		for (const auto& forceSurface : faceForces) {
+			writeForceSurface(forceSurface);
 		}
 		comm_file_ofs << "            )," << endl;
 	}
diff --git a/Aster/AsterWriter.h b/Aster/AsterWriter.h
index b1231ff..cda119c 100644
--- a/Aster/AsterWriter.h
+++ b/Aster/AsterWriter.h
@@ -60,6 +60,8 @@ class AsterWriter final : public Writer {
 	void writePression(const LoadSet&);
 	void writeForceCoque(const LoadSet&);
 	void writeForceLine(const LoadSet&);
+	bool isForceFace(const std::shared_ptr<ForceSurface>&) const;
+	void writeForceSurface(const std::shared_ptr<ForceSurface>&);
 	void writeForceSurface(const LoadSet&);
 	void writeNodeContainer(const std::shared_ptr<NodeContainer>& nodeContainer);
 	void writeCellContainer(const std::shared_ptr<CellContainer>& cellContainer);
-- 
2.43.0


From ee83c3e133b651c411f84c8f9d3aeede8f2f12d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:27 +0000
Subject: [PATCH 32/80] fix: scaling a copied bar load does not scale the
 original

---
 Abstract/Loading.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Abstract/Loading.cpp b/Abstract/Loading.cpp
index 38c8eea..eb3bf96 100644
--- a/Abstract/Loading.cpp
+++ b/Abstract/Loading.cpp
@@ -687,7 +687,16 @@ DOFS ForceLine::getDOFSForNode(const pos_t nodePosition) const {
 }
 
 unique_ptr<Loading> ForceLine::clone() const {
-	return make_unique<ForceLine>(*this);
+	auto newForceLine = make_unique<ForceLine>(*this);
+	// the function is part of the loading: scaling the clone should not scale the original
+	const auto& functionTable = dynamic_pointer_cast<FunctionTable>(force);
+	if (functionTable != nullptr) {
+		const auto& newFunctionTable = make_shared<FunctionTable>(*functionTable);
+		newFunctionTable->resetId();
+		model.add(newFunctionTable);
+		newForceLine->force = newFunctionTable;
+	}
+	return newForceLine;
 }
 
 void ForceLine::scale(const double factor) {
-- 
2.43.0


From 16798b01d47f5e2b8242311e836262b9367293fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:27 +0000
Subject: [PATCH 33/80] fix: the vector of PLOAD4 only gives a direction

---
 Nastran/NastranParser.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 6c68e75..5b3c604 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2937,6 +2937,9 @@ void NastranParser::parsePLOAD4(NastranTokenizer& tok, Model& model) {
     const auto& loadSet = model.getOrCreateLoadSet(loadset_id, LoadSet::Type::LOAD);
     bool has_direction = not (is_equal(n1, 0.0) and is_equal(n2, 0.0) and is_equal(n3, 0.0)
                               and cid == CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
+    // N1, N2, N3 only give the direction: the load per unit area is p1
+    const VectorialValue direction(n1, n2, n3);
+    const VectorialValue force = direction.iszero() ? direction : direction.normalized().scaled(p1);
     if (not has_direction and g1 == Globals::UNAVAILABLE_INT) {
         const auto& normalPressionFace = make_shared<NormalPressionFace>(model, loadSet, p1);
         for(int cellId = eid1; cellId <= eid2; cellId++) {
@@ -2965,10 +2968,10 @@ void NastranParser::parsePLOAD4(NastranTokenizer& tok, Model& model) {
         shared_ptr<ForceSurfaceTwoNodes> forceSurfaceTwoNodes = nullptr;
         if (g3_or_4 != Globals::UNAVAILABLE_INT) {
             forceSurfaceTwoNodes = make_shared<ForceSurfaceTwoNodes>(model, loadSet, g1, g3_or_4,
-			VectorialValue(n1 * p1, n2 * p1, n3 * p1), VectorialValue(0, 0, 0));
+			force, VectorialValue(0, 0, 0));
         } else {
             forceSurfaceTwoNodes = make_shared<ForceSurfaceTwoNodes>(model, loadSet, g1,
-			VectorialValue(n1 * p1, n2 * p1, n3 * p1), VectorialValue(0, 0, 0));
+			force, VectorialValue(0, 0, 0));
         }
         for(int cellId = eid1; cellId <= eid2; cellId++) {
             forceSurfaceTwoNodes->addCellId(cellId);
@@ -2977,7 +2980,7 @@ void NastranParser::parsePLOAD4(NastranTokenizer& tok, Model& model) {
         forceSurfaceTwoNodes->setInputContext(tok.getInputContext());
         model.add(forceSurfaceTwoNodes);
     } else {
-        const auto& forceSurface = make_shared<ForceSurface>(model, loadSet, VectorialValue(n1 * p1, n2 * p1, n3 * p1),
+        const auto& forceSurface = make_shared<ForceSurface>(model, loadSet, force,
                 VectorialValue(0.0, 0.0, 0.0));
         for(int cellId = eid1; cellId <= eid2; cellId++) {
             forceSurface->addCellId(cellId);
-- 
2.43.0


From ab2be319826f5c7d103a54e8e7352dc897bc46ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:27 +0000
Subject: [PATCH 34/80] fix: loads and sets may refer to elements defined after
 them

---
 Nastran/NastranParser.cpp | 42 ++++++++++++++++++++++++---------------
 Nastran/NastranParser.h   |  7 +++++++
 2 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 5b3c604..f8a3977 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -603,6 +603,7 @@ unique_ptr<Model> NastranParser::parse(const ConfigurationParameters& configurat
     tok.bulkSection();
     parseBULKSection(tok, *model);
     addDefinedNodes(*model);
+    addDefinedCells(*model);
     istream.close();
 
     if (model->configuration.logLevel >= LogLevel::DEBUG) {
@@ -623,6 +624,19 @@ void NastranParser::addDefinedNodes(Model& model) {
     nodeIdsByNodeContainer.clear();
 }
 
+void NastranParser::addDefinedCells(Model& model) {
+    for (const auto& entry : cellIdsByReceiver) {
+        for (const int cellId : entry.second) {
+            if (model.mesh.findCellPosition(cellId) != Cell::UNAVAILABLE_CELL) {
+                entry.first(cellId);
+            } else {
+                cerr << "Warning: element " << cellId << " is not defined: reference dismissed." << endl;
+            }
+        }
+    }
+    cellIdsByReceiver.clear();
+}
+
 string NastranParser::defaultAnalysis() const {
     return ""; // instead of "101": see github #15
 }
@@ -1065,7 +1079,7 @@ void NastranParser::parseBSURF(NastranTokenizer& tok, Model& model) {
     int id = tok.nextInt();
     string gname = "BSURF_" + to_string(id);
     auto gsurf = model.mesh.createCellGroup(gname, CellGroup::NO_ORIGINAL_ID, "BSURF");
-    gsurf->addCellIds(tok.nextInts());
+    addCellIdsLater(gsurf, tok.nextInts());
     const auto& surface = make_shared<BoundarySurface>(model, id);
     surface->add(*gsurf);
     surface->setInputContext(tok.getInputContext());
@@ -2870,7 +2884,7 @@ void NastranParser::parsePLOAD1(NastranTokenizer& tok, Model& model) {
     model.add(force);
     const auto& loadSet = model.getOrCreateLoadSet(loadset_id, LoadSet::Type::LOAD);
     const auto& forceLine = make_shared<ForceLine>(model, loadSet, force, dof);
-    forceLine->addCellId(eid);
+    addCellIdsLater(forceLine, {eid});
     forceLine->setInputContext(tok.getInputContext());
     model.add(forceLine);
 }
@@ -2883,7 +2897,7 @@ void NastranParser::parsePLOAD2(NastranTokenizer& tok, Model& model) {
     // The direction of the pressure is computed according to the right-hand rule
     // using the grid point sequence specified on the element entry.
     const auto& normalPressionFace = make_shared<NormalPressionShell>(model, loadSet, p);
-    normalPressionFace->addCellIds(tok.nextInts());
+    addCellIdsLater(normalPressionFace, tok.nextInts());
     normalPressionFace->setInputContext(tok.getInputContext());
     model.add(normalPressionFace);
 }
@@ -2934,6 +2948,10 @@ void NastranParser::parsePLOAD4(NastranTokenizer& tok, Model& model) {
         handleParsingWarning("LDIR field not supported: default (NORM) assumed.", tok, model);
     }
 
+    list<int> cellIds;
+    for (int cellId = eid1; cellId <= eid2; cellId++) {
+        cellIds.push_back(cellId);
+    }
     const auto& loadSet = model.getOrCreateLoadSet(loadset_id, LoadSet::Type::LOAD);
     bool has_direction = not (is_equal(n1, 0.0) and is_equal(n2, 0.0) and is_equal(n3, 0.0)
                               and cid == CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
@@ -2942,9 +2960,7 @@ void NastranParser::parsePLOAD4(NastranTokenizer& tok, Model& model) {
     const VectorialValue force = direction.iszero() ? direction : direction.normalized().scaled(p1);
     if (not has_direction and g1 == Globals::UNAVAILABLE_INT) {
         const auto& normalPressionFace = make_shared<NormalPressionFace>(model, loadSet, p1);
-        for(int cellId = eid1; cellId <= eid2; cellId++) {
-            normalPressionFace->addCellId(cellId);
-        }
+        addCellIdsLater(normalPressionFace, cellIds);
         normalPressionFace->setInputContext(tok.getInputContext());
         model.add(normalPressionFace);
     } else if (not has_direction and g1 != Globals::UNAVAILABLE_INT) {
@@ -2958,9 +2974,7 @@ void NastranParser::parsePLOAD4(NastranTokenizer& tok, Model& model) {
             pressionFaceTwoNodes = make_shared<NormalPressionFaceTwoNodes>(model, loadSet, g1,
                 -p1);
         }
-        for(int cellId = eid1; cellId <= eid2; cellId++) {
-            pressionFaceTwoNodes->addCellId(cellId);
-        }
+        addCellIdsLater(pressionFaceTwoNodes, cellIds);
 
         pressionFaceTwoNodes->setInputContext(tok.getInputContext());
         model.add(pressionFaceTwoNodes);
@@ -2973,18 +2987,14 @@ void NastranParser::parsePLOAD4(NastranTokenizer& tok, Model& model) {
             forceSurfaceTwoNodes = make_shared<ForceSurfaceTwoNodes>(model, loadSet, g1,
 			force, VectorialValue(0, 0, 0));
         }
-        for(int cellId = eid1; cellId <= eid2; cellId++) {
-            forceSurfaceTwoNodes->addCellId(cellId);
-        }
+        addCellIdsLater(forceSurfaceTwoNodes, cellIds);
 
         forceSurfaceTwoNodes->setInputContext(tok.getInputContext());
         model.add(forceSurfaceTwoNodes);
     } else {
         const auto& forceSurface = make_shared<ForceSurface>(model, loadSet, force,
                 VectorialValue(0.0, 0.0, 0.0));
-        for(int cellId = eid1; cellId <= eid2; cellId++) {
-            forceSurface->addCellId(cellId);
-        }
+        addCellIdsLater(forceSurface, cellIds);
 
         forceSurface->setInputContext(tok.getInputContext());
         model.add(forceSurface);
@@ -3477,7 +3487,7 @@ void NastranParser::parseSET3(NastranTokenizer& tok, Model& model) {
     } else if (des == "ELEM") {
         shared_ptr<CellGroup> cellGroup = model.mesh.createCellGroup(name,sid,"SET3");
         const auto& ids = tok.nextInts();
-        cellGroup->addCellIds(ids);
+        addCellIdsLater(cellGroup, ids);
         const auto& setValue = make_shared<SetValue<int>>(model, set<int>{ids.begin(), ids.end()}, sid);
         setValue->markAsWritten();
         setValue->setInputContext(tok.getInputContext());
diff --git a/Nastran/NastranParser.h b/Nastran/NastranParser.h
index 0c5ed33..9fb2a06 100644
--- a/Nastran/NastranParser.h
+++ b/Nastran/NastranParser.h
@@ -28,6 +28,7 @@
 #include "../Abstract/Model.h"
 #include "../Abstract/SolverInterfaces.h"
 #include "NastranTokenizer.h"
+#include <functional>
 #include <type_traits>
 
 namespace vega {
@@ -72,6 +73,12 @@ private:
     /** Ranges of nodes may hold ids of undefined nodes, so they can be resolved only once all the nodes are known. */
     std::vector<std::pair<std::shared_ptr<NodeContainer>, std::list<int>>> nodeIdsByNodeContainer;
     void addDefinedNodes(Model& model);
+    /** A card may refer to elements defined after it, so they can be resolved only once all the elements are known. */
+    std::vector<std::pair<std::function<void(int)>, std::list<int>>> cellIdsByReceiver;
+    template<class T> void addCellIdsLater(const std::shared_ptr<T>& receiver, const std::list<int>& cellIds) {
+        cellIdsByReceiver.push_back({[receiver](int cellId) { receiver->addCellId(cellId); }, cellIds});
+    }
+    void addDefinedCells(Model& model);
 
     std::unordered_map<std::string, Reference<ElementSet>> directMatrixByName;
     static const std::unordered_map<std::string, NastranAnalysis> ANALYSIS_BY_LABEL;
-- 
2.43.0


From f1f172ba22735e05cfd54e51218fadf5e3b93675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:28 +0000
Subject: [PATCH 35/80] fix: forces per area on shells are written to Nastran

---
 Nastran/NastranWriter.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index a7dfa1f..117ec40 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -624,10 +624,9 @@ void NastranWriter::writeLoadings(const Model& model, ofstream& out) const
 		const auto& forceSurfaces = loadingSet->getLoadingsByType(
 				Loading::Type::FORCE_SURFACE);
         for (const auto& loading : forceSurfaces) {
-            const auto& forceSurface = dynamic_pointer_cast<ForceSurfaceTwoNodes>(loading);
-            if (forceSurface == nullptr) {
-                handleWritingError("Need to implement writing other ForceSurface subclasses");
-            }
+            const auto& forceSurface = static_pointer_cast<ForceSurface>(loading);
+            // only the face of a solid is identified by grid points
+            const auto& forceSurfaceTwoNodes = dynamic_pointer_cast<ForceSurfaceTwoNodes>(loading);
             const auto& cellPositions = forceSurface->getCellPositionsIncludingGroups();
             for (const pos_t cellPosition: cellPositions) {
                 const Cell& cell = model.mesh.findCell(cellPosition);
@@ -642,12 +641,13 @@ void NastranWriter::writeLoadings(const Model& model, ofstream& out) const
                     handleWritingError("Unimplemented moment in PLOAD4");
                 }
 
-                const int nodeId1 = model.mesh.findNodeId(forceSurface->nodePosition1);
-                pload4.add(nodeId1);
-                int nodeId2 = Globals::UNAVAILABLE_INT;
-                if (forceSurface->nodePosition2 != Globals::UNAVAILABLE_POS) {
-                    nodeId2 = model.mesh.findNodeId(forceSurface->nodePosition2);
-                    pload4.add(nodeId2);
+                if (forceSurfaceTwoNodes != nullptr) {
+                    pload4.add(model.mesh.findNodeId(forceSurfaceTwoNodes->nodePosition1));
+                } else {
+                    pload4.add("");
+                }
+                if (forceSurfaceTwoNodes != nullptr and forceSurfaceTwoNodes->nodePosition2 != Globals::UNAVAILABLE_POS) {
+                    pload4.add(model.mesh.findNodeId(forceSurfaceTwoNodes->nodePosition2));
                 } else {
                     pload4.add("");
                 }
-- 
2.43.0


From 6ec34f5c787cadddcceff6e2cda75dac13e2308c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:28 +0000
Subject: [PATCH 36/80] fix: bar loads keep their scale and positions in
 Nastran output

---
 Nastran/NastranWriter.cpp | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 117ec40..283c342 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -750,20 +750,28 @@ void NastranWriter::writeLoadings(const Model& model, ofstream& out) const
                 handleWritingError("DOF not yet handled");
             }
             const auto& functionTable = static_pointer_cast<FunctionTable>(forceLine->force);
-            auto it = functionTable->getBeginValuesXY();
-            double x1 = it->first;
-            double p1 = it->second;
-            it++;
-            double x2 = it->first;
-            double p2 = it->second;
-            if (++it != functionTable->getEndValuesXY())
-                handleWritingWarning("More than two values in function table for force line, ignoring from the third.");
+            vector<pair<double, double>> points(functionTable->getBeginValuesXY(), functionTable->getEndValuesXY());
+            // outside of the loaded part of the bar the function is zero: those values do not belong to the card
+            if (points.size() > 2 and is_zero(points.back().second)) {
+                points.pop_back();
+            }
+            if (points.size() > 2 and is_zero(points.front().second)) {
+                points.erase(points.begin());
+            }
+            if (points.size() != 2) {
+                handleWritingWarning("Function table for force line should have two values, ignoring the others.");
+            }
+            const double x1 = points.front().first;
+            const double p1 = points.front().second;
+            const double x2 = points.back().first;
+            const double p2 = points.back().second;
+            const bool length = functionTable->hasParaX() and functionTable->getParaX() == FunctionTable::ParaName::PARAX;
             for (const int cellId: forceLine->getCellIdsIncludingGroups()) {
                 Line pload1("PLOAD1");
                 pload1.add(loadingSet->bestId());
                 pload1.add(cellId);
                 pload1.add(forceType);
-                pload1.add("FR");
+                pload1.add(length ? "LE" : "FR");
                 pload1.add(x1);
                 pload1.add(p1);
                 pload1.add(x2);
-- 
2.43.0


From f97d5ac758ed420969bc0c7a523c201f0f27d8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:45 +0000
Subject: [PATCH 37/80] fix: code_aster: write the sum of the gravities of a
 load set

---
 Aster/AsterWriter.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 9a4614d..04caa80 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -1950,17 +1950,19 @@ void AsterWriter::writeLMPC( const ConstraintSet& cset) {
 
 void AsterWriter::writeGravity(const LoadSet& loadSet) {
 	const auto& gravities = loadSet.getLoadingsByType(Loading::Type::GRAVITY);
-	if (not gravities.empty()) {
+	// PESANTEUR can not be repeated, so the accelerations are added
+	VectorialValue acceleration(0, 0, 0);
+	for (const auto& loading : gravities) {
+		const auto& gravity = static_pointer_cast<Gravity>(loading);
+		acceleration = acceleration + gravity->getAccelerationVector();
+		gravity->markAsWritten();
+	}
+	if (not acceleration.iszero()) {
 		comm_file_ofs << "                      PESANTEUR=(" << endl;
-		for (const auto& loading : gravities) {
-			const auto& gravity = static_pointer_cast<Gravity>(loading);
-			comm_file_ofs << "                                 _F(GRAVITE=" << gravity->getAccelerationVector().norm()
-					<< "," << endl;
-			VectorialValue direction = gravity->getAccelerationVector().normalized();
-			comm_file_ofs << "                                    DIRECTION=(" << direction.x() << ","
-					<< direction.y() << "," << direction.z() << "),)," << endl;
-            gravity->markAsWritten();
-		}
+		comm_file_ofs << "                                 _F(GRAVITE=" << acceleration.norm() << "," << endl;
+		const VectorialValue direction = acceleration.normalized();
+		comm_file_ofs << "                                    DIRECTION=(" << direction.x() << ","
+				<< direction.y() << "," << direction.z() << "),)," << endl;
 		comm_file_ofs << "                                 )," << endl;
 	}
 }
-- 
2.43.0


From 29b356722951c09ad9891056c5c65d863561b8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:45 +0000
Subject: [PATCH 38/80] fix: systus: add the gravities of a load case

---
 Systus/SystusWriter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index 607e3a3..8640b16 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -1200,7 +1200,11 @@ void SystusWriter::fillLoadingsVectors(const SystusModel& systusModel, const int
                     vec.push_back(acceleration.z()); normvec=max(normvec, abs(acceleration.z()));
                     if (!is_zero(normvec)){
                         if (loadingVectorIdByLocalLoading[idLoadCase]!=0){
-                            handleWritingWarning("GRAVITY already defined for this loadcase. Dismissing load "+ to_string(gravity->bestId()) );
+                            // there is one acceleration vector by loadcase
+                            auto& total = vectors[loadingVectorIdByLocalLoading[idLoadCase]];
+                            for (size_t k = 1; k < total.size(); k++) {
+                                total[k] += vec[k];
+                            }
                         }else{
                             vectors[vectorId]=vec;
                             loadingVectorIdByLocalLoading[idLoadCase]= vectorId;
-- 
2.43.0


From 5d2cc69cd96b824f8fcdfebff21b4c8b039cf402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:45 +0000
Subject: [PATCH 39/80] fix: rotation speed of RFORCE, its scaling and its
 Nastran output

---
 Abstract/Loading.cpp      | 12 ++++++++++--
 Abstract/Loading.h        |  4 ++++
 Aster/AsterWriter.cpp     |  2 +-
 Nastran/NastranParser.cpp | 18 ++++++++++++------
 Nastran/NastranWriter.cpp | 16 ++++++++++++++++
 5 files changed, 43 insertions(+), 9 deletions(-)

diff --git a/Abstract/Loading.cpp b/Abstract/Loading.cpp
index eb3bf96..d1ecc7b 100644
--- a/Abstract/Loading.cpp
+++ b/Abstract/Loading.cpp
@@ -196,6 +196,14 @@ bool Rotation::ineffective() const {
 	return is_zero(getSpeed()) or getAxis().iszero();
 }
 
+void Rotation::scaleSpeed(double& speed, const double factor) {
+	// the forces are proportional to the square of the speed
+	if (factor < 0) {
+		throw invalid_argument("A rotation cannot be scaled by the negative factor " + to_string(factor));
+	}
+	speed *= sqrt(factor);
+}
+
 RotationCenter::RotationCenter(Model& model, const std::shared_ptr<LoadSet> loadset, double speed, double center_x, double center_y,
 		double center_z, double axis_x, double axis_y, double axis_z, const int original_id) :
 		Rotation(model, loadset, original_id), speed(speed), axis(axis_x, axis_y, axis_z), center(center_x,
@@ -219,7 +227,7 @@ unique_ptr<Loading> RotationCenter::clone() const {
 }
 
 void RotationCenter::scale(const double factor) {
-	speed *= factor;
+	scaleSpeed(speed, factor);
 }
 
 RotationNode::RotationNode(Model& model, const std::shared_ptr<LoadSet> loadset, double speed, const int node_id, double axis_x,
@@ -246,7 +254,7 @@ unique_ptr<Loading> RotationNode::clone() const {
 }
 
 void RotationNode::scale(const double factor) {
-	speed *= factor;
+	scaleSpeed(speed, factor);
 }
 
 ImposedDisplacement::ImposedDisplacement(Model& model, const std::shared_ptr<LoadSet> loadset, DOFS dofs, double value, const int original_id, const Reference<CoordinateSystem> csref) :
diff --git a/Abstract/Loading.h b/Abstract/Loading.h
index 365bbb4..05e1273 100644
--- a/Abstract/Loading.h
+++ b/Abstract/Loading.h
@@ -162,6 +162,7 @@ public:
 class Rotation: public VolumicLoading {
 protected:
 	Rotation(Model& model, const std::shared_ptr<LoadSet> loadset, const int original_id = NO_ORIGINAL_ID);
+	static void scaleSpeed(double& speed, const double factor);
 public:
 	/**
 	 * Get rotation speed (in rad/s).
@@ -206,6 +207,9 @@ public:
 	double getSpeed() const override;
 	VectorialValue getAxis() const override;
 	VectorialValue getCenter() const override;
+	pos_t getNodePosition() const noexcept {
+		return node_position;
+	}
 	std::unique_ptr<Loading> clone() const override;
 	void scale(const double factor) override;
 };
diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 04caa80..f9a2b2a 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -1975,7 +1975,7 @@ void AsterWriter::writeRotation(const LoadSet& loadSet) {
 			const auto& rotation = static_pointer_cast<Rotation>(loading);
 			comm_file_ofs << "                                 _F(VITESSE=" << rotation->getSpeed() << ","
 					<< endl;
-			VectorialValue axis = rotation->getAxis();
+			VectorialValue axis = rotation->getAxis().normalized();
 			comm_file_ofs << "                                    AXE=(" << axis.x() << "," << axis.y() << ","
 					<< axis.z() << ")," << endl;
 			VectorialValue center = rotation->getCenter();
diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index f8a3977..3cea4f5 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -3236,16 +3236,16 @@ void NastranParser::parseRBE3(NastranTokenizer& tok, Model& model) {
 void NastranParser::parseRFORCE(NastranTokenizer& tok, Model& model) {
     // RFORCE  2       1               200.    0.0     0.0     1.0     2
     int sid = tok.nextInt();
-    int g = tok.nextInt();
+    int g = tok.nextInt(true, 0);
     int csid = tok.nextInt(true, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
     if (csid != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID) {
         csid = CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID;
         handleParsingWarning("CoordinateSystem not supported and taken as 0.", tok, model);
     }
     double a = tok.nextDouble();
-    double r1 = tok.nextDouble();
-    double r2 = tok.nextDouble();
-    double r3 = tok.nextDouble();
+    double r1 = tok.nextDouble(true, 0);
+    double r2 = tok.nextDouble(true, 0);
+    double r3 = tok.nextDouble(true, 0);
 
     int method = tok.nextInt(true, 1);
     if (method != 1) {
@@ -3262,8 +3262,14 @@ void NastranParser::parseRFORCE(NastranTokenizer& tok, Model& model) {
         handleParsingWarning("MB not supported. Default (0) assumed.", tok, model);
     }
     const auto& loadset = model.getOrCreateLoadSet(sid, LoadSet::Type::LOAD);
-    const auto& rotation = make_shared<RotationNode>(model, loadset, a, g, r1, r2, r3);
-
+    // the angular velocity is A * R, in revolutions per unit time
+    const double speed = 2 * M_PI * a * VectorialValue(r1, r2, r3).norm();
+    shared_ptr<Rotation> rotation = nullptr;
+    if (g == 0) {
+        rotation = make_shared<RotationCenter>(model, loadset, speed, 0, 0, 0, r1, r2, r3);
+    } else {
+        rotation = make_shared<RotationNode>(model, loadset, speed, g, r1, r2, r3);
+    }
     rotation->setInputContext(tok.getInputContext());
     model.add(rotation);
 }
diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 283c342..5c6c265 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -621,6 +621,22 @@ void NastranWriter::writeLoadings(const Model& model, ofstream& out) const
             gravity->markAsWritten();
         }
 
+		for (const auto& loading : loadingSet->getLoadingsByType(Loading::Type::ROTATION)) {
+			const auto& rotation = static_pointer_cast<Rotation>(loading);
+			const auto& rotationNode = dynamic_pointer_cast<RotationNode>(loading);
+			if (rotationNode == nullptr and not rotation->getCenter().iszero()) {
+				handleWritingError("Rotation around a point which is not a grid point");
+			}
+			Line rforce("RFORCE");
+			rforce.add(loadingSet->bestId());
+			rforce.add(rotationNode == nullptr ? 0 : model.mesh.findNodeId(rotationNode->getNodePosition()));
+			rforce.add(0);
+			rforce.add(rotation->getSpeed() / (2 * M_PI)); // in revolutions per unit time
+			rforce.add(rotation->getAxis().normalized());
+			out << rforce;
+			rotation->markAsWritten();
+		}
+
 		const auto& forceSurfaces = loadingSet->getLoadingsByType(
 				Loading::Type::FORCE_SURFACE);
         for (const auto& loading : forceSurfaces) {
-- 
2.43.0


From a5717be2e3b503c1e01cec8766876611f07df9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:38 +0000
Subject: [PATCH 40/80] fix: free format lines keep the fields of the next line
 in place

---
 Nastran/NastranTokenizer.cpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index 7c19ce4..bd3effb 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -156,23 +156,28 @@ bool NastranTokenizer::readLineSkipComment(string& line, bool firstLine) {
 }
 
 void NastranTokenizer::splitFreeFormat(string line, bool firstLine) {
+	vector<string> fields;
+	split(fields, line, boost::is_any_of(","));
 	if (firstLine) {
-		split(currentLineVector, line, boost::is_any_of(","));
+		currentLineVector.push_back(fields[0]);
 	} else {
-		//skip first field;
-		string lineNoContinuation = line.substr(line.find(',') + 1);
-		vector<string> otherLine;
-		split(otherLine, lineNoContinuation, boost::is_any_of(","));
-		currentLineVector.insert(currentLineVector.end(), otherLine.begin(), otherLine.end());
+		//the fields left out at the end of the previous line are blank
+		while ((currentLineVector.size() - 1) % 8 != 0) {
+			currentLineVector.push_back("");
+		}
 	}
+	//skip first field;
+	fields.erase(fields.begin());
+	//field 10 of a line does not belong to the data
 	bool explicitContinuation = false;
-	for (size_t fieldIndex = 1; fieldIndex < currentLineVector.size(); fieldIndex += 8) {
-		string field = trim_copy(currentLineVector[fieldIndex]);
-		if (field[0] == '+') {
-			explicitContinuation = true;
-			currentLineVector.erase(currentLineVector.begin() + fieldIndex);
+	for (size_t fieldIndex = 8; fieldIndex < fields.size(); fieldIndex += 8) {
+		string field = trim_copy(fields[fieldIndex]);
+		if (boost::starts_with(field, "+") or (field.empty() and fieldIndex + 1 == fields.size())) {
+			explicitContinuation |= not field.empty();
+			fields.erase(fields.begin() + fieldIndex);
 		}
 	}
+	currentLineVector.insert(currentLineVector.end(), fields.begin(), fields.end());
 	char c = static_cast<char>(this->instrream.peek());
     string line2;
     if (explicitContinuation || c == ',' || c == '+' || c == '*') {
-- 
2.43.0


From d00ea4178bfd54d88817d4fa1ba51182c519cac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:48 +0000
Subject: [PATCH 41/80] fix: a '*' continuation line has large fields whatever
 the line before

---
 Nastran/NastranTokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index bd3effb..1f01c64 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -382,7 +382,7 @@ void NastranTokenizer::splitFixedFormat(string& line, const bool longFormat, con
 		//todo:check that continuation tokens are the same
 		bool iseof = readLineSkipComment(line2, false);
 		if (!iseof) {
-			splitFixedFormat(line2, longFormat, false);
+			splitFixedFormat(line2, longFormat or line2[0] == '*', false);
 		} else {
 			throw "Continuation Expected: Line N " + to_string(this->lineNumber);
 		}
-- 
2.43.0


From ffd06ff19b6cbfe115c2a7c62f2fbe4b392f7c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:35 +0000
Subject: [PATCH 42/80] fix: comment lines are skipped wherever they are, and
 their labels kept

---
 Nastran/NastranTokenizer.cpp | 31 +++++++++++++++++++++++++------
 Nastran/NastranTokenizer.h   |  2 ++
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index 1f01c64..833e808 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -119,6 +119,29 @@ string NastranTokenizer::nextSymbolString() {
     return result;
 }
 
+void NastranTokenizer::readComment(string line) {
+	if (boost::starts_with(line, HM_COMMENT_START)) {
+		boost::erase_head(line, static_cast<int>(HM_COMMENT_START.size()));
+		vector<string> commentParts;
+		boost::split(commentParts, line, boost::is_any_of(" \""), boost::token_compress_on);
+		if (commentParts.size() >= 3) {
+		    bool isPart2Int = all_of(commentParts[1].begin(), commentParts[1].end(), ::isdigit);
+		    auto result = commentTypeByString.find(commentParts[0]);
+		    if (isPart2Int and result != commentTypeByString.end()) {
+		        labelByCommentTypeAndId[{result->second, stoi(commentParts[1])}] = commentParts[2];
+		    }
+		}
+	}
+}
+
+void NastranTokenizer::skipComments() {
+	string line;
+	while (this->instrream.peek() == '$' and getline(this->instrream, line)) {
+		lineNumber += 1;
+		readComment(line);
+	}
+}
+
 bool NastranTokenizer::readLineSkipComment(string& line, bool firstLine) {
 	bool eof = true;
 	while (getline(this->instrream, line)) {
@@ -178,6 +201,7 @@ void NastranTokenizer::splitFreeFormat(string line, bool firstLine) {
 		}
 	}
 	currentLineVector.insert(currentLineVector.end(), fields.begin(), fields.end());
+	skipComments();
 	char c = static_cast<char>(this->instrream.peek());
     string line2;
     if (explicitContinuation || c == ',' || c == '+' || c == '*') {
@@ -370,14 +394,9 @@ void NastranTokenizer::splitFixedFormat(string& line, const bool longFormat, con
 		}
 	}
 	string line2;
+	skipComments(); // Trying to skip "comment inside card case"
 	char c0 = static_cast<char>(this->instrream.peek());
 
-	while (c0 == '$') { // Trying to skip "comment inside card case"
-        getline(this->instrream, line2);
-        lineNumber += 1;
-        c0 = static_cast<char>(this->instrream.peek());
-    }
-
 	if (explicitContinuation or c0 == '+') {
 		//todo:check that continuation tokens are the same
 		bool iseof = readLineSkipComment(line2, false);
diff --git a/Nastran/NastranTokenizer.h b/Nastran/NastranTokenizer.h
index 289b5ea..0869bf9 100644
--- a/Nastran/NastranTokenizer.h
+++ b/Nastran/NastranTokenizer.h
@@ -78,6 +78,8 @@ private:
 
     void splitFixedFormat(std::string& line, bool longFormat, bool firstLine);
 
+    void readComment(std::string line); /**< Keep the label given by a comment, if any. **/
+    void skipComments(); /**< Skip the comment lines that follow the current line. **/
     bool readLineSkipComment(std::string& line, bool firstLine);
     void splitFreeFormat(std::string line, bool firstLine);
     void parseBulkSectionLine(std::string line);
-- 
2.43.0


From a9da0e3bb7975baae710244136e408de88f6afb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:18 +0000
Subject: [PATCH 43/80] fix: lines may end with a carriage return

---
 Nastran/NastranTokenizer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index 833e808..7bbcce0 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -146,6 +146,9 @@ bool NastranTokenizer::readLineSkipComment(string& line, bool firstLine) {
 	bool eof = true;
 	while (getline(this->instrream, line)) {
 		lineNumber += 1;
+		if (boost::ends_with(line, "\r")) {
+			line.pop_back(); // end of line of another system
+		}
 		bool blankLine = all_of(line.begin(), line.end(), [](int c) {return isblank(c);});
 		if (not line.empty() and not blankLine and line[0] != '$') {
 			boost::iterator_range<string::iterator> middle_dollar = boost::find_first(line, "$");
-- 
2.43.0


From 798c2a93fe36812bd979a045bb4ea72d35facb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:41 +0000
Subject: [PATCH 44/80] fix: a blank continuation line keeps its place when it
 has an inline comment

---
 Nastran/NastranTokenizer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index 7bbcce0..e52f80b 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -157,8 +157,8 @@ bool NastranTokenizer::readLineSkipComment(string& line, bool firstLine) {
 						static_cast<int>(line.size())
 								- static_cast<int>(distance(line.begin(), middle_dollar.begin())));
 			}
-			//if the line is not blank exit the loop
-			if (!boost::all(line, [](int c) { return isblank(c); })){
+			//if the line is not blank, or is a blank continuation, exit the loop
+			if (not firstLine or !boost::all(line, [](int c) { return isblank(c); })){
 				eof = false;
 				break;
 			}
-- 
2.43.0


From 19aabe4c05e848f912c093d3a444ec5519c37a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:03 +0000
Subject: [PATCH 45/80] fix: THRU lists need a first identifier and a positive
 increment

---
 Nastran/NastranTokenizer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Nastran/NastranTokenizer.cpp b/Nastran/NastranTokenizer.cpp
index e52f80b..3335fd7 100644
--- a/Nastran/NastranTokenizer.cpp
+++ b/Nastran/NastranTokenizer.cpp
@@ -495,6 +495,9 @@ list<int> NastranTokenizer::nextInts() {
         if (isNextInt()) {
             result.push_back(nextInt());
         } else if (isNextTHRU()) {
+            if (result.empty()) {
+                handleParsingError("THRU is not preceded by an identifier");
+            }
             skip(1);
             int start = result.back();
             int endint = nextInt();
@@ -507,6 +510,9 @@ list<int> NastranTokenizer::nextInts() {
             if (isNextBY()) {
                 skip(1);
                 step = nextInt();
+                if (step < 1) {
+                    handleParsingError("Invalid increment in a THRU list: " + to_string(step));
+                }
             }
             for(int i=start+step;i<=endint;i+=step) {
                 result.push_back(i);
-- 
2.43.0


From 53c6082fbb8e6db1ada1b873f3c8f426127a68eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:43 +0000
Subject: [PATCH 46/80] fix: point elements do not add a nameless card to the
 Nastran output

---
 Nastran/NastranWriter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 5c6c265..1cd6a13 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -333,6 +333,9 @@ void NastranWriter::writeCells(const Model& model, ofstream& out) const
                     }
 			    }
 			}
+            if (keyword.empty()) {
+                continue; // not a Nastran element (a point mass is written by its property), or an error is already reported
+            }
             vector<int> nasConnect;
             auto entry = med2nastranNodeConnectByCellType.find(cell.type.code);
             if (entry == med2nastranNodeConnectByCellType.end()) {
-- 
2.43.0


From d74fdd087f2fd9506b099fb3859c046e59349169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:27 +0000
Subject: [PATCH 47/80] fix: GRDSET applies to the GRID cards before it too

---
 Nastran/NastranParser.h            | 10 ++++++
 Nastran/NastranParser_geometry.cpp | 49 +++++++++++++++++++++---------
 2 files changed, 44 insertions(+), 15 deletions(-)

diff --git a/Nastran/NastranParser.h b/Nastran/NastranParser.h
index 9fb2a06..fcafc44 100644
--- a/Nastran/NastranParser.h
+++ b/Nastran/NastranParser.h
@@ -70,6 +70,16 @@ private:
         int seid;
     };
     GrdSet grdSet;
+    /** A GRID card; blank fields (Globals::UNAVAILABLE_INT) take the defaults of GRDSET, which may come later. */
+    struct Grid {
+        int id;
+        int cp;
+        double x1, x2, x3;
+        int cd;
+        int ps;
+    };
+    std::vector<Grid> gridsBeforeGrdSet;
+    void addGrid(const Grid& grid, Model& model) const;
     /** Ranges of nodes may hold ids of undefined nodes, so they can be resolved only once all the nodes are known. */
     std::vector<std::pair<std::shared_ptr<NodeContainer>, std::list<int>>> nodeIdsByNodeContainer;
     void addDefinedNodes(Model& model);
diff --git a/Nastran/NastranParser_geometry.cpp b/Nastran/NastranParser_geometry.cpp
index 7104421..2ff4b17 100644
--- a/Nastran/NastranParser_geometry.cpp
+++ b/Nastran/NastranParser_geometry.cpp
@@ -55,20 +55,44 @@ const unordered_map<CellType::Code, vector<int>, EnumClassHash> NastranParser::n
                         14, 13, 12 } }
         };
 
-void NastranParser::parseGRDSET(NastranTokenizer& tok, Model&) {
+void NastranParser::parseGRDSET(NastranTokenizer& tok, Model& model) {
     tok.skip(1);
-    // The defaults are kept as input ids: parseGRID turns them into positions.
+    // The defaults are kept as input ids: addGrid turns them into positions.
     grdSet.cp = tok.nextInt(true, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
     tok.skip(3);
     grdSet.cd = tok.nextInt(true, CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID);
     grdSet.ps = tok.nextInt(true, 0);
     grdSet.seid = tok.nextInt(true, 0);
 
+    // The defaults also apply to the GRID cards that come before.
+    for (Grid grid : gridsBeforeGrdSet) {
+        if (grid.ps != Globals::UNAVAILABLE_INT) {
+            grid.ps = 0; // already constrained by its own field
+        }
+        addGrid(grid, model);
+    }
+    gridsBeforeGrdSet.clear();
 }
 
 void NastranParser::parseGRID(NastranTokenizer& tok, Model& model) {
-    int id = tok.nextInt();
-    int cp = tok.nextInt(true, static_cast<int>(grdSet.cp));
+    Grid grid;
+    grid.id = tok.nextInt();
+    grid.cp = tok.nextInt(true);
+    grid.x1 = tok.nextDouble(true, 0.0);
+    grid.x2 = tok.nextDouble(true, 0.0);
+    grid.x3 = tok.nextDouble(true, 0.0);
+    /* Coordinate System for Displacement */
+    grid.cd = tok.nextInt(true);
+    grid.ps = tok.nextInt(true);
+    addGrid(grid, model);
+
+    if (grid.cp == Globals::UNAVAILABLE_INT or grid.cd == Globals::UNAVAILABLE_INT or grid.ps == Globals::UNAVAILABLE_INT) {
+        gridsBeforeGrdSet.push_back(grid);
+    }
+}
+
+void NastranParser::addGrid(const Grid& grid, Model& model) const {
+    const int cp = grid.cp == Globals::UNAVAILABLE_INT ? static_cast<int>(grdSet.cp) : grid.cp;
     pos_t cpos = CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID;
     string scp;
     if (cp != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID){
@@ -76,31 +100,26 @@ void NastranParser::parseGRID(NastranTokenizer& tok, Model& model) {
         scp=" in CS"+to_string(cp)+"_"+to_string(cpos);
     }
 
-    double x1 = tok.nextDouble(true, 0.0);
-    double x2 = tok.nextDouble(true, 0.0);
-    double x3 = tok.nextDouble(true, 0.0);
-
-    /* Coordinate System for Displacement */
-    int cd = tok.nextInt(true, static_cast<int>(grdSet.cd));
+    const int cd = grid.cd == Globals::UNAVAILABLE_INT ? static_cast<int>(grdSet.cd) : grid.cd;
     pos_t cdos = CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID;
     string scd="";
     if (cd != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID){
         cdos = model.mesh.findOrReserveCoordinateSystem(Reference<CoordinateSystem>(CoordinateSystem::Type::ABSOLUTE, cd));
         scd=", DISP in CS"+to_string(cd)+"_"+to_string(cdos);
     }
-    model.mesh.addNode(id, x1, x2, x3, cpos, cdos);
+    model.mesh.addNode(grid.id, grid.x1, grid.x2, grid.x3, cpos, cdos);
 
-    int ps = tok.nextInt(true, grdSet.ps);
+    const int ps = grid.ps == Globals::UNAVAILABLE_INT ? grdSet.ps : grid.ps;
     if (ps) {
-        string spcName = "SPC" + to_string(id);
+        string spcName = "SPC" + to_string(grid.id);
         const auto& spc = make_shared<SinglePointConstraint>(model, DOFS::nastranCodeToDOFS(ps));
-        spc->addNodeId(id);
+        spc->addNodeId(grid.id);
         model.add(spc);
         model.addConstraintIntoConstraintSet(*spc, *model.commonConstraintSet);
     }
 
     if (this->logLevel >= LogLevel::TRACE) {
-        cout << fixed << "GRID " << id << ": (" << x1 << ";" << x2 << ";" << x3 <<")"<< scp<<scd<< endl;
+        cout << fixed << "GRID " << grid.id << ": (" << grid.x1 << ";" << grid.x2 << ";" << grid.x3 <<")"<< scp<<scd<< endl;
     }
 }
 
-- 
2.43.0


From 74aa2cd2bcd95fd0febac10665be43e6c7a975f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:32 +0000
Subject: [PATCH 48/80] fix: reuse the modes of a dynamic analysis under their
 own name

---
 Aster/AsterWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index f9a2b2a..bcf7aba 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -2744,7 +2744,7 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
             if (reusableAnalysis->type == Analysis::Type::LINEAR_MODAL)
                 modalResuName = "RESU" + to_string(reusableAnalysis->getId());
             else
-                modalResuName = "MOD" + to_string(reusableAnalysis->getId());
+                modalResuName = "MO" + to_string(reusableAnalysis->getId());
 		    comm_file_ofs << "# Reusing previous results: " << modalResuName << " for analysis " << *analysis << endl;
             handleWritingWarning("Reusing previous results: " + modalResuName + " for analysis " + to_str(*analysis));
 		}
-- 
2.43.0


From 73b8f95f47e897fce2313e588de8dd0a58efd837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:32 +0000
Subject: [PATCH 49/80] fix: frequency lists from FREQ4 and FREQ3 are used by
 their own number

---
 Aster/AsterWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index bcf7aba..01f63df 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -2995,10 +2995,10 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
         }
         if (frequencyExcit->frequencyType == FrequencyExcit::FrequencyType::SPREAD) {
             comm_file_ofs << "                   LIST_FREQ  = LSPR" << setfill('0') << setw(4)
-            << frequencyExcit->getValue()->getId() << "," << endl;
+            << frequencyExcit->getId() << "," << endl;
         } else if (frequencyExcit->frequencyType == FrequencyExcit::FrequencyType::INTERPOLATE) {
             comm_file_ofs << "                   LIST_FREQ  = LSIP" << setfill('0') << setw(4)
-            << frequencyExcit->getValue()->getId() << "," << endl;
+            << frequencyExcit->getId() << "," << endl;
         } else {
             comm_file_ofs << "                   LIST_FREQ  = LST" << setfill('0') << setw(5)
             << frequencyExcit->getValue()->getId() << "," << endl;
-- 
2.43.0


From 9bf0c198ebe52a022a2f4494443f6f97594dcc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:32 +0000
Subject: [PATCH 50/80] fix: structural damping of TABDMP1 is half of the table

---
 Aster/AsterWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 01f63df..a61e5a2 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -2930,7 +2930,7 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
                 break;
             }
             case (ModalDamping::DampingType::G): {
-                comm_file_ofs << "AMMOS" << analysis->getId() << " = CALC_FONCTION(COMB=_F(COEF=2.0, FONCTION=" << analysis->getId() << "))" << endl;
+                comm_file_ofs << "AMMOS" << analysis->getId() << " = CALC_FONCTION(COMB=_F(COEF=0.5, FONCTION=AMMOI" << analysis->getId() << "))" << endl;
                 destroyableConcepts.push_back("AMMOS" + to_string(analysis->getId()));
                 break;
             }
-- 
2.43.0


From e9748e5ec8409d8983c75ae57eb83f30063504b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:32 +0000
Subject: [PATCH 51/80] fix: scaling a dynamic excitation leaves the table
 shared with others

---
 Abstract/Loading.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Abstract/Loading.cpp b/Abstract/Loading.cpp
index d1ecc7b..c0b0a5b 100644
--- a/Abstract/Loading.cpp
+++ b/Abstract/Loading.cpp
@@ -860,7 +860,12 @@ DOFS DynamicExcitation::getDOFSForNode(const pos_t nodePosition) const {
 }
 
 void DynamicExcitation::scale(const double factor) {
-	model.find(functionTableB)->scale(factor);
+    // The table may be shared with other excitations: only this one has to be scaled
+    const auto& scaledTable = make_shared<FunctionTable>(*getFunctionTableB());
+    scaledTable->resetId();
+    scaledTable->scale(factor);
+    model.add(scaledTable);
+    functionTableB = scaledTable->getReference();
 }
 
 unique_ptr<Loading> DynamicExcitation::clone() const {
-- 
2.43.0


From 22af11622e3693c69a81ebd7e6f2d363944bcdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:32 +0000
Subject: [PATCH 52/80] fix: an excitation may be a static load set read after
 it

---
 Abstract/Loading.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Abstract/Loading.cpp b/Abstract/Loading.cpp
index c0b0a5b..c4c2d7e 100644
--- a/Abstract/Loading.cpp
+++ b/Abstract/Loading.cpp
@@ -839,7 +839,15 @@ shared_ptr<FunctionTable> DynamicExcitation::getFunctionTableP() const {
 
 
 shared_ptr<LoadSet> DynamicExcitation::getLoadSet() const {
-    return model.find(loadSet);
+    const auto& excitation = model.find(loadSet);
+    if (loadSet.type == LoadSet::Type::EXCITEID and (excitation == nullptr or excitation->getLoadings().empty())) {
+        // the excitation identifier may also be the one of a static load set, whatever the order of the cards
+        const auto& staticLoadSet = model.find(Reference<LoadSet>{LoadSet::Type::LOAD, loadSet.original_id});
+        if (staticLoadSet != nullptr) {
+            return staticLoadSet;
+        }
+    }
+    return excitation;
 }
 
 shared_ptr<FunctionPlaceHolder> DynamicExcitation::getFunctionTableBPlaceHolder() const {
-- 
2.43.0


From bdfb579094474c0a6836912c3b2f81d25c7bed12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:32 +0000
Subject: [PATCH 53/80] fix: delays and phase tables of dynamic excitations are
 not ignored silently

---
 Aster/AsterWriter.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index a61e5a2..72d9193 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -2623,6 +2623,12 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
             for (const auto& loading : loadSet->getLoadings()) {
                 if (loading->type == Loading::Type::DYNAMIC_EXCITATION) {
                     const auto& dynamicExcitation = dynamic_pointer_cast<DynamicExcitation>(loading);
+                    if (not is_zero(dynamicExcitation->getDynaDelay()->get())) {
+                        handleWritingError("Delay of a dynamic excitation not (yet) implemented");
+                    }
+                    if (dynamicExcitation->getFunctionTableP() != nullptr) {
+                        handleWritingError("Phase table of a dynamic excitation not (yet) implemented");
+                    }
                     const string& vename = "VE" + to_string(analysis->getId()) + "_" + to_string(dynamicExcitation->getId());
                     comm_file_ofs << vename << " = CALC_VECT_ELEM(OPTION = 'CHAR_MECA'," << endl;
                     if (not asterModel->model.materials.empty()) {
@@ -2835,6 +2841,12 @@ double AsterWriter::writeAnalysis(const shared_ptr<Analysis>& analysis, double d
             for (const auto& loading : loadSet->getLoadings()) {
                 if (loading->type == Loading::Type::DYNAMIC_EXCITATION) {
                     const auto& dynamicExcitation = dynamic_pointer_cast<DynamicExcitation>(loading);
+                    if (not is_zero(dynamicExcitation->getDynaDelay()->get())) {
+                        handleWritingError("Delay of a dynamic excitation not (yet) implemented");
+                    }
+                    if (dynamicExcitation->getFunctionTableP() != nullptr) {
+                        handleWritingError("Phase table of a dynamic excitation not (yet) implemented");
+                    }
                     const string& vename = "VE" + to_string(analysis->getId()) + "_" + to_string(dynamicExcitation->getId());
                     comm_file_ofs << vename << " = CALC_VECT_ELEM(OPTION = 'CHAR_MECA'," << endl;
                     if (not asterModel->model.materials.empty()) {
-- 
2.43.0


From 1c0d9cbc8eeac767f1da69116e009e50d25b70e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:33 +0000
Subject: [PATCH 54/80] fix: matrices are assembled with the constraint sets
 that are written

---
 Aster/AsterWriter.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 72d9193..ef58aa6 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -2262,11 +2262,17 @@ void AsterWriter::writeAssemblage(const std::shared_ptr<Analysis>& analysis, boo
 
     ostringstream oss;
     oss << "MODELE=MODMECA," << endl;
-    const auto& constraintSets = analysis->getConstraintSets();
-    if (not constraintSets.empty()) {
+    vector<string> constraintNames;
+    for (const auto& constraintSet : analysis->getConstraintSets()) {
+        const auto& nameEntry = asternameByConstraintSet.find(constraintSet);
+        if (nameEntry != asternameByConstraintSet.end() and not constraintSet->hasContacts()) { // empty sets are not written
+            constraintNames.push_back(nameEntry->second);
+        }
+    }
+    if (not constraintNames.empty()) {
         oss << "           CHARGE=(" << endl;
-        for (const auto& constraintSet : analysis->getConstraintSets()) {
-            oss << "                   BL" << constraintSet->getId() << "," << endl;
+        for (const auto& constraintName : constraintNames) {
+            oss << "                   " << constraintName << "," << endl;
         }
         oss << "                   )," << endl;
     }
-- 
2.43.0


From 71a2e15b33f50d63715a353d14e927dd311c6bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:33 +0000
Subject: [PATCH 55/80] fix: SUBSEQ coefficients apply to the immediately
 preceding subcases

---
 Nastran/NastranParser.cpp | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index 3cea4f5..ccc6b91 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1021,17 +1021,32 @@ void NastranParser::addCombinationAnalysis(NastranTokenizer& tok, Model& model,
 
     // A SUBSEQ command must follow this command.
     const auto& subseq = context.find("SUBSEQ");
-    vector<string> coefStrings(model.analyses.size());
-    boost::split(coefStrings,subseq->second,boost::is_any_of(","));
-    for (size_t i = 0; i < coefStrings.size(); i++) {
-        auto it = model.analyses.begin();
-        advance(it, i);
-        const auto& analysis = *it;
-        double coef = stod(coefStrings[i++]);
-        if (model.configuration.logLevel >= LogLevel::TRACE) {
-            cout << "Assigning analysis " << *analysis << " to combination " << *combination << " with coefficient " << to_string(coef) << endl;
+    if (subseq == context.end()) {
+        handleParsingError("SUBSEQ not found for combination of subcases", tok, model);
+    } else {
+        vector<string> coefStrings;
+        const string& coefLine = trim_copy_if(subseq->second, boost::is_any_of(",_ "));
+        boost::split(coefStrings, coefLine, boost::is_any_of(",_ "), boost::token_compress_on);
+        // The coefficients refer to the immediately preceding subcases: the last one applies to the most recent subcase
+        vector<shared_ptr<Analysis>> subcases;
+        for (const auto& analysis : model.analyses) {
+            if (analysis->type != Analysis::Type::COMBINATION) {
+                subcases.push_back(analysis);
+            }
+        }
+        if (coefStrings.size() > subcases.size()) {
+            handleParsingError("SUBSEQ has more coefficients than preceding subcases", tok, model);
+            coefStrings.erase(coefStrings.begin(), coefStrings.end() - static_cast<long>(subcases.size()));
+        }
+        const size_t offset = subcases.size() - coefStrings.size();
+        for (size_t i = 0; i < coefStrings.size(); i++) {
+            const auto& analysis = subcases[offset + i];
+            double coef = stod(coefStrings[i]);
+            if (model.configuration.logLevel >= LogLevel::TRACE) {
+                cout << "Assigning analysis " << *analysis << " to combination " << *combination << " with coefficient " << to_string(coef) << endl;
+            }
+            combination->coefByAnalysis[analysis->getReference()] = coef;
         }
-        combination->coefByAnalysis[analysis->getReference()] = coef;
     }
     combination->setInputContext(tok.getInputContext());
     model.add(combination);
-- 
2.43.0


From 44bee87b94220c0543b0f3d82ad429cb9de9373e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:33 +0000
Subject: [PATCH 56/80] fix: combinations of subcases are written as SUBCOM to
 Nastran

---
 Nastran/NastranWriter.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 1cd6a13..955f8e2 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -1087,6 +1087,25 @@ string NastranWriter::writeModel(Model& model,
         objective->markAsWritten();
     }
 	for (const auto& analysis : model.analyses) {
+		if (analysis->type == Analysis::Type::COMBINATION) {
+			const auto& combination = static_pointer_cast<Combination>(analysis);
+			ostringstream coefficients; // one for each preceding subcase
+			coefficients.precision(numeric_limits<double>::digits10);
+			string separator;
+			for (const auto& subcase : model.analyses) {
+				if (*subcase == *analysis)
+					break;
+				if (subcase->type == Analysis::Type::COMBINATION)
+					continue;
+				const auto& coefEntry = combination->coefByAnalysis.find(subcase->getReference());
+				coefficients << separator << (coefEntry == combination->coefByAnalysis.end() ? 0.0 : coefEntry->second);
+				separator = ",";
+			}
+			out << "SUBCOM " << analysis->bestId() << endl;
+			out << "  SUBSEQ=" << coefficients.str() << endl;
+			analysis->markAsWritten();
+			continue;
+		}
 		out << "SUBCASE " << analysis->bestId() << endl;
 		for (const auto& loadSet : analysis->getLoadSets()) {
 			string typeName = loadSet->stringByType.find(loadSet->type)->second;
-- 
2.43.0


From 8a0a3c124b47a9ad1aad901e8fdf91dfc16bcca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:20 +0000
Subject: [PATCH 57/80] fix: write AFFE_CARA_ELEM also for a model without
 elements

---
 Aster/AsterWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index ef58aa6..85421e7 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -1085,8 +1085,8 @@ void AsterWriter::writeMaterials() {
 
 void AsterWriter::writeAffeCaraElem() {
 	calc_sigm = false;
+	comm_file_ofs << "CAEL=AFFE_CARA_ELEM(MODELE=MODMECA," << endl;
 	if (not asterModel->model.elementSets.empty()) {
-		comm_file_ofs << "CAEL=AFFE_CARA_ELEM(MODELE=MODMECA," << endl;
 
 		const auto& discrets_0d = asterModel->model.elementSets.filter(
 				ElementSet::Type::DISCRETE_0D);
-- 
2.43.0


From 8dedfd590290b74fefccf6d250cd5aa26c9ee389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:20 +0000
Subject: [PATCH 58/80] fix: name the Tsai-Wu concepts after the composite and
 the layer

---
 Aster/AsterWriter.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 85421e7..30dee00 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -494,21 +494,21 @@ void AsterWriter::writeAnalyses() {
                         comm_file_ofs << "               EXTR_COQUE=_F(NOM_CHAM='SIGM_ELNO',NUME_COUCHE="+to_string(layerNumber)+",NIVE_COUCHE='MOY',),)" << endl << endl;
                         destroyableConcepts.push_back(layerStressesName);
 
-                        string layerLocalFormulaxx = "locxx" + to_string(layerNumber);
+                        string layerLocalFormulaxx = "xx" + layerStressesName;
                         comm_file_ofs << layerLocalFormulaxx << " = FORMULE(VALE='(SIXX*cos(-" << layer->getOrientation()*M_PI/180 << ")**2" <<
 								"+ SIYY*sin(-" << layer->getOrientation()*M_PI/180 << ")**2 " <<
 								"- SIXY*2*cos(-" << layer->getOrientation()*M_PI/180 << ")*sin(-" << layer->getOrientation()*M_PI/180 << ") )', NOM_PARA=('SIXX','SIYY','SIXY',),)" << endl << endl;
 
                         destroyableConcepts.push_back(layerLocalFormulaxx);
 
-                        string layerLocalFormulayy = "locyy" + to_string(layerNumber);
+                        string layerLocalFormulayy = "yy" + layerStressesName;
                         comm_file_ofs << layerLocalFormulayy << " = FORMULE(VALE='(SIXX*sin(-" << layer->getOrientation()*M_PI/180 << ")**2" <<
 								"+ SIYY*cos(-" << layer->getOrientation()*M_PI/180 << ")**2 " <<
 								"+ SIXY*2*cos(-" << layer->getOrientation()*M_PI/180 << ")*sin(-" << layer->getOrientation()*M_PI/180 << ") )', NOM_PARA=('SIXX','SIYY','SIXY',),)" << endl << endl;
 
                         destroyableConcepts.push_back(layerLocalFormulayy);
 
-                        string layerLocalFormulaxy = "locxy" + to_string(layerNumber);
+                        string layerLocalFormulaxy = "xy" + layerStressesName;
                         comm_file_ofs << layerLocalFormulaxy << " = FORMULE(VALE='(SIXX*sin(-" << layer->getOrientation()*M_PI/180 << ")*cos(-" << layer->getOrientation()*M_PI/180 << ") " <<
 								"-SIYY*sin(-" << layer->getOrientation()*M_PI/180 << ")*cos(-" << layer->getOrientation()*M_PI/180 << ") " <<
 								"+ SIXY*(cos(-" << layer->getOrientation()*M_PI/180 << ")**2-sin(-" << layer->getOrientation()*M_PI/180 << ")**2) )', NOM_PARA=('SIXX','SIYY','SIXY',),)" << endl << endl;
@@ -530,7 +530,7 @@ void AsterWriter::writeAnalyses() {
                         comm_file_ofs << "               )," << endl;
                         comm_file_ofs << "         )" << endl << endl;
 
-                        string layerTsaiFormula = "TSAI" + to_string(layerNumber);
+                        string layerTsaiFormula = "TW" + layerStressesName;
                         comm_file_ofs << layerTsaiFormula << " = FORMULE(VALE='X1*(1/" << orthoNature->getXt() << "-1/" << orthoNature->getXc() << ")" <<
                                     "+X2*(1/" << orthoNature->getYt() << "-1/" << orthoNature->getYc() << ")" <<
                                     "+X1**2/(" << orthoNature->getXt() << "*" << orthoNature->getXc() << ")" <<
-- 
2.43.0


From 71a8692f5a2b47ccceef881c9b4ebe0c0e7c7f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:20 +0000
Subject: [PATCH 59/80] fix: a dynamic excitation with zero loads is
 ineffective

---
 Abstract/Loading.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Abstract/Loading.cpp b/Abstract/Loading.cpp
index c4c2d7e..ce91b24 100644
--- a/Abstract/Loading.cpp
+++ b/Abstract/Loading.cpp
@@ -886,7 +886,16 @@ bool DynamicExcitation::validate() const {
 }
 
 bool DynamicExcitation::ineffective() const {
-    return false;
+    const auto& excitation = getLoadSet();
+    if (excitation == nullptr or excitation->getLoadings().empty()) {
+        return false; // invalid, but not ineffective
+    }
+    for (const auto& loading : excitation->getLoadings()) {
+        if (not loading->ineffective()) {
+            return false;
+        }
+    }
+    return true;
 }
 
 InitialTemperature::InitialTemperature(Model& model, const std::shared_ptr<LoadSet> loadset, const double temperature, const int original_id) :
-- 
2.43.0


From fe1f205ca5f18d4f95cb784e3aab63cde5578204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:13 +0000
Subject: [PATCH 60/80] fix: SPCFORCES and MPCFORCES do not select constraints

---
 Nastran/NastranParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index ccc6b91..b64fcf0 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -873,7 +873,7 @@ void NastranParser::addAnalysis(NastranTokenizer& tok, Model& model, map<string,
             key = options[0];
             options.erase(options.begin());
         }
-        if (!key.compare(0, 3, "SPC")) {
+        if (key == "SPC") {
             Reference<ConstraintSet> constraintReference(ConstraintSet::Type::SPC, id);
             analysis->add(constraintReference);
             if (!model.find(constraintReference)) { // constraintSet is added in the model if not found in the model
@@ -881,7 +881,7 @@ void NastranParser::addAnalysis(NastranTokenizer& tok, Model& model, map<string,
                 constraintSet->setInputContext(tok.getInputContext());
                 model.add(constraintSet);
             }
-        } else if (!key.compare(0, 3, "MPC")) {
+        } else if (key == "MPC") {
             Reference<ConstraintSet> constraintReference(ConstraintSet::Type::MPC, id);
             analysis->add(constraintReference);
             if (!model.find(constraintReference)) { // constraintSet is added in the model if not found in the model
-- 
2.43.0


From 72723bab1fada1c21ca082c972b82430cc9bb6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:36 +0000
Subject: [PATCH 61/80] fix: CONM2 products of inertia I31 and I32 were
 exchanged

---
 Nastran/NastranParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index b64fcf0..b4303dd 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -1274,7 +1274,7 @@ void NastranParser::parseCONM2(NastranTokenizer& tok, Model& model) {
     const double i32 = tok.nextDouble(true, 0.0);
     const double i33 = tok.nextDouble(true, 0.0);
 
-    const auto& nodalMass = make_shared<NodalMass>(model, mass, i11, i22, i33, -i21, -i31, -i32, x1, x2, x3, eid);
+    const auto& nodalMass = make_shared<NodalMass>(model, mass, i11, i22, i33, -i21, -i32, -i31, x1, x2, x3, eid);
 
     const pos_t cpos = ci == 0 ? CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID : model.mesh.findOrReserveCoordinateSystem(Reference<CoordinateSystem>(CoordinateSystem::Type::ABSOLUTE, ci));
     const auto cellPosition = model.mesh.addCell(eid, CellType::POINT1, { g }, false, cpos);
-- 
2.43.0


From 27c5991fa8b74c591286a40f63546a53a7e2fb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:36 +0000
Subject: [PATCH 62/80] fix: the inertia of nodal masses follows WTMASS, and an
 offset makes it rotational

---
 Abstract/Element.cpp    | 11 ++++++++---
 Abstract/Element.h      |  5 +++++
 Aster/AsterWriter.cpp   |  8 +++++---
 Systus/SystusWriter.cpp |  5 +++--
 4 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/Abstract/Element.cpp b/Abstract/Element.cpp
index 421ccf9..c5d21af 100644
--- a/Abstract/Element.cpp
+++ b/Abstract/Element.cpp
@@ -942,13 +942,17 @@ NodalMass::NodalMass(Model& model, double m, double ixx, double iyy, double izz,
 				ixy), iyz(iyz), ixz(ixz), ex(ex), ey(ey), ez(ez) {
 }
 
-double NodalMass::getMass() const {
+double NodalMass::getMassMultiplier() const {
 	double mass_multiplier = 1.0;
 	if (model.contains(ModelParameter::MASS_OVER_FORCE_MULTIPLIER)) {
 		mass_multiplier = stod(model.getParameter(ModelParameter::MASS_OVER_FORCE_MULTIPLIER));
 		assert(!is_zero(mass_multiplier));
 	}
-	return m * mass_multiplier;
+	return mass_multiplier;
+}
+
+double NodalMass::getMass() const {
+	return m * getMassMultiplier();
 }
 
 bool NodalMass::hasTranslations() const {
@@ -956,7 +960,8 @@ bool NodalMass::hasTranslations() const {
 }
 
 bool NodalMass::hasRotations() const {
-	return (not is_zero(ixx) or not is_zero(iyy) or not is_zero(izz) or not is_zero(ixy) or not is_zero(iyz) or not is_zero(ixz));
+	return (not is_zero(ixx) or not is_zero(iyy) or not is_zero(izz) or not is_zero(ixy) or not is_zero(iyz) or not is_zero(ixz)
+			or not is_zero(ex) or not is_zero(ey) or not is_zero(ez));
 }
 
 DOFS NodalMass::getDOFSForNode(const pos_t nodePosition) const {
diff --git a/Abstract/Element.h b/Abstract/Element.h
index 1d46d5a..61cae11 100644
--- a/Abstract/Element.h
+++ b/Abstract/Element.h
@@ -532,6 +532,11 @@ class NodalMass: public CellElementSet {
 	 */
 	double getMass() const;
 
+	/**
+	 * Factor from the given mass and inertias to the units of getMass()
+	 */
+	double getMassMultiplier() const;
+
 	/**
 	 * Get mass as equivalent force (in N)
 	 */
diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 30dee00..2c6b446 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -1209,11 +1209,13 @@ void AsterWriter::writeAffeCaraElem() {
 					comm_file_ofs << "                             _F(";
 					writeCellContainer(static_pointer_cast<CellContainer>(nodalMass));
 					comm_file_ofs << endl;
+					const double multiplier = nodalMass->getMassMultiplier();
 					if (nodalMass->hasRotations()) {
                         comm_file_ofs << "                                CARA='M_TR_D_N',VALE=("
-                                << nodalMass->getMass() << "," << nodalMass->ixx << ","
-                                << nodalMass->iyy << "," << nodalMass->izz << "," << nodalMass->ixy
-                                << "," << nodalMass->iyz << "," << nodalMass->ixz << ","
+                                << nodalMass->getMass() << "," << nodalMass->ixx * multiplier << ","
+                                << nodalMass->iyy * multiplier << "," << nodalMass->izz * multiplier << ","
+                                << nodalMass->ixy * multiplier << "," << nodalMass->iyz * multiplier << ","
+                                << nodalMass->ixz * multiplier << ","
                                 << nodalMass->ex << "," << nodalMass->ey << "," << nodalMass->ez
                                 << "),)," << endl;
 					} else {
diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index 8640b16..e30dfca 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -3049,10 +3049,11 @@ void SystusWriter::writeMasses(const SystusModel &systusModel, ostream& out) {
             if (!is_zero(nodalMass->ex) || !is_zero(nodalMass->ey) || !is_zero(nodalMass->ez)){
                 handleWritingWarning("Offset not implemented and dismissed.");
             }
+            const double multiplier = nodalMass->getMassMultiplier();
             if (!is_zero(nodalMass->ixx) || !is_zero(nodalMass->iyy) || !is_zero(nodalMass->izz)){
                 out << "VALUES 6 " << nodalMass->getMass() << " " << nodalMass->getMass() << " "
-                        << nodalMass->getMass() << " " << nodalMass->ixx << " " << nodalMass->iyy
-                        << " " << nodalMass->izz;
+                        << nodalMass->getMass() << " " << nodalMass->ixx * multiplier << " "
+                        << nodalMass->iyy * multiplier << " " << nodalMass->izz * multiplier;
             }else{
                 out << "VALUES 3 " << nodalMass->getMass() << " " << nodalMass->getMass() << " "
                         << nodalMass->getMass();
-- 
2.43.0


From 5c3e4c26bf26ca20140b917ba31d0e399ddd25a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:36 +0000
Subject: [PATCH 63/80] fix: CELAS2 without second node is grounded

---
 Nastran/NastranParser_geometry.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/Nastran/NastranParser_geometry.cpp b/Nastran/NastranParser_geometry.cpp
index 2ff4b17..bb626c8 100644
--- a/Nastran/NastranParser_geometry.cpp
+++ b/Nastran/NastranParser_geometry.cpp
@@ -391,8 +391,8 @@ void NastranParser::parseCELAS2(NastranTokenizer& tok, Model& model) {
     double k = tok.nextDouble();
     int g1 = tok.nextInt();
     dof_int c1 = parseDOF(tok,model);
-    int g2 = tok.nextInt();
-    dof_int c2 = parseDOF(tok,model);
+    int g2 = tok.nextInt(true);
+    dof_int c2 = parseDOF(tok,model,true);
     double ge = tok.nextDouble(true, 0.0);
 
     // S is only used for post-treatment, and so discarded.
@@ -403,6 +403,16 @@ void NastranParser::parseCELAS2(NastranTokenizer& tok, Model& model) {
         }
     }
 
+    // If G2 is undefined, it is considered a fictitious grounded point, and c2=c1
+    if (g2 == Globals::UNAVAILABLE_INT or g2 == 0) {
+        c2 = c1;
+        const auto& spc = make_shared<SinglePointConstraint>(model, DOFS::ALL_DOFS, 0.0);
+        const auto nodePosition = model.mesh.addNode(Node::AUTO_ID, 0.0, 0.0, 0.0);
+        g2 = model.mesh.findNodeId(nodePosition);
+        spc->addNodeId(g2);
+        model.add(spc);
+    }
+
     // Create a Cell and a cellgroup
     const auto& springGroup = model.mesh.createCellGroup("CELAS2_" + to_string(eid), Group::NO_ORIGINAL_ID, "CELAS2");
     const auto cellPosition= model.mesh.addCell(eid, CellType::SEG2, {g1, g2});
-- 
2.43.0


From 20179c55dc469e7dfb9b3a5af2ce8c34da847586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:36 +0000
Subject: [PATCH 64/80] fix: scalar springs stiffen only the components they
 connect

---
 Abstract/ConfigurationParameters.cpp |   1 +
 Abstract/Element.cpp                 | 141 ++++++++-------------------
 Abstract/Element.h                   |   5 +-
 3 files changed, 42 insertions(+), 105 deletions(-)

diff --git a/Abstract/ConfigurationParameters.cpp b/Abstract/ConfigurationParameters.cpp
index ec79ca5..8bb528d 100644
--- a/Abstract/ConfigurationParameters.cpp
+++ b/Abstract/ConfigurationParameters.cpp
@@ -62,6 +62,7 @@ ModelConfiguration ConfigurationParameters::getModelConfiguration() const {
         configuration.changeParametricForceLineToAbsolute = true;
         configuration.alwaysUseGroupsForCells = true;
         configuration.splitElementsByCellOffsets = true;
+        configuration.splitElementsByDOFS = true;
         configuration.alwaysUseOrthotropicMaterialsInComposites = true;
     } else if (this->outputSolver.getSolverName() == SolverName::SYSTUS) {
         configuration.createSkin = true;
diff --git a/Abstract/Element.cpp b/Abstract/Element.cpp
index c5d21af..4ac0c4f 100644
--- a/Abstract/Element.cpp
+++ b/Abstract/Element.cpp
@@ -1319,127 +1319,64 @@ size_t ScalarSpring::getNbDOFSSpring() const{
 }
 
 bool ScalarSpring::hasTranslations() const {
-	for (const DOF dof1 : DOFS::TRANSLATIONS) {
-		for (const DOF dof2 : DOFS::TRANSLATIONS) {
-            auto codeIter = this->cellpositionByDOFS.find({dof1, dof2});
-            if (codeIter != this->cellpositionByDOFS.end()) {
-				return true;
-            }
+	for (const auto& kv : this->cellpositionByDOFS) {
+		if (DOFS::TRANSLATIONS.contains(kv.first.first) or DOFS::TRANSLATIONS.contains(kv.first.second)) {
+			return true;
 		}
 	}
 	return false;
 }
 
 bool ScalarSpring::hasRotations() const {
-	for (const DOF dof1 : DOFS::ROTATIONS) {
-		for (const DOF dof2 : DOFS::ROTATIONS) {
-            auto codeIter = this->cellpositionByDOFS.find({dof1, dof2});
-            if (codeIter != this->cellpositionByDOFS.end()) {
-				return true;
-            }
+	for (const auto& kv : this->cellpositionByDOFS) {
+		if (DOFS::ROTATIONS.contains(kv.first.first) or DOFS::ROTATIONS.contains(kv.first.second)) {
+			return true;
 		}
 	}
 	return false;
 }
 
-vector<double> ScalarSpring::asStiffnessVector(bool addRotationsIfNotPresent) const {
-	vector<double> result;
-	char ncomp = (addRotationsIfNotPresent || hasRotations()) ? 6 : 3;
+bool ScalarSpring::isDiagonal() const {
+	for (const auto& kv : this->cellpositionByDOFS) {
+		if (kv.first.first != kv.first.second) {
+			return false;
+		}
+	}
+	return true;
+}
 
-    if (isDiagonal()) {
-        result.insert(result.end(), ncomp, stiffness);
-    } else if (isSymmetric()) {
-        int max_row_element_index = 0;
-        for (int colindex = 0; colindex < 2; ++colindex) {
-            for (char coldof = 0; coldof < ncomp; coldof++) {
-                DOF colcode = DOF::findByPosition(coldof);
-                max_row_element_index++;
-                int row_element_index = 0;
-                for (int rowindex = 0; rowindex < 2; ++rowindex) {
-                    for (char rowdof = 0; rowdof < ncomp; rowdof++) {
-                        row_element_index++;
-                        if (row_element_index > max_row_element_index) {
-                            break;
-                        }
-                        DOF rowcode = DOF::findByPosition(rowdof);
-                        auto codeIter = this->cellpositionByDOFS.find({rowcode, colcode});
-                        if (codeIter != this->cellpositionByDOFS.end() and colindex == 1 and row_element_index <= 2) {
-                            result.push_back(stiffness);
-                        } else {
-                            result.push_back(0.0);
-                        }
-                    }
-                }
-            }
-        }
-    } else {
-        throw logic_error("not yet implemented");
-    }
+vector<double> ScalarSpring::asVector(const double value, bool addRotationsIfNotPresent) const {
+	const int ncomp = (addRotationsIfNotPresent || hasRotations()) ? 6 : 3;
+	if (isDiagonal()) {
+		vector<double> result(ncomp, 0.0);
+		for (const auto& kv : this->cellpositionByDOFS) {
+			result[static_cast<int>(kv.first.first.position)] = value;
+		}
+		return result;
+	}
+	// upper triangle of the matrix of both nodes, by columns
+	const int size = 2 * ncomp;
+	vector<double> result(size * (size + 1) / 2, 0.0);
+	for (const auto& kv : this->cellpositionByDOFS) {
+		const int row = kv.first.first.position;
+		const int col = ncomp + kv.first.second.position;
+		result[row * (row + 1) / 2 + row] += value;
+		result[col * (col + 1) / 2 + col] += value;
+		result[col * (col + 1) / 2 + row] -= value;
+	}
 	return result;
 }
 
+vector<double> ScalarSpring::asStiffnessVector(bool addRotationsIfNotPresent) const {
+	return asVector(stiffness, addRotationsIfNotPresent);
+}
+
 vector<double> ScalarSpring::asDampingVector(bool addRotationsIfNotPresent) const {
-	vector<double> result;
-	char ncomp = (addRotationsIfNotPresent || hasRotations()) ? 6 : 3;
-    if (isDiagonal()) {
-        result.insert(result.end(), ncomp, damping);
-    } else if (isSymmetric()) {
-        int max_row_element_index = 0;
-        for (int colindex = 0; colindex < 2; ++colindex) {
-            for (char coldof = 0; coldof < ncomp; coldof++) {
-                DOF colcode = DOF::findByPosition(coldof);
-                max_row_element_index++;
-                int row_element_index = 0;
-                for (int rowindex = 0; rowindex < 2; ++rowindex) {
-                    for (char rowdof = 0; rowdof < ncomp; rowdof++) {
-                        row_element_index++;
-                        if (row_element_index > max_row_element_index) {
-                            break;
-                        }
-                        DOF rowcode = DOF::findByPosition(rowdof);
-                        auto codeIter = this->cellpositionByDOFS.find({rowcode, colcode});
-                        if (codeIter != this->cellpositionByDOFS.end() and colindex == 1 and row_element_index <= 2) {
-                            result.push_back(damping);
-                        } else {
-                            result.push_back(0.0);
-                        }
-                    }
-                }
-            }
-        }
-    } else {
-        throw logic_error("not yet implemented");
-    }
-	return result;
+	return asVector(damping, addRotationsIfNotPresent);
 }
 
 vector<double> ScalarSpring::asMassVector(bool addRotationsIfNotPresent) const {
-	vector<double> result;
-	char ncomp = (addRotationsIfNotPresent || hasRotations()) ? 6 : 3;
-
-    if (isDiagonal()) {
-        result.insert(result.end(), ncomp, mass);
-    } else if (isSymmetric()) {
-        int max_row_element_index = 0;
-        for (int colindex = 0; colindex < 2; ++colindex) {
-            for (char coldof = 0; coldof < ncomp; coldof++) {
-                max_row_element_index++;
-                int row_element_index = 0;
-                for (int rowindex = 0; rowindex < 2; ++rowindex) {
-                    for (char rowdof = 0; rowdof < ncomp; rowdof++) {
-                        row_element_index++;
-                        if (row_element_index > max_row_element_index) {
-                            break;
-                        }
-                        result.push_back(mass);
-                    }
-                }
-            }
-        }
-    } else {
-        throw logic_error("not yet implemented");
-    }
-	return result;
+	return asVector(mass, addRotationsIfNotPresent);
 }
 
 } /* namespace vega */
diff --git a/Abstract/Element.h b/Abstract/Element.h
index 61cae11..956398f 100644
--- a/Abstract/Element.h
+++ b/Abstract/Element.h
@@ -672,6 +672,7 @@ private:
     double stiffness = 0.0;
     double damping = 0.0;
     double mass = 0.0;
+    std::vector<double> asVector(const double value, bool addRotationsIfNotPresent) const;
 public:
     ScalarSpring(Model&, int original_id = NO_ORIGINAL_ID, double stiffness = 0.0, double damping = 0.0, double mass = 0.0);
     double getStiffness() const;
@@ -686,9 +687,7 @@ public:
     bool hasMass() const override;
 	bool hasTranslations() const override;
 	bool hasRotations() const override;
-	bool isDiagonal() const override {
-	    return true;
-	}
+	bool isDiagonal() const override;
 	bool isSymmetric() const override {
 	    return true;
 	}
-- 
2.43.0


From 7e79ab1e0fa7ee6612e13b23c1723d9f6217f33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:36 +0000
Subject: [PATCH 65/80] fix: PBUSH was written with a field before K

---
 Nastran/NastranWriter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 955f8e2..27c9855 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -977,12 +977,11 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
         }
         Line pbush("PBUSH");
         pbush.add(segment->bestId());
-        pbush.add(0); // CID
         pbush.add("K");
         for (const DOF dof: DOFS::ALL_DOFS) {
             pbush.add(segment->findStiffness(dof, dof));
         }
-        pbush.add("");
+        pbush.add(""); // the next flag is in field 3 of the continuation
         pbush.add("B");
         for (const DOF dof: DOFS::ALL_DOFS) {
             pbush.add(segment->findDamping(dof, dof));
-- 
2.43.0


From f7a9ed47307736b6d134702da0c4f81850f426df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:36 +0000
Subject: [PATCH 66/80] fix: Nastran scalar springs are written as CELAS2

---
 Nastran/NastranWriter.cpp | 21 +++++++++++++++++++++
 Nastran/NastranWriter.h   |  1 +
 2 files changed, 22 insertions(+)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 27c9855..593b48d 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -242,12 +242,33 @@ void NastranWriter::writeSOL(const Model& model, ofstream& out) const
 	firstAnalysis->markAsWritten();
 }
 
+void NastranWriter::writeScalarSprings(const Model& model, const ScalarSpring& springs, ofstream& out) const {
+	for (const auto& kv : springs.getCellPositionByDOFS()) {
+		for (const pos_t cellPosition : kv.second) {
+			const Cell& cell = model.mesh.findCell(cellPosition);
+			const bool damper = springs.hasDamping() and not springs.hasStiffness();
+			Line line(damper ? "CDAMP2" : "CELAS2");
+			line.add(cell.id).add(damper ? springs.getDamping() : springs.getStiffness());
+			line.add(cell.nodeIds[0]).add(DOFS(kv.first.first)).add(cell.nodeIds[1]).add(DOFS(kv.first.second));
+			if (springs.hasDamping() and not damper) {
+				line.add(springs.getDamping());
+			}
+			out << line;
+		}
+	}
+}
+
 void NastranWriter::writeCells(const Model& model, ofstream& out) const
 		{
 	for (const auto& elementSet : model.elementSets) {
 		if (elementSet->isMatrixElement()) {
 			continue;
 		}
+		if (elementSet->type == ElementSet::Type::SCALAR_SPRING) {
+			writeScalarSprings(model, *static_pointer_cast<const ScalarSpring>(elementSet), out);
+			elementSet->markAsWritten();
+			continue;
+		}
 		for (const pos_t cellPosition : elementSet->cellPositions()) {
             const Cell& cell = model.mesh.findCell(cellPosition);
 			string keyword;
diff --git a/Nastran/NastranWriter.h b/Nastran/NastranWriter.h
index 30d3cbc..d6fbbb8 100644
--- a/Nastran/NastranWriter.h
+++ b/Nastran/NastranWriter.h
@@ -66,6 +66,7 @@ private:
 	}
 	void writeSOL(const Model& model, std::ofstream& out) const;
 	void writeCells(const Model& model, std::ofstream& out) const;
+	void writeScalarSprings(const Model& model, const ScalarSpring& springs, std::ofstream& out) const;
 	void writeNodes(const Model& model, std::ofstream& out) const;
 	void writeMaterials(const Model& model, std::ofstream& out) const;
 	void writeConstraints(const Model& model, std::ofstream& out) const;
-- 
2.43.0


From 398f79b35b11537fc6d6d9add65a242f19b7dd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:36 +0000
Subject: [PATCH 67/80] fix: Nastran CONM2 is written with its offset and
 inertia

---
 Nastran/NastranWriter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Nastran/NastranWriter.cpp b/Nastran/NastranWriter.cpp
index 593b48d..770ba55 100644
--- a/Nastran/NastranWriter.cpp
+++ b/Nastran/NastranWriter.cpp
@@ -987,6 +987,14 @@ void NastranWriter::writeElements(const Model& model, ofstream& out) const
             conm2.add(model.mesh.findNodeId(nodePosition));
             conm2.add(0); // CID
             conm2.add(mass->getMass());
+            if (mass->hasRotations()) {
+                const double multiplier = mass->getMassMultiplier();
+                conm2.add(mass->ex).add(mass->ey).add(mass->ez);
+                conm2.add();
+                conm2.add(mass->ixx * multiplier);
+                conm2.add(-mass->ixy * multiplier).add(mass->iyy * multiplier);
+                conm2.add(-mass->ixz * multiplier).add(-mass->iyz * multiplier).add(mass->izz * multiplier);
+            }
             out << conm2;
             elementSet->markAsWritten();
         }
-- 
2.43.0


From c8eb2ebf54c850d1b05560a0d03316c86b7a5ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:03 +0000
Subject: [PATCH 68/80] fix: Systus counts the elements it writes

---
 Systus/SystusDat.cpp    |  1 -
 Systus/SystusWriter.cpp | 20 ++++++++++++++------
 Systus/SystusWriter.h   |  3 ++-
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/Systus/SystusDat.cpp b/Systus/SystusDat.cpp
index a92d28f..dc5c2c7 100644
--- a/Systus/SystusDat.cpp
+++ b/Systus/SystusDat.cpp
@@ -257,7 +257,6 @@ int SystusWriter::writeDynaModalAnalysis(ostream& out, const SystusModel& systus
 
     // Harmonic part
     const size_t nbNodes = systusModel.model.mesh.countNodes();
-    const size_t nbElements = systusModel.model.mesh.countCells();
     out << "# MODAL DYNAMIC ANALYSIS"<<endl;
     out << "DYNAMIC" << endl;
     out << "# IF THERE IS NNN RIGID BODY MODES, ADD 'RIGID NNN' TO THE NEXT LINE."<<endl;
diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index e30dfca..de7e1f0 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -2478,13 +2478,20 @@ void SystusWriter::translate(const SystusModel &systusModel, const int idSubcase
 
 void SystusWriter::writeAsc(const SystusModel &systusModel, const int idSubcase, ostream& out) {
 
+    // Cells of masses and of other subcases are not elements: only the written ones are counted
+    ostringstream elements;
+    elements.precision(DBL_DIG);
+    nbElements = writeElements(systusModel, idSubcase, elements);
+
     writeHeader(systusModel, out);
 
     writeInformations(systusModel, idSubcase, out);
 
     writeNodes(systusModel, out);
 
-    writeElements(systusModel, idSubcase, out);
+    out << "BEGIN_ELEMENTS " << nbElements << endl;
+    out << elements.str();
+    out << "END_ELEMENTS" << endl;
 
     writeGroups(systusModel, out);
 
@@ -2535,7 +2542,7 @@ void SystusWriter::writeHeader(const SystusModel& systusModel, ostream& out) {
     out << "1VSD 0 121126 133214 121126 133214 " << endl;
     out << systusModel.getName().substr(0, 20) << endl; //should be less than 24
     out << " 100000 " << systusOption << " " << systusModel.model.mesh.countNodes() << " ";
-    out << systusModel.model.mesh.countCells() << " ";
+    out << nbElements << " ";
     int kppr = static_cast<int>(localLoadingListName.size()) ; // KPPR: Number of loads
     out << kppr << " ";
 
@@ -2586,7 +2593,7 @@ void SystusWriter::writeInformations(const SystusModel &systusModel, int idSubca
     int lcode[40]={0};
     lcode[0] = static_cast<int>(localLoadingListName.size()); // KPPR: Number of loads
     lcode[1] = static_cast<int>(systusModel.model.mesh.countNodes());     // NMAX: Number of nodes
-    lcode[3] = static_cast<int>(systusModel.model.mesh.countCells());     // MMAXI: Number of elements
+    lcode[3] = static_cast<int>(nbElements);     // MMAXI: Number of elements
     lcode[5] = 0;                                         // JMAT: Number of material couples, will be computed in "nbmaterials" in the writeMaterials method
     lcode[6] = static_cast<int>(lists.size());            // JREP: Number of lists
     lcode[7] = static_cast<int>(vectors.size());          // JVEC: Number of vectors.
@@ -2722,9 +2729,9 @@ void SystusWriter::writeElementLocalReferentiel(const SystusModel& systusModel,
 
 
 
-void SystusWriter::writeElements(const SystusModel& systusModel, const int idSubcase, ostream& out) {
+size_t SystusWriter::writeElements(const SystusModel& systusModel, const int idSubcase, ostream& out) {
     const Mesh& mesh = systusModel.model.mesh;
-    out << "BEGIN_ELEMENTS " << mesh.countCells() << endl;
+    size_t nbWritten = 0;
     for (const auto& elementSet : systusModel.model.elementSets) {
 
         if (systusModel.model.configuration.logLevel >= LogLevel::TRACE){
@@ -2891,10 +2898,11 @@ void SystusWriter::writeElements(const SystusModel& systusModel, const int idSub
                 out << " " << node;
             }
             out << endl;
+            nbWritten++;
         }
     }
 
-    out << "END_ELEMENTS" << endl;
+    return nbWritten;
 }
 
 // TODO: Add an option to only write the User groups, and not all vega-created groups.
diff --git a/Systus/SystusWriter.h b/Systus/SystusWriter.h
index 85c516a..ef3e7af 100644
--- a/Systus/SystusWriter.h
+++ b/Systus/SystusWriter.h
@@ -95,6 +95,7 @@ private:
     char dofCode;
     DOFS availableDOFS;
     int  nbDOFS;
+    size_t nbElements = 0; /**< Number of elements of the current ASC file **/
     double maxYoungModulus = Globals::UNAVAILABLE_DOUBLE;
     static int auto_part_id;                 /**< Next available number for Systus Part ID **/
     static const int DampingAccessId;        /**< Access Id for the Damping Matrices file (Element X9XX type 0)**/
@@ -384,7 +385,7 @@ private:
      *  Depending of the type of element, some angles may be dismissed.
      **/
     void writeElementLocalReferentiel(const SystusModel& systusModel, const int dim, const int celltype, const std::vector<int> nodes, const pos_t cpos, std::ostream& out);
-    void writeElements(const SystusModel&, const int idSubcase, std::ostream&);
+    size_t writeElements(const SystusModel&, const int idSubcase, std::ostream&);
     /**
      * Write the Cells and Nodes groups in ASC format.
      *
-- 
2.43.0


From f485a56f70b14423cc3af05f835b7c9b8d9e9424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:59 +0000
Subject: [PATCH 69/80] fix: plies of PCOMP default to the previous ply, and Z0
 is the bottom of the laminate

---
 Nastran/NastranParser.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/Nastran/NastranParser.cpp b/Nastran/NastranParser.cpp
index b4303dd..552bec2 100644
--- a/Nastran/NastranParser.cpp
+++ b/Nastran/NastranParser.cpp
@@ -2641,18 +2641,21 @@ void NastranParser::parsePCOMP(NastranTokenizer& tok, Model& model) {
     double theta1 = tok.nextDouble(true, 0.0);
     tok.skip(1); // SOUT1
     composite->addLayer(Reference<Material>(Material::Type::MATERIAL,mid1), t1, theta1);
+    int lastMid = mid1;
+    double lastThickness = t1;
     while(not tok.isNextEmpty(4) and not tok.isEmptyUntilNextKeyword()) {
-        int midn = tok.nextInt(true, mid1);
+        int midn = tok.nextInt(true, lastMid); // the default is the last defined one
         composite->assignMaterial(Reference<Material>(Material::Type::MATERIAL,midn));
-        double tn = tok.nextDouble(true, t1);
-        double thetan = tok.nextDouble(true, theta1);
+        double tn = tok.nextDouble(true, lastThickness); // the default is the last defined one
+        double thetan = tok.nextDouble(true, 0.0);
         tok.skip(1); // SOUTn
         composite->addLayer(Reference<Material>(Material::Type::MATERIAL,midn), tn, thetan);
+        lastMid = midn;
+        lastThickness = tn;
     }
-    if (is_equal(z0, Globals::UNAVAILABLE_DOUBLE)) {
-        composite->offset = composite->getTotalThickness() / 2.0; // default -1/2 element thickness
-    } else {
-        composite->offset = z0;
+    // Z0 is the position of the bottom of the laminate, its default centers the laminate on the nodes
+    if (not is_equal(z0, Globals::UNAVAILABLE_DOUBLE)) {
+        composite->offset = z0 + composite->getTotalThickness() / 2.0;
     }
     composite->setInputContext(tok.getInputContext());
     composite->add(*getOrCreateCellGroup(pid, model, "PCOMP"));
-- 
2.43.0


From 755cbd58b49c3efbed51f1d84ba872e4bd11c4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:59 +0000
Subject: [PATCH 70/80] fix: WTMASS was applied twice to isotropic layers

---
 Abstract/Model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index 5a47699..c75ca22 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -2230,7 +2230,7 @@ void Model::replaceIsotropicMaterialsInComposites() {
                                                                    elasticNature->getG(),
                                                                    elasticNature->getG(),
                                                                    elasticNature->getG(),
-                                                                   elasticNature->getRho()));
+                                                                   elasticNature->getRhoAsForceDensity()));
                 this->add(orthoMaterial);
                 replacedMaterials[material->getReference()] = orthoMaterial;
                 layer->setMaterial(orthoMaterial);
-- 
2.43.0


From da430daed1ade20397dc5da4819400f4356d06ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:59 +0000
Subject: [PATCH 71/80] fix: ELAS_ORTH has YT as well as YC

---
 Aster/AsterWriter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 2c6b446..32f30ba 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -1006,6 +1006,9 @@ void AsterWriter::writeMaterials() {
 			if (is_defined(orthoNature->getXt())) {
 			    comm_file_ofs << "                         XT=" << orthoNature->getXt() << "," << endl;
 			}
+			if (is_defined(orthoNature->getYt())) {
+			    comm_file_ofs << "                         YT=" << orthoNature->getYt() << "," << endl;
+			}
 			if (is_defined(orthoNature->getYc())) {
 			    comm_file_ofs << "                         YC=" << orthoNature->getYc() << "," << endl;
 			}
-- 
2.43.0


From 5c9649fd90240501b98f213440956b7ee31b80f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:07 +0000
Subject: [PATCH 72/80] fix: every buckling subcase is preloaded by the static
 one

---
 Abstract/Analysis.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Abstract/Analysis.cpp b/Abstract/Analysis.cpp
index ce7154c..d973d05 100644
--- a/Abstract/Analysis.cpp
+++ b/Abstract/Analysis.cpp
@@ -664,7 +664,12 @@ shared_ptr<Analysis> LinearBuckling::getStaticSubAnalysis() const noexcept {
     if (staticSubAnalysisRef != nullptr) {
         return model.find(*staticSubAnalysisRef);
     } else {
-        return previousAnalysis;
+        // By default the preload is the last static subcase
+        shared_ptr<Analysis> staticAnalysis = previousAnalysis;
+        while (staticAnalysis != nullptr and staticAnalysis->type == Analysis::Type::LINEAR_BUCKLING) {
+            staticAnalysis = staticAnalysis->previousAnalysis;
+        }
+        return staticAnalysis;
     }
 }
 
-- 
2.43.0


From fb405ab52028af2a1a73db6e0b66eb70fbeed021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:58 +0000
Subject: [PATCH 73/80] fix: the axes of a displacement frame given in another
 frame were not turned to the basic one

---
 Abstract/CoordinateSystem.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Abstract/CoordinateSystem.cpp b/Abstract/CoordinateSystem.cpp
index 280748e..5de31e2 100644
--- a/Abstract/CoordinateSystem.cpp
+++ b/Abstract/CoordinateSystem.cpp
@@ -76,9 +76,11 @@ VectorialValue CoordinateSystem::getEulerAnglesIntrinsicZYX(const CoordinateSyst
         EY= this->ey;
         EZ= this->ez;
     }else{
-        EX= vectorToGlobal(this->ex);
-        EY= vectorToGlobal(this->ey);
-        EZ= vectorToGlobal(this->ez);
+        // the axes are expressed in the reference coordinate system
+        const auto& coordSystem = mesh.findCoordinateSystem(rcs);
+        EX= coordSystem->vectorToGlobal(this->ex);
+        EY= coordSystem->vectorToGlobal(this->ey);
+        EZ= coordSystem->vectorToGlobal(this->ez);
     }
     if (cs != nullptr){
         EX = cs->vectorToLocal(EX);
@@ -262,7 +264,7 @@ unique_ptr<CoordinateSystem> CylindricalCoordinateSystem::clone() const {
 }
 
 VectorialValue CylindricalCoordinateSystem::getLocalEulerAnglesIntrinsicZYX(const CoordinateSystem *cs) const {
-    CartesianCoordinateSystem localCS(this->mesh, VectorialValue(0,0,0), this->ur, this->utheta);
+    CartesianCoordinateSystem localCS(this->mesh, VectorialValue(0,0,0), this->ur, this->utheta, this->rcs);
     return localCS.getEulerAnglesIntrinsicZYX(cs);
 }
 
-- 
2.43.0


From cf0e640c962e94e709e4069dafbe98131e684c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:29 +0000
Subject: [PATCH 74/80] fix: the terms of a multi-point constraint follow the
 displacement frames of the nodes

---
 Abstract/Constraint.cpp | 17 +++++++++++++++++
 Abstract/Constraint.h   |  2 ++
 Abstract/Model.cpp      |  5 +++++
 3 files changed, 24 insertions(+)

diff --git a/Abstract/Constraint.cpp b/Abstract/Constraint.cpp
index e46fc35..88e9ff6 100644
--- a/Abstract/Constraint.cpp
+++ b/Abstract/Constraint.cpp
@@ -549,6 +549,23 @@ void LinearMultiplePointConstraint::addParticipation(int nodeId, double dx, doub
         dofCoefsByNodePosition[nodePosition] += DOFCoefs(dx, dy, dz, rx, ry, rz);
 }
 
+void LinearMultiplePointConstraint::emulateLocalDisplacementConstraint() {
+    for (auto& it : dofCoefsByNodePosition) {
+        const Node& node = model.mesh.findNode(it.first);
+        if (node.displacementCS == CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID) {
+            continue;
+        }
+        const auto& coordSystem = model.mesh.getCoordinateSystemByPosition(node.displacementCS);
+        coordSystem->updateLocalBase(VectorialValue(node.x, node.y, node.z));
+        const DOFCoefs& local = it.second;
+        const VectorialValue& translation = coordSystem->vectorToGlobal(
+                VectorialValue(local.getValue(DOF::DX), local.getValue(DOF::DY), local.getValue(DOF::DZ)));
+        const VectorialValue& rotation = coordSystem->vectorToGlobal(
+                VectorialValue(local.getValue(DOF::RX), local.getValue(DOF::RY), local.getValue(DOF::RZ)));
+        it.second = DOFCoefs(translation.x(), translation.y(), translation.z(), rotation.x(), rotation.y(), rotation.z());
+    }
+}
+
 set<pos_t> LinearMultiplePointConstraint::nodePositions() const {
     set<pos_t> result;
     for (const auto& it : dofCoefsByNodePosition) {
diff --git a/Abstract/Constraint.h b/Abstract/Constraint.h
index 910cb12..69c991b 100644
--- a/Abstract/Constraint.h
+++ b/Abstract/Constraint.h
@@ -222,6 +222,8 @@ public:
     DOFS getDOFSForNode(const pos_t nodePosition) const override;
     void removeNodePosition(const pos_t nodePosition) override;
     bool ineffective() const override;
+    /** Express in the global system the terms of nodes that have a local displacement system. */
+    void emulateLocalDisplacementConstraint();
 };
 
 class Contact: public Constraint {
diff --git a/Abstract/Model.cpp b/Abstract/Model.cpp
index c75ca22..ace59e7 100644
--- a/Abstract/Model.cpp
+++ b/Abstract/Model.cpp
@@ -897,6 +897,11 @@ void Model::generateSkin() {
 
 void Model::emulateLocalDisplacementConstraint() {
 
+    for (const auto& constraint : constraints.filter(Constraint::Type::LMPC)) {
+        const auto& lmpc = static_pointer_cast<LinearMultiplePointConstraint>(constraint);
+        lmpc->emulateLocalDisplacementConstraint();
+    }
+
     for (const auto& constraint : constraints.filter(Constraint::Type::SPC)) {
         const auto& spc = static_pointer_cast<SinglePointConstraint>(   constraint);
         spc->emulateLocalDisplacementConstraint();
-- 
2.43.0


From 6c06ede73e1ed7a7527595fdcb7e8b8fa55ecfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:34 +0000
Subject: [PATCH 75/80] fix: the displacement checks of merged Systus subcases
 all read the results of the first one

---
 Systus/SystusWriter.cpp | 15 ++++++++++++---
 Systus/SystusWriter.h   |  2 +-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/Systus/SystusWriter.cpp b/Systus/SystusWriter.cpp
index de7e1f0..28268cb 100644
--- a/Systus/SystusWriter.cpp
+++ b/Systus/SystusWriter.cpp
@@ -3226,6 +3226,15 @@ void SystusWriter::writeDat(const SystusModel& systusModel, const vega::Configur
             handleWritingError("Analysis " + to_string(idAnalysis) + " not found.");
         }
         const auto& assertions = analysis->getAssertions();
+        // Static analyses sharing the same file: the results are numbered like the loads
+        int resultNumber = 1;
+        const auto& loadingIds = localLoadingIdByLoadsetIdByAnalysisId.find(idAnalysis);
+        if (loadingIds != localLoadingIdByLoadsetIdByAnalysisId.end() and not loadingIds->second.empty()) {
+            resultNumber = loadingIds->second.begin()->second;
+            for (const auto& loadingId : loadingIds->second) {
+                resultNumber = min(resultNumber, loadingId.second);
+            }
+        }
         if (not assertions.empty()) {
             out << "LANGAGE" << endl;
             out << "variable displacement[" << nbDOFS << "],"
@@ -3236,7 +3245,7 @@ void SystusWriter::writeDat(const SystusModel& systusModel, const vega::Configur
             for (const auto& assertion : assertions) {
                 switch (assertion->type) {
                 case Objective::Type::NODAL_DISPLACEMENT_ASSERTION: {
-                    writeNodalDisplacementAssertion(*assertion, out);
+                    writeNodalDisplacementAssertion(*assertion, resultNumber, out);
                     assertion->markAsWritten();
                     break;
                 }
@@ -3283,7 +3292,7 @@ void SystusWriter::writeDat(const SystusModel& systusModel, const vega::Configur
 
 
 
-void SystusWriter::writeNodalDisplacementAssertion(Assertion& assertion, ostream& out) {
+void SystusWriter::writeNodalDisplacementAssertion(Assertion& assertion, const int resultNumber, ostream& out) {
     NodalDisplacementAssertion& nda = dynamic_cast<NodalDisplacementAssertion&>(assertion);
 //    if (systusOption == SystusOption::CONTINUOUS and nda.dof.isRotation) {
 //        return;
@@ -3294,7 +3303,7 @@ void SystusWriter::writeNodalDisplacementAssertion(Assertion& assertion, ostream
     int dofPos = nda.dof.position + 1;
 
     out << scientific;
-    out << "displacement = node_displacement(1" << "," << nodeId << ");" << endl;
+    out << "displacement = node_displacement(" << resultNumber << "," << nodeId << ");" << endl;
     out << "diff = abs((displacement[" << dofPos << "]-(" << nda.value << "))/("
             << (abs(nda.value) >= 1e-9 ? nda.value : 1.) << "));" << endl;
 
diff --git a/Systus/SystusWriter.h b/Systus/SystusWriter.h
index ef3e7af..b493bce 100644
--- a/Systus/SystusWriter.h
+++ b/Systus/SystusWriter.h
@@ -418,7 +418,7 @@ private:
     void writeVectors(std::ostream&);
     void writeDat(const SystusModel&, const ConfigurationParameters &, const int idSubcase, std::ostream&);
 
-    void writeNodalDisplacementAssertion(Assertion& assertion, std::ostream& out);
+    void writeNodalDisplacementAssertion(Assertion& assertion, const int resultNumber, std::ostream& out);
     void writeNodalComplexDisplacementAssertion(Assertion& assertion, std::ostream& out);
     void writeFrequencyAssertion(Assertion& assertion, std::ostream& out);
     void writeNodalForceVector(const SystusModel& systusModel, const std::shared_ptr<NodalForce>& nodalForce, const int idLoadCase, systus_ascid_t& vectorId);
-- 
2.43.0


From dcbe358605ac3ba7b6900b461322eef85ced751c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:26 +0000
Subject: [PATCH 76/80] fix: a scalar point ends the displacements read from an
 f06 file

---
 ResultReaders/F06Parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ResultReaders/F06Parser.cpp b/ResultReaders/F06Parser.cpp
index 54c5288..c362aee 100644
--- a/ResultReaders/F06Parser.cpp
+++ b/ResultReaders/F06Parser.cpp
@@ -62,6 +62,8 @@ int F06Parser::readDisplacementSection(int currentSubCase, Model& model,
 				vector<string> tokens;
 				copy(istream_iterator<string>(istringLine), istream_iterator<string>(),
 						back_inserter(tokens));
+				if (tokens.size() > 2 and tokens[1] == "S")
+					continue; // scalar points have a single component, and are not checked
 				if (tokens.size() != 8)
 					break;
 
-- 
2.43.0


From 9c3695dfdac6bea0a602c3717d910007b9fac5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:26 +0000
Subject: [PATCH 77/80] fix: a subcase of the result file that the model does
 not have crashes the translation

---
 ResultReaders/F06Parser.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/ResultReaders/F06Parser.cpp b/ResultReaders/F06Parser.cpp
index c362aee..6ef702d 100644
--- a/ResultReaders/F06Parser.cpp
+++ b/ResultReaders/F06Parser.cpp
@@ -373,8 +373,9 @@ int F06Parser::addAssertionsToModel(int currentSubcase, double loadStep, Model &
 	shared_ptr<Analysis> analysis;
 	if (currentSubcase != NO_SUBCASE) {
 		analysis = model.analyses.find(currentSubcase);
-		analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubcase});
-		if (analysis == nullptr and model.configuration.logLevel >= LogLevel::INFO) {
+		if (analysis != nullptr) {
+			analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubcase});
+		} else if (model.configuration.logLevel >= LogLevel::INFO) {
 			cout << "Could not find subcase : " << currentSubcase << " in model." << endl;
 		}
 	} else if (not model.analyses.empty()) {
@@ -407,8 +408,9 @@ int F06Parser::addFrequencyAssertionsToModel(int currentSubCase, Model& model,
             cout << "Cannot find analysis:" << currentSubCase << " in model, assertion are incoherents." << endl;
             return nextSubcase;
 		}
-		analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubCase});
-		if (analysis == nullptr and model.configuration.logLevel >= LogLevel::INFO) {
+		if (analysis != nullptr) {
+			analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubCase});
+		} else if (model.configuration.logLevel >= LogLevel::INFO) {
 			cout << "Could not find subcase : " << currentSubCase << " in model." << endl;
 		}
     } else if (model.analyses.empty()) {
@@ -443,15 +445,16 @@ int F06Parser::addComplexAssertionsToModel(int currentSubCase, double frequency,
 	shared_ptr<Analysis> analysis;
 	if (currentSubCase != NO_SUBCASE) {
 		analysis = model.analyses.find(currentSubCase);
-		analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubCase});
-		if (analysis == nullptr and model.configuration.logLevel >= LogLevel::INFO) {
+		if (analysis != nullptr) {
+			analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubCase});
+		} else if (model.configuration.logLevel >= LogLevel::INFO) {
 			cout << "Could not find subcase : " << currentSubCase << " in model." << endl;
 		}
-	} else {
+	} else if (not model.analyses.empty()) {
 		// LD If no subcase indicated, the first one is used.
 		// FIXME: what if the model don't have an analysis and the default one is
 		// created inside the finish()? GC
-		analysis = *model.analyses.begin();
+		analysis = model.analyses.first();
 	}
 	for (const auto& assertion : assertions) {
 		if (analysis != nullptr) {
@@ -476,8 +479,9 @@ int F06Parser::addVonMisesAssertionsToModel(int currentSubcase, Model &model,
 	shared_ptr<Analysis> analysis;
 	if (currentSubcase != NO_SUBCASE) {
 		analysis = model.analyses.find(currentSubcase);
-		analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubcase});
-		if (analysis == nullptr and model.configuration.logLevel >= LogLevel::INFO) {
+		if (analysis != nullptr) {
+			analysis->add(Reference<ObjectiveSet>{ObjectiveSet::Type::ASSERTION, currentSubcase});
+		} else if (model.configuration.logLevel >= LogLevel::INFO) {
 			cout << "Could not find subcase : " << currentSubcase << " in model." << endl;
 		}
 	} else if (not model.analyses.empty()) {
-- 
2.43.0


From 2eecb47ec409cb69894f8d5f8958c5ad3f9fc94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:26 +0000
Subject: [PATCH 78/80] fix: complex displacements of an f06 file given along
 the axes of a grid point are checked along the basic ones

---
 ResultReaders/F06Parser.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/ResultReaders/F06Parser.cpp b/ResultReaders/F06Parser.cpp
index 6ef702d..a820c6b 100644
--- a/ResultReaders/F06Parser.cpp
+++ b/ResultReaders/F06Parser.cpp
@@ -234,11 +234,29 @@ int F06Parser::readComplexDisplacementSection(int currentSubCase, Model& model,
             } else {
                 objectiveSet = model.getOrCreateObjectiveSet(currentSubCase, ObjectiveSet::Type::ASSERTION);
             }
+			VectorialValue parts[2][2]; // real and imaginary parts of the translation and of the rotation
+			for (int part = 0; part < 2; part++) {
+				parts[part][0] = VectorialValue(stod(tokens[3 + 6*part]), stod(tokens[4 + 6*part]), stod(tokens[5 + 6*part]));
+				parts[part][1] = VectorialValue(stod(tokens[6 + 6*part]), stod(tokens[7 + 6*part]), stod(tokens[8 + 6*part]));
+			}
+			const Node& node = model.mesh.findNode(model.mesh.findNodePosition(nodeId));
+			if (node.displacementCS != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID) {
+				const auto& coordSystem = model.mesh.getCoordinateSystemByPosition(node.displacementCS);
+				coordSystem->updateLocalBase(VectorialValue(node.x, node.y, node.z));
+				for (auto& part : parts) {
+					part[0] = coordSystem->vectorToGlobal(part[0]);
+					part[1] = coordSystem->vectorToGlobal(part[1]);
+				}
+			}
+			const double reals[6] = {parts[0][0].x(), parts[0][0].y(), parts[0][0].z(),
+					parts[0][1].x(), parts[0][1].y(), parts[0][1].z()};
+			const double imags[6] = {parts[1][0].x(), parts[1][0].y(), parts[1][0].z(),
+					parts[1][1].x(), parts[1][1].y(), parts[1][1].z()};
 			for (dof_int i = 0; i < 6; i++) {
-				double real = stod(tokens[3 + i]);
+				double real = reals[i];
 				if (abs(real) < 1e-12)
 					real = 0;
-				double imag = stod(tokens[9 + i]);
+				double imag = imags[i];
 				if (abs(imag) < 1e-12)
 					imag = 0;
 				complex<double> value(real, imag);
-- 
2.43.0


From 341256927979e6837ddd2e9809cad0cea2fa36fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:26 +0000
Subject: [PATCH 79/80] fix: complex displacements of an f06 file given by
 magnitude and phase are read as real and imaginary parts

---
 ResultReaders/F06Parser.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/ResultReaders/F06Parser.cpp b/ResultReaders/F06Parser.cpp
index a820c6b..8d9e5b2 100644
--- a/ResultReaders/F06Parser.cpp
+++ b/ResultReaders/F06Parser.cpp
@@ -196,9 +196,12 @@ int F06Parser::readComplexDisplacementSection(int currentSubCase, Model& model,
 		vector<shared_ptr<Assertion>>& assertions, double frequency) {
 	string currentLine;
 	int subcase_id = NO_SUBCASE;
+	bool polar = false;
 	try {
 
 		while (this->readLine(istream, currentLine)) {
+			if (currentLine.find("(MAGNITUDE/PHASE)") != string::npos)
+				polar = true;
 			size_t orderPosition =
 					currentLine.find(
 							"POINT ID.   TYPE          T1             T2             T3             R1             R2             R3");
@@ -234,10 +237,23 @@ int F06Parser::readComplexDisplacementSection(int currentSubCase, Model& model,
             } else {
                 objectiveSet = model.getOrCreateObjectiveSet(currentSubCase, ObjectiveSet::Type::ASSERTION);
             }
+			vector<double> numbers;
+			for (size_t i = 3; i < tokens.size(); i++) {
+				numbers.push_back(stod(tokens[i]));
+			}
+			if (polar) {
+				// magnitude and phase in degrees
+				for (size_t i = 0; i < 6; i++) {
+					const double magnitude = numbers[i];
+					const double phase = numbers[6 + i] * M_PI / 180;
+					numbers[i] = magnitude * cos(phase);
+					numbers[6 + i] = magnitude * sin(phase);
+				}
+			}
 			VectorialValue parts[2][2]; // real and imaginary parts of the translation and of the rotation
 			for (int part = 0; part < 2; part++) {
-				parts[part][0] = VectorialValue(stod(tokens[3 + 6*part]), stod(tokens[4 + 6*part]), stod(tokens[5 + 6*part]));
-				parts[part][1] = VectorialValue(stod(tokens[6 + 6*part]), stod(tokens[7 + 6*part]), stod(tokens[8 + 6*part]));
+				parts[part][0] = VectorialValue(numbers[6*part], numbers[6*part + 1], numbers[6*part + 2]);
+				parts[part][1] = VectorialValue(numbers[6*part + 3], numbers[6*part + 4], numbers[6*part + 5]);
 			}
 			const Node& node = model.mesh.findNode(model.mesh.findNodePosition(nodeId));
 			if (node.displacementCS != CoordinateSystem::GLOBAL_COORDINATE_SYSTEM_ID) {
-- 
2.43.0


From 16421f5e4d5bd8598614a966dbd40196f1aa15b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:40 +0000
Subject: [PATCH 80/80] fix: an empty TEST_RESU is written when the cut-off
 frequencies exclude every mode of the result file

---
 Aster/AsterWriter.cpp | 23 ++++++++++++++++++-----
 Aster/AsterWriter.h   |  1 +
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/Aster/AsterWriter.cpp b/Aster/AsterWriter.cpp
index 32f30ba..eb5c6c4 100644
--- a/Aster/AsterWriter.cpp
+++ b/Aster/AsterWriter.cpp
@@ -566,7 +566,16 @@ void AsterWriter::writeAnalyses() {
         }
 
 		const auto& assertions = analysis->getAssertions();
-		if (not assertions.empty()) {
+		bool anyCheck = false; // All the frequencies may be excluded by the cut-offs
+		for (const auto& assertion : assertions) {
+			if (assertion->type == Objective::Type::FREQUENCY_ASSERTION and
+					isExcludedFrequency(analysis, dynamic_pointer_cast<FrequencyAssertion>(assertion))) {
+				assertion->markAsWritten();
+			} else {
+				anyCheck = true;
+			}
+		}
+		if (anyCheck) {
 			comm_file_ofs << "TEST_RESU(RESU = (" << endl;
 
 			for (const auto& assertion : assertions) {
@@ -3160,9 +3169,7 @@ void AsterWriter::writeNodalCellVonMisesAssertion(const shared_ptr<NodalCellVonM
     comm_file_ofs << "                     TOLE_MACHINE = (" << (relativeComparison ? ncvmisa->tolerance : 1e-5) << "," << 1e-5 << ")," << endl;
 }
 
-void AsterWriter::writeFrequencyAssertion(const shared_ptr<Analysis>& analysis, const shared_ptr<FrequencyAssertion>& frequencyAssertion) {
-    bool isBuckling = analysis->type == Analysis::Type::LINEAR_BUCKLING;
-
+bool AsterWriter::isExcludedFrequency(const shared_ptr<Analysis>& analysis, const shared_ptr<FrequencyAssertion>& frequencyAssertion) const {
     double lowFreq = 0;
     if (analysis->contains(ModelParameter::LOWER_CUTOFF_FREQUENCY)) {
         lowFreq = stod(analysis->getParameter(ModelParameter::LOWER_CUTOFF_FREQUENCY));
@@ -3172,7 +3179,13 @@ void AsterWriter::writeFrequencyAssertion(const shared_ptr<Analysis>& analysis,
     if (analysis->contains(ModelParameter::UPPER_CUTOFF_FREQUENCY)) {
         highFreq = stod(analysis->getParameter(ModelParameter::UPPER_CUTOFF_FREQUENCY));
     }
-    if (not isBuckling and (frequencyAssertion->cycles < lowFreq or frequencyAssertion->cycles > highFreq)) {
+    return analysis->type != Analysis::Type::LINEAR_BUCKLING and (frequencyAssertion->cycles < lowFreq or frequencyAssertion->cycles > highFreq);
+}
+
+void AsterWriter::writeFrequencyAssertion(const shared_ptr<Analysis>& analysis, const shared_ptr<FrequencyAssertion>& frequencyAssertion) {
+    bool isBuckling = analysis->type == Analysis::Type::LINEAR_BUCKLING;
+
+    if (isExcludedFrequency(analysis, frequencyAssertion)) {
         return; // Cannot check this frequency: it will be excluded by results
     }
     string resuName;
diff --git a/Aster/AsterWriter.h b/Aster/AsterWriter.h
index cda119c..741f0b5 100644
--- a/Aster/AsterWriter.h
+++ b/Aster/AsterWriter.h
@@ -71,6 +71,7 @@ class AsterWriter final : public Writer {
 	void writeNodalDisplacementAssertion(const std::shared_ptr<NodalDisplacementAssertion>&);
 	void writeNodalComplexDisplacementAssertion(const std::shared_ptr<NodalComplexDisplacementAssertion>&);
 	void writeNodalCellVonMisesAssertion(const std::shared_ptr<NodalCellVonMisesAssertion>&);
+	bool isExcludedFrequency(const std::shared_ptr<Analysis>&, const std::shared_ptr<FrequencyAssertion>&) const;
 	void writeFrequencyAssertion(const std::shared_ptr<Analysis>&, const std::shared_ptr<FrequencyAssertion>&);
 	void writeLoadset(const std::shared_ptr<LoadSet>&);
 	std::string writeValue(const std::shared_ptr<NamedValue>&);
-- 
2.43.0

