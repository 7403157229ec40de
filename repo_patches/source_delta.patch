From af8914046728cce51b8287891d4724762034692f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:36 +0000
Subject: [PATCH 01/38] fix: ranks without cells join the bandwidth reductions
 of the local fill ordering

ObtainLocalFactFillOrdering returned early on a rank that owns no cell while the
other ranks entered Allreduce (ordering codes 3 and 4), which hangs the job.
---
 src/Geom/Mesh_Serial_Partition.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Geom/Mesh_Serial_Partition.cpp b/src/Geom/Mesh_Serial_Partition.cpp
index 4f3cc95..93d02d5 100644
--- a/src/Geom/Mesh_Serial_Partition.cpp
+++ b/src/Geom/Mesh_Serial_Partition.cpp
@@ -228,8 +228,7 @@ namespace DNDS::Geom
         cell2cellFaceVLocal = this->GetCell2CellFaceVLocal();
         auto &localFillOrderingNew2Old = symLU.localFillOrderingNew2Old;
         auto &localFillOrderingOld2New = symLU.localFillOrderingOld2New;
-        if (!this->NumCell())
-            return;
+        // a rank without cells has nothing to reorder, but still has to join the reductions below
         if (control.getOrderingCode() == -1)
         {
             localFillOrderingNew2Old.reserve(this->NumCell());
@@ -252,6 +251,7 @@ namespace DNDS::Geom
 
             if (mpi.rank == mRank)
                 log() << "UnstructuredMesh::ObtainLocalFactFillOrdering(): start calling metis" << std::endl;
+            if (this->NumCell())
             {
                 auto [New2Old, Old2New] = ReorderSerialAdj_Metis(cell2cellFaceVLocal);
                 localFillOrderingNew2Old = std::move(New2Old);
@@ -264,6 +264,7 @@ namespace DNDS::Geom
         {
             if (mpi.rank == mRank)
                 log() << "UnstructuredMesh::ObtainLocalFactFillOrdering(): start calling boost::minimum_degree_ordering" << std::endl;
+            if (this->NumCell())
             {
                 auto [New2Old, Old2New] = ReorderSerialAdj_BoostMMD(cell2cellFaceVLocal);
                 localFillOrderingNew2Old = std::move(New2Old);
@@ -277,6 +278,7 @@ namespace DNDS::Geom
             index bandWidthOld{0}, bandWidthNew{0};
             if (mpi.rank == mRank)
                 log() << "UnstructuredMesh::ObtainLocalFactFillOrdering(): start calling boost::cuthill_mckee_ordering" << std::endl;
+            if (this->NumCell())
             {
                 auto [New2Old, Old2New] = ReorderSerialAdj_BoostRCM(cell2cellFaceVLocal, bandWidthOld, bandWidthNew);
                 localFillOrderingNew2Old = std::move(New2Old);
@@ -295,6 +297,7 @@ namespace DNDS::Geom
             index bandWidthOld{0}, bandWidthNew{0};
             if (mpi.rank == mRank)
                 log() << "UnstructuredMesh::ObtainLocalFactFillOrdering(): start calling CorrectRCM::CuthillMcKeeOrdering" << std::endl;
+            if (this->NumCell())
             {
                 auto [New2Old, Old2New] = ReorderSerialAdj_CorrectRCM(cell2cellFaceVLocal, bandWidthOld, bandWidthNew);
                 localFillOrderingNew2Old = std::move(New2Old);
-- 
2.43.0


From 30720d194374081c53e97c3e4ff11b9fb1ed815a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:51 +0000
Subject: [PATCH 02/38] fix: scan the CGNS element offsets as index, not
 through a possibly 32-bit cgsize_t

---
 src/Geom/Mesh_Plts.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Geom/Mesh_Plts.cpp b/src/Geom/Mesh_Plts.cpp
index f9a2f21..13b0919 100644
--- a/src/Geom/Mesh_Plts.cpp
+++ b/src/Geom/Mesh_Plts.cpp
@@ -1511,7 +1511,8 @@ namespace DNDS::Geom
                 elementPolyData.at(bndCellOffsets[iCell + nBnd] + 1 + ic2n) = cell2node[iCell][ic2n] + 1; // global node index, 1 based
         }
         index bndCellOffsetsProcOffset{0};
-        MPI::Scan(&bndCellOffsets.back(), &bndCellOffsetsProcOffset, 1, DNDS_MPI_INDEX, MPI_SUM, mpi.comm);
+        index bndCellOffsetsLocal = bndCellOffsets.back(); // cgsize_t need not be as wide as index
+        MPI::Scan(&bndCellOffsetsLocal, &bndCellOffsetsProcOffset, 1, DNDS_MPI_INDEX, MPI_SUM, mpi.comm);
         index bndCellOffsetsGlobalMax{bndCellOffsetsProcOffset};
         MPI::Bcast(&bndCellOffsetsGlobalMax, 1, DNDS_MPI_INDEX, mpi.size - 1, mpi.comm);
         bndCellOffsetsProcOffset -= bndCellOffsets.back();
-- 
2.43.0


From 4d778b6235cfeacbb83b9d805ca1ca20b780c82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:34 +0000
Subject: [PATCH 03/38] fix: IsO1 and IsO2 answer for the whole mesh, not for
 the local cells

---
 src/Geom/Mesh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Geom/Mesh.cpp b/src/Geom/Mesh.cpp
index 4e9d3f8..19dff85 100644
--- a/src/Geom/Mesh.cpp
+++ b/src/Geom/Mesh.cpp
@@ -453,7 +453,7 @@ namespace DNDS::Geom
         }
         int hasBadAll;
         MPI::Allreduce(&hasBad, &hasBadAll, 1, MPI_INT, MPI_SUM, mpi.comm);
-        return hasBad == 0;
+        return hasBadAll == 0;
     }
 
     bool UnstructuredMesh::IsO2()
@@ -481,7 +481,7 @@ namespace DNDS::Geom
         }
         int hasBadAll;
         MPI::Allreduce(&hasBad, &hasBadAll, 1, MPI_INT, MPI_SUM, mpi.comm);
-        return hasBad == 0;
+        return hasBadAll == 0;
     }
 
     using tIndexMapFunc = std::function<index(index)>;
-- 
2.43.0


From 9b8aec01ce83c2e8d16cc04d42ea991aad4cf4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:34 +0000
Subject: [PATCH 04/38] fix: EvaluateRecNorm reduces the P = 3 maximum as a
 maximum

---
 src/Euler/EulerEvaluator.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Euler/EulerEvaluator.hxx b/src/Euler/EulerEvaluator.hxx
index 367e7aa..e126df1 100644
--- a/src/Euler/EulerEvaluator.hxx
+++ b/src/Euler/EulerEvaluator.hxx
@@ -1257,7 +1257,7 @@ namespace DNDS::Euler
             if (P < 3)
                 resc._v += rescCell;
         }
-        if (P > 3)
+        if (P >= 3)
             MPI::Allreduce(resc._v.data(), res.data(), res.size(), DNDS_MPI_REAL, MPI_MAX, u.father->getMPI().comm);
         else
         {
-- 
2.43.0


From dbf36570718c193c423fab36f4b39bc20268e777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:34 +0000
Subject: [PATCH 05/38] fix: UpdateSGSWithRec returns the increment sum of all
 ranks

---
 src/Euler/EulerEvaluator.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Euler/EulerEvaluator.hxx b/src/Euler/EulerEvaluator.hxx
index e126df1..97af305 100644
--- a/src/Euler/EulerEvaluator.hxx
+++ b/src/Euler/EulerEvaluator.hxx
@@ -665,6 +665,7 @@ namespace DNDS::Euler
         }
         TU sumIncAll(cnvars);
         MPI::Allreduce(sumInc.data(), sumIncAll.data(), sumInc.size(), DNDS_MPI_REAL, MPI_SUM, rhs.father->getMPI().comm);
+        sumInc = sumIncAll;
         DNDS_MPI_InsertCheck(u.father->getMPI(), "UpdateSGS -1");
     }
 
-- 
2.43.0


From d1a81f78fe441747041b4a5526d3f2f43d2c5f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:34 +0000
Subject: [PATCH 06/38] fix: LimitDisp counts the limited cells of a rank
 without its ghost cells

---
 src/Geom/Mesh_Elevation_SmoothSolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Geom/Mesh_Elevation_SmoothSolver.cpp b/src/Geom/Mesh_Elevation_SmoothSolver.cpp
index 295c2f9..08af368 100644
--- a/src/Geom/Mesh_Elevation_SmoothSolver.cpp
+++ b/src/Geom/Mesh_Elevation_SmoothSolver.cpp
@@ -1595,7 +1595,7 @@ namespace DNDS::Geom
                         if (iN < duCurLim.father->Size())
                             duCurLim[iN] = duCur[iN].array().sign() * duCurLim[iN].array().abs().min(duCur[iN].array().abs() * aLim);
                     minLim = std::min(minLim, aLim);
-                    if (aLim < 1)
+                    if (aLim < 1 && iCell < cell2node.father->Size())
                         nFix++;
                 }
 
-- 
2.43.0


From 7a9188635b4b1714b37b753b33e56c53ddda4f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:21 +0000
Subject: [PATCH 07/38] fix: boundary settings write back the integration
 option of far, outflow, inflow and symmetry boundaries

---
 src/Euler/EulerBC.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Euler/EulerBC.hpp b/src/Euler/EulerBC.hpp
index ea50ea4..bb7b18a 100644
--- a/src/Euler/EulerBC.hpp
+++ b/src/Euler/EulerBC.hpp
@@ -230,6 +230,7 @@ namespace DNDS::Euler
                     item["value"] = static_cast<TU_R>(bc.BCValues.at(i)); // force begin() and end() to be exposed
                     item["frameOption"] = bc.BCFlags.at(i).at("frameOpt");
                     item["anchorOption"] = bc.BCFlags.at(i).at("anchorOpt");
+                    item["integrationOption"] = bc.BCFlags.at(i).at("integrationOpt");
                     item["valueExtra"] = bc.BCValuesExtra.at(i);
                 }
                 break;
@@ -248,6 +249,7 @@ namespace DNDS::Euler
                 case EulerBCType::BCSym:
                 {
                     item["rectifyOption"] = bc.BCFlags.at(i).at("rectifyOpt");
+                    item["integrationOption"] = bc.BCFlags.at(i).at("integrationOpt");
                     item["valueExtra"] = bc.BCValuesExtra.at(i);
                 }
                 break;
-- 
2.43.0


From dd39b6c6b3a0edf3da2471d4c3d5d5e6cb2bbd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:04 +0000
Subject: [PATCH 08/38] fix: serializers keep shared vectors alive while they
 stand for them in a file

---
 src/DNDS/SerializerH5.cpp   | 20 ++++++++++----------
 src/DNDS/SerializerH5.hpp   |  4 ++--
 src/DNDS/SerializerJSON.cpp | 20 ++++++++++----------
 src/DNDS/SerializerJSON.hpp |  4 ++--
 4 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/DNDS/SerializerH5.cpp b/src/DNDS/SerializerH5.cpp
index f26dc23..dfa42a9 100644
--- a/src/DNDS/SerializerH5.cpp
+++ b/src/DNDS/SerializerH5.cpp
@@ -370,26 +370,26 @@ namespace DNDS::Serializer
     }
     void SerializerH5::WriteSharedIndexVector(const std::string &name, const ssp<std::vector<index>> &v, ArrayGlobalOffset offset)
     {
-        index CanNotShare = ptr_2_pth.count(v.get()) ? 0 : 1;
+        index CanNotShare = ptr_2_pth.count(v) ? 0 : 1;
         MPI::AllreduceOneIndex(CanNotShare, MPI_MAX, MPIInfo{commDup, mpi.rank, mpi.size});
         if (!CanNotShare)
-            this->WriteString(name + "::ref", ptr_2_pth[v.get()]);
+            this->WriteString(name + "::ref", ptr_2_pth[v]);
         else
         {
             WriteDataVector<index>(name, v->data(), v->size(), offset, chunksize, deflateLevel, h5file, reading, cP, mpi, commDup, collectiveMetadataRW, collectiveDataRW);
-            ptr_2_pth[v.get()] = cP + "/" + name;
+            ptr_2_pth[v] = cP + "/" + name;
         }
     }
     void SerializerH5::WriteSharedRowsizeVector(const std::string &name, const ssp<std::vector<rowsize>> &v, ArrayGlobalOffset offset)
     {
-        index CanNotShare = ptr_2_pth.count(v.get()) ? 0 : 1;
+        index CanNotShare = ptr_2_pth.count(v) ? 0 : 1;
         MPI::AllreduceOneIndex(CanNotShare, MPI_MAX, MPIInfo{commDup, mpi.rank, mpi.size});
         if (!CanNotShare)
-            this->WriteString(name + "::ref", ptr_2_pth[v.get()]);
+            this->WriteString(name + "::ref", ptr_2_pth[v]);
         else
         {
             WriteDataVector<rowsize>(name, v->data(), v->size(), offset, chunksize, deflateLevel, h5file, reading, cP, mpi, commDup, collectiveMetadataRW, collectiveDataRW);
-            ptr_2_pth[v.get()] = cP + "/" + name;
+            ptr_2_pth[v] = cP + "/" + name;
         }
     }
 
@@ -729,12 +729,12 @@ namespace DNDS::Serializer
 
         if (pth_2_ssp.count(refPath))
         {
-            v = *((ssp<tValue> *)(pth_2_ssp[refPath])); // ! reform this (and in json counterpart) to use reinterpret_cast or use STL's tools
+            v = std::static_pointer_cast<tValue>(pth_2_ssp[refPath]);
         }
         else
         {
             v = std::make_shared<tValue>();
-            pth_2_ssp[refPath] = &v;
+            pth_2_ssp[refPath] = v;
 
             size_t size;
             ReadDataVector<index>(refPath, nullptr, size, offset, h5file, reading, "/", mpi, collectiveMetadataRW, collectiveDataRW);
@@ -762,12 +762,12 @@ namespace DNDS::Serializer
 
         if (pth_2_ssp.count(refPath))
         {
-            v = *((ssp<tValue> *)(pth_2_ssp[refPath])); // ! reform this (and in json counterpart) to use reinterpret_cast or use STL's tools
+            v = std::static_pointer_cast<tValue>(pth_2_ssp[refPath]);
         }
         else
         {
             v = std::make_shared<tValue>();
-            pth_2_ssp[refPath] = &v;
+            pth_2_ssp[refPath] = v;
 
             size_t size;
             ReadDataVector<rowsize>(refPath, nullptr, size, offset, h5file, reading, "/", mpi, collectiveMetadataRW, collectiveDataRW);
diff --git a/src/DNDS/SerializerH5.hpp b/src/DNDS/SerializerH5.hpp
index 2e19ccf..7dedf4b 100644
--- a/src/DNDS/SerializerH5.hpp
+++ b/src/DNDS/SerializerH5.hpp
@@ -12,8 +12,8 @@ namespace DNDS::Serializer
         bool reading = true;
         std::vector<std::string> cPathSplit;
         std::string cP; // current path
-        std::map<void *, std::string> ptr_2_pth;
-        std::map<std::string, void *> pth_2_ssp;
+        std::map<ssp<void>, std::string> ptr_2_pth; // holds the written vectors: an address stays unique until the file is closed
+        std::map<std::string, ssp<void>> pth_2_ssp;
 
         MPIInfo mpi;
         MPI_Comm commDup{MPI_COMM_NULL};
diff --git a/src/DNDS/SerializerJSON.cpp b/src/DNDS/SerializerJSON.cpp
index 551001b..1842c10 100644
--- a/src/DNDS/SerializerJSON.cpp
+++ b/src/DNDS/SerializerJSON.cpp
@@ -125,23 +125,23 @@ namespace DNDS::Serializer
     void SerializerJSON::WriteSharedIndexVector(const std::string &name, const ssp<std::vector<index>> &v, ArrayGlobalOffset offset)
     {
         auto cPointer = nlohmann::json::json_pointer(cP);
-        if (ptr_2_pth.count(v.get()))
-            jObj[cPointer][name]["ref"] = ptr_2_pth[v.get()];
+        if (ptr_2_pth.count(v))
+            jObj[cPointer][name]["ref"] = ptr_2_pth[v];
         else
         {
             jObj[cPointer][name] = *v;
-            ptr_2_pth[v.get()] = cP + "/" + name;
+            ptr_2_pth[v] = cP + "/" + name;
         }
     }
     void SerializerJSON::WriteSharedRowsizeVector(const std::string &name, const ssp<std::vector<rowsize>> &v, ArrayGlobalOffset offset)
     {
         auto cPointer = nlohmann::json::json_pointer(cP);
-        if (ptr_2_pth.count(v.get()))
-            jObj[cPointer][name]["ref"] = ptr_2_pth[v.get()];
+        if (ptr_2_pth.count(v))
+            jObj[cPointer][name]["ref"] = ptr_2_pth[v];
         else
         {
             jObj[cPointer][name] = *v;
-            ptr_2_pth[v.get()] = cP + "/" + name;
+            ptr_2_pth[v] = cP + "/" + name;
         }
     }
 
@@ -207,13 +207,13 @@ namespace DNDS::Serializer
 
         if (pth_2_ssp.count(refPath))
         {
-            v = *((ssp<tValue> *)(pth_2_ssp[refPath]));
+            v = std::static_pointer_cast<tValue>(pth_2_ssp[refPath]);
         }
         else
         {
             DNDS_assert(jObj[nlohmann::json::json_pointer(refPath)].is_array());
             v = std::make_shared<tValue>(jObj[nlohmann::json::json_pointer(refPath)].get<tValue>()); // vector's copy constructor
-            pth_2_ssp[refPath] = &v;
+            pth_2_ssp[refPath] = v;
         }
         offset = ArrayGlobalOffset_Unknown;
     }
@@ -234,13 +234,13 @@ namespace DNDS::Serializer
 
         if (pth_2_ssp.count(refPath))
         {
-            v = *((ssp<tValue> *)(pth_2_ssp[refPath]));
+            v = std::static_pointer_cast<tValue>(pth_2_ssp[refPath]);
         }
         else
         {
             DNDS_assert(jObj[nlohmann::json::json_pointer(refPath)].is_array());
             v = std::make_shared<tValue>(jObj[nlohmann::json::json_pointer(refPath)].get<tValue>()); // vector's copy constructor
-            pth_2_ssp[refPath] = &v;
+            pth_2_ssp[refPath] = v;
         }
         offset = ArrayGlobalOffset_Unknown;
     }
diff --git a/src/DNDS/SerializerJSON.hpp b/src/DNDS/SerializerJSON.hpp
index c09513c..963e59d 100644
--- a/src/DNDS/SerializerJSON.hpp
+++ b/src/DNDS/SerializerJSON.hpp
@@ -14,8 +14,8 @@ namespace DNDS::Serializer
         bool reading = true;
         std::vector<std::string> cPathSplit;
         std::string cP; // current path
-        std::map<void *, std::string> ptr_2_pth;
-        std::map<std::string, void *> pth_2_ssp;
+        std::map<ssp<void>, std::string> ptr_2_pth; // holds the written vectors: an address stays unique until the file is closed
+        std::map<std::string, ssp<void>> pth_2_ssp;
 
         bool useCodecOnUint8{false};
         int deflateLevel{5};
-- 
2.43.0


From 5113145fd55feb3a675035944541905367069738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:04 +0000
Subject: [PATCH 09/38] fix: ArrayEigenMatrix reads its row counts with an
 offset of its own and the right uniform value

---
 src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp b/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
index 473e87b..0d1ea9c 100644
--- a/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
+++ b/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
@@ -212,14 +212,14 @@ namespace DNDS
                 _mat_nRow_dynamic = v_mat_ni;
             if (v_mat_ni == NonUniformSize) // TODO: complete here!
             {
-
+                Serializer::ArrayGlobalOffset offsetV = Serializer::ArrayGlobalOffset_Unknown; // offset is already used by the base array
                 if constexpr (_mat_ni == NonUniformSize)
-                    serializerP->ReadSharedRowsizeVector("mat_nRows", _mat_nRows, offset); // TODO: multiple write to offset, check?
+                    serializerP->ReadSharedRowsizeVector("mat_nRows", _mat_nRows, offsetV);
                 else
                 {
                     t_pRowSizes v_mat_nRows;
-                    serializerP->ReadSharedRowsizeVector("mat_nRows", v_mat_nRows, offset);
-                    int c_mat_nRow_dynamic = v_mat_nRows->size() ? 0 : v_mat_nRows->at(0);
+                    serializerP->ReadSharedRowsizeVector("mat_nRows", v_mat_nRows, offsetV);
+                    int c_mat_nRow_dynamic = v_mat_nRows->size() ? v_mat_nRows->at(0) : 0;
                     for (auto i = 0; i < v_mat_nRows->size(); ++i)
                         DNDS_assert(v_mat_nRows->operator[](i) == c_mat_nRow_dynamic);
                     _mat_nRow_dynamic = c_mat_nRow_dynamic;
-- 
2.43.0


From a74603c142c147cee095fa4536b9b7f8532b72bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:28 +0000
Subject: [PATCH 10/38] fix: CGNS TRI_6 sections are read as Tri6, not as Quad4

---
 src/Geom/CGNS.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Geom/CGNS.hpp b/src/Geom/CGNS.hpp
index 9474244..e52df73 100644
--- a/src/Geom/CGNS.hpp
+++ b/src/Geom/CGNS.hpp
@@ -20,6 +20,7 @@ namespace DNDS::Geom
         case TRI_3:
             return Elem::Tri3;
         case TRI_6:
+            return Elem::Tri6;
         case QUAD_4:
             return Elem::Quad4;
         case QUAD_9:
-- 
2.43.0


From a392a4826bc33a6ae17e208c1e44c1a746dd5963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:28 +0000
Subject: [PATCH 11/38] fix: ConvertDiffsFullMap takes every order from the
 derivatives it was given

---
 src/Geom/DiffTensors.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/Geom/DiffTensors.hpp b/src/Geom/DiffTensors.hpp
index a8509f9..6893458 100644
--- a/src/Geom/DiffTensors.hpp
+++ b/src/Geom/DiffTensors.hpp
@@ -345,6 +345,7 @@ namespace DNDS::Geom::Base
         static const auto &diffOperatorIJK2IcDim = getDiffOperatorIJK2I<dim>();
         MatrixXR out;
         out.resize(rows, nBase);
+        const MatrixXR in = mat; // mat is overwritten order by order, higher orders still need the original lower ones
 
         static const int nDiffSizC1 = ndiffSizS<dim>(1);
         static const auto seq0t1 = Eigen::seq(Eigen::fix<1>, Eigen::fix<nDiffSizC1 - 1>);
@@ -356,7 +357,7 @@ namespace DNDS::Geom::Base
                 ccv = 0;
                 for (int m = 0; m < dim; m++)
                     ccv += DxiDx(std::get<1>(diffOperatorIJK2IcDim)[i], m) *
-                           mat(std::get<1>(diffOperatorIJK2IcDim)[m], iB);
+                           in(std::get<1>(diffOperatorIJK2IcDim)[m], iB);
             }
         mat(seq0t1, Eigen::all) = out(seq0t1, Eigen::all);
         if (cmaxDiffOrder == 1)
@@ -373,12 +374,12 @@ namespace DNDS::Geom::Base
                 ccv = 0;
                 for (int m = 0; m < dim; m++)
                     ccv += DxiDx(std::get<2>(diffOperatorIJK2IcDim)[i][j], m) *
-                           mat(std::get<1>(diffOperatorIJK2IcDim)[m], iB);
+                           in(std::get<1>(diffOperatorIJK2IcDim)[m], iB);
                 for (int m = 0; m < dim; m++)
                     for (int n = 0; n < dim; n++)
                         ccv += DxiDx(std::get<1>(diffOperatorIJK2IcDim)[i], m) *
                                DxiDx(std::get<1>(diffOperatorIJK2IcDim)[j], n) *
-                               mat(std::get<2>(diffOperatorIJK2IcDim)[m][n], iB);
+                               in(std::get<2>(diffOperatorIJK2IcDim)[m][n], iB);
             }
         mat(seq1t2, Eigen::all) = out(seq1t2, Eigen::all);
         if (cmaxDiffOrder == 2)
@@ -396,19 +397,19 @@ namespace DNDS::Geom::Base
                 ccv = 0;
                 for (int m = 0; m < dim; m++)
                     ccv += DxiDx(std::get<3>(diffOperatorIJK2IcDim)[i][j][k], m) *
-                           mat(std::get<1>(diffOperatorIJK2IcDim)[m], iB);
+                           in(std::get<1>(diffOperatorIJK2IcDim)[m], iB);
                 for (int m = 0; m < dim; m++)
                     for (int n = 0; n < dim; n++)
                         ccv +=
                             DxiDx(std::get<2>(diffOperatorIJK2IcDim)[i][j], m) *
                                 DxiDx(std::get<1>(diffOperatorIJK2IcDim)[k], n) *
-                                mat(std::get<2>(diffOperatorIJK2IcDim)[m][n], iB) +
+                                in(std::get<2>(diffOperatorIJK2IcDim)[m][n], iB) +
                             DxiDx(std::get<2>(diffOperatorIJK2IcDim)[i][k], m) *
                                 DxiDx(std::get<1>(diffOperatorIJK2IcDim)[j], n) *
-                                mat(std::get<2>(diffOperatorIJK2IcDim)[m][n], iB) +
+                                in(std::get<2>(diffOperatorIJK2IcDim)[m][n], iB) +
                             DxiDx(std::get<2>(diffOperatorIJK2IcDim)[j][k], m) *
                                 DxiDx(std::get<1>(diffOperatorIJK2IcDim)[i], n) *
-                                mat(std::get<2>(diffOperatorIJK2IcDim)[m][n], iB);
+                                in(std::get<2>(diffOperatorIJK2IcDim)[m][n], iB);
                 for (int m = 0; m < dim; m++)
                     for (int n = 0; n < dim; n++)
                         for (int p = 0; p < dim; p++)
@@ -416,7 +417,7 @@ namespace DNDS::Geom::Base
                                 DxiDx(std::get<1>(diffOperatorIJK2IcDim)[i], m) *
                                 DxiDx(std::get<1>(diffOperatorIJK2IcDim)[j], n) *
                                 DxiDx(std::get<1>(diffOperatorIJK2IcDim)[k], p) *
-                                mat(std::get<3>(diffOperatorIJK2IcDim)[m][n][p], iB);
+                                in(std::get<3>(diffOperatorIJK2IcDim)[m][n][p], iB);
             }
         mat(seq2t3, Eigen::all) = out(seq2t3, Eigen::all);
         if (cmaxDiffOrder == 3)
-- 
2.43.0


From 6580a2ac01a66979d0955f0653256308ead955bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:45 +0000
Subject: [PATCH 12/38] fix: HLLC flux through a moving face uses the absolute
 contact speed in the energy equation

---
 src/Euler/Gas.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Euler/Gas.hpp b/src/Euler/Gas.hpp
index 966e5ae..b6153d2 100644
--- a/src/Euler/Gas.hpp
+++ b/src/Euler/Gas.hpp
@@ -480,11 +480,10 @@ namespace DNDS::Euler::Gas
                   (UL(Eigen::seq(Eigen::fix<1>, Eigen::fix<dim>)).dot(n) - vgN * UL(0)) * (SL - veloLm0) -
                   (UR(Eigen::seq(Eigen::fix<1>, Eigen::fix<dim>)).dot(n) - vgN * UR(0)) * (SR - veloRm0)) /
                  div;
-        //! is this right for moving mesh?
         Eigen::Vector<real, dim + 2> DS;
         DS.setZero();
         DS(Eigen::seq(Eigen::fix<1>, Eigen::fix<dim>)) = n;
-        DS(dim + 1) = SS;
+        DS(dim + 1) = SS + vgN; // SS is relative to the face, the pressure works on the absolute velocity
         // SS += sign(SS) * std::exp(-std::abs(SS) / dLambda) * dLambda;
         if (SS >= 0)
         {
-- 
2.43.0


From 9113a1e66384e3461279f3a1fed861e658b6ca95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:45 +0000
Subject: [PATCH 13/38] fix: HLLEP wave speed bounds use the signed Roe
 eigenvalues, not their absolute values

---
 src/Euler/Gas.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Euler/Gas.hpp b/src/Euler/Gas.hpp
index b6153d2..af756ac 100644
--- a/src/Euler/Gas.hpp
+++ b/src/Euler/Gas.hpp
@@ -330,8 +330,8 @@ namespace DNDS::Euler::Gas
         // std::cout << alpha.transpose() << std::endl;
         // std::cout << std::endl;
 
-        real SL = std::min(lam0, veloLm0 - std::sqrt(asqrL));
-        real SR = std::max(lam4, veloRm0 + std::sqrt(asqrR));
+        real SL = std::min(veloRoe0 - aRoe, veloLm0 - std::sqrt(asqrL));
+        real SR = std::max(veloRoe0 + aRoe, veloRm0 + std::sqrt(asqrR));
         real UU = std::abs(veloRoe0);
         real dfix = aRoe / (aRoe + UU);
         real SP = std::max(SR, 0.0);
-- 
2.43.0


From 9b3b46fc13bb706c680eac702829a2253f28f8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:08 +0000
Subject: [PATCH 14/38] fix: ImplicitBDFDualTimeStep::StepPP adds the evaluated
 right-hand side to its residual

---
 src/Solver/ODE.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Solver/ODE.hpp b/src/Solver/ODE.hpp
index 9336fac..028fa52 100644
--- a/src/Solver/ODE.hpp
+++ b/src/Solver/ODE.hpp
@@ -456,7 +456,7 @@ namespace DNDS::ODE
                 rhs.addTo(xLast, 1 / dt);
                 resOther = rhs;
                 rhs.addTo(x, -1. / dt);
-                rhs.addTo(rhs, BDFCoefs(kCurrent - 1, 0));
+                rhs.addTo(rhsbuf[0], BDFCoefs(kCurrent - 1, 0));
                 fsolve(x, rhs, resOther, dTau, dt, BDFCoefs(kCurrent - 1, 0), xinc, iter, 1.0, 0);
                 //* xinc = (I/dtau-A*alphaDiag)\rhs
 
-- 
2.43.0


From 5b55778a075496dd00d60424ea1d7ef48b1dc8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:08 +0000
Subject: [PATCH 15/38] fix: ImplicitVBDFDualTimeStep::StepPP evaluates the RHS
 it uses and gives the limiter its base state unscaled

---
 src/Solver/ODE.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Solver/ODE.hpp b/src/Solver/ODE.hpp
index 028fa52..a735bbe 100644
--- a/src/Solver/ODE.hpp
+++ b/src/Solver/ODE.hpp
@@ -725,15 +725,15 @@ namespace DNDS::ODE
             {
                 fdt(x, dTau, BDFCoefs(0), 0);
 
-                frhs(rhs, x, dTau, iter, 1.0, 0);
+                frhs(rhsbuf[0], x, dTau, iter, 1.0, 0);
 
                 xBase.setConstant(0.0);
-                xBase.addTo(xLast, (BDFCoefs(1) - 0) / dt); // 0 because xBase includes xLast/dt part
+                xBase.addTo(xLast, BDFCoefs(1)); // xBase includes the xLast part
                 if (prevSiz)
                     for (index iPrev = 0; iPrev < cnPrev; iPrev++)
                     {
                         // std::cout << "add " << BDFCoefs(2 + iPrev) <<" " << mod(iPrev + prevStart, prevSiz) << std::endl;
-                        xBase.addTo(xPrevs[mod(iPrev + prevStart, prevSiz)], BDFCoefs(2 + iPrev) / dt);
+                        xBase.addTo(xPrevs[mod(iPrev + prevStart, prevSiz)], BDFCoefs(2 + iPrev));
                     }
                 fresidualIncPP(
                     x, xBase, rhsbuf[0], resInc,
@@ -753,12 +753,13 @@ namespace DNDS::ODE
                         // falphaLimSource(resInc, 0); // non-rhs part of residual, fixed with alpha too
                         // *****
                         resInc.addTo(rhsbuf[0], BDFCoefs(0));
-                        resInc *= dt; // so that equation is resInc == x - xLast
+                        resInc *= dt; // so that equation is resInc == x - xBase
                     },
                     1.0,
                     0);
 
                 rhs = xBase;
+                rhs *= 1. / dt;
                 // rhs.addTo(xLast, 1 / dt); // 0 because xBase includes xLast/dt part
                 resOther = rhs;
                 rhs.addTo(x, -1. / dt);
-- 
2.43.0


From 3ff1fd588d3c94fa09b3455c788b8ccf195840e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:08 +0000
Subject: [PATCH 16/38] fix: ImplicitVBDFDualTimeStep::getLatestRHS returns the
 right-hand side, not the dual-time residual

---
 src/Solver/ODE.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Solver/ODE.hpp b/src/Solver/ODE.hpp
index a735bbe..2c4fd0d 100644
--- a/src/Solver/ODE.hpp
+++ b/src/Solver/ODE.hpp
@@ -794,7 +794,7 @@ namespace DNDS::ODE
 
         virtual TDATA &getLatestRHS() override
         {
-            return rhs;
+            return rhsbuf[0];
         }
 
         virtual ~ImplicitVBDFDualTimeStep() = default;
-- 
2.43.0


From b8d7c588dc01648001ac89debc59d3056507450e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:08 +0000
Subject: [PATCH 17/38] fix: SSPRK3 evaluates its stages at the times 0, 1 and
 1/2 of the step

---
 src/Solver/ODE.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Solver/ODE.hpp b/src/Solver/ODE.hpp
index 2c4fd0d..123c561 100644
--- a/src/Solver/ODE.hpp
+++ b/src/Solver/ODE.hpp
@@ -1226,7 +1226,7 @@ namespace DNDS::ODE
             // MPI::Barrier(MPI_COMM_WORLD);
             // std::cout << "fucked" << std::endl;
 
-            frhs(rhs, x, dTau, 1, 0.5, 0);
+            frhs(rhs, x, dTau, 1, 0.0, 0);
             rhsbuf[0] = rhs;
             if (localDtStepping)
                 rhs *= dTau;
@@ -1236,7 +1236,7 @@ namespace DNDS::ODE
             // x += rhs;
             fincrement(x, rhs, 1.0, 0);
 
-            frhs(rhs, x, dTau, 1, 1, 0);
+            frhs(rhs, x, dTau, 1, 1.0, 0);
             rhsbuf[1] = rhs;
             if (localDtStepping)
                 rhs *= dTau;
@@ -1247,7 +1247,7 @@ namespace DNDS::ODE
             // x.addTo(rhs, 0.25);
             fincrement(x, rhs, 0.25, 0);
 
-            frhs(rhs, x, dTau, 1, 0.25, 0);
+            frhs(rhs, x, dTau, 1, 0.5, 0);
             rhsbuf[2] = rhs;
             if (localDtStepping)
                 rhs *= dTau;
-- 
2.43.0


From be02c13162c3491df86ffd62c965b4547688b9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:08 +0000
Subject: [PATCH 18/38] fix: the backward Euler starter of the Hermite3 step
 applies the increment it solved for

---
 src/Solver/ODE.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Solver/ODE.hpp b/src/Solver/ODE.hpp
index 123c561..e9ba37e 100644
--- a/src/Solver/ODE.hpp
+++ b/src/Solver/ODE.hpp
@@ -978,6 +978,7 @@ namespace DNDS::ODE
                     rhsFull.addTo(x, -1. / dt);
                     rhsFull += rhsbuf[1];
                     fsolve(x, rhsFull, resOther, dTau, dt, 1.0, xinc, iter, 1.0, 0);
+                    fincrement(x, xinc, 1.0, 0);
                 }
                 else
                 {
-- 
2.43.0


From c620285b6fb0093ddbf84f4eb1626aef134f72db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:08 +0000
Subject: [PATCH 19/38] fix: the first U3R1 Hermite3 step evaluates its middle
 stage at the time it stands for

---
 src/Solver/ODE.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Solver/ODE.hpp b/src/Solver/ODE.hpp
index e9ba37e..dd215bc 100644
--- a/src/Solver/ODE.hpp
+++ b/src/Solver/ODE.hpp
@@ -841,6 +841,7 @@ namespace DNDS::ODE
         real alphaHM3 = 0.5;
         int maskHM3 = 0;
         int maskHM3Exe = 0;
+        real alphaHM3Exe = 0.5; // position of the middle stage actually used
 
         TDATA xPrev;
         real dtPrev = 0;
@@ -933,6 +934,7 @@ namespace DNDS::ODE
                 break;
             }
 
+            alphaHM3Exe = alpha;
             wInteg[0] = (-1.0 / 6.0) / alpha + 1.0 / 2.0;
             wInteg[1] = (-1.0 / 6.0) / (alpha * (alpha - 1.0));
             wInteg[2] = 1.0 / (alpha * 6.0 - 6.0) + 1.0 / 2.0;
@@ -1011,12 +1013,12 @@ namespace DNDS::ODE
                                 rhsMid.addTo(rhsbuf[2], thetaCur * wInteg(1));
                             }
                             fdt(xMid, dTau, 1.0, 1);
-                            fsolve(xMid, rhsMid, resOther, dTau, dt, std::abs(thetaCur * wInteg(1)), xinc, iter, alphaHM3, 1);
+                            fsolve(xMid, rhsMid, resOther, dTau, dt, std::abs(thetaCur * wInteg(1)), xinc, iter, alphaHM3Exe, 1);
                         }
 
                         fincrement(xMid, xinc, 1.0, 1);
 
-                        frhs(rhsbuf[2], xMid, dTau, iter, alphaHM3, 1);
+                        frhs(rhsbuf[2], xMid, dTau, iter, alphaHM3Exe, 1);
 
                         rhsFull.setConstant(0.0);
                         {
-- 
2.43.0


From 4e18c1788e0f722b58fe56158b88ed076c41f2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:38 +0000
Subject: [PATCH 20/38] fix: odeCode 1 with useImplicitPP steps the integrator
 that was built for it

---
 src/Euler/EulerSolver.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Euler/EulerSolver.hxx b/src/Euler/EulerSolver.hxx
index 74b3d3d..2dc57e9 100644
--- a/src/Euler/EulerSolver.hxx
+++ b/src/Euler/EulerSolver.hxx
@@ -1213,7 +1213,7 @@ namespace DNDS::Euler
                 switch (config.timeMarchControl.odeCode)
                 {
                 case 1: // BDF2
-                    std::dynamic_pointer_cast<ODE::ImplicitBDFDualTimeStep<ArrayDOFV<nVarsFixed>, ArrayDOFV<1>>>(ode)
+                    std::dynamic_pointer_cast<ODE::ImplicitVBDFDualTimeStep<ArrayDOFV<nVarsFixed>, ArrayDOFV<1>>>(ode)
                         ->StepPP(
                             u, uIncBufODE,
                             frhs,
-- 
2.43.0


From 93a2f9c97a91af7a919779c46ea3091d8b3ef9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:38 +0000
Subject: [PATCH 21/38] fix: odeSetting2 sets the number of backward Euler
 starter iterations of Hermite3, not its solve method

---
 src/Euler/EulerSolver.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Euler/EulerSolver.hxx b/src/Euler/EulerSolver.hxx
index 2dc57e9..3303fa8 100644
--- a/src/Euler/EulerSolver.hxx
+++ b/src/Euler/EulerSolver.hxx
@@ -1639,8 +1639,8 @@ namespace DNDS::Euler
                 mesh->NumCell(),
                 buildDOF, buildScalar,
                 config.timeMarchControl.odeSetting1 == 0 ? 0.55 : config.timeMarchControl.odeSetting1,
-                std::round(config.timeMarchControl.odeSetting2),                                         // Backward Euler Starter
                 0,                                                                                       // method
+                std::round(config.timeMarchControl.odeSetting2),                                         // Backward Euler Starter
                 config.timeMarchControl.odeSetting3 == 0 ? 0.9146 : config.timeMarchControl.odeSetting3, // thetaM1
                 std::round(config.timeMarchControl.odeSetting4)                                          // mask
             );
-- 
2.43.0


From 6f29ddd46372ffae910de1f1c41afd0ca57049e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:07 +0000
Subject: [PATCH 22/38] fix: EvaluateNorm sums its averaging weight with a
 reduction when the loop runs on several threads

---
 src/Euler/EulerEvaluator.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Euler/EulerEvaluator.hxx b/src/Euler/EulerEvaluator.hxx
index 97af305..72b36de 100644
--- a/src/Euler/EulerEvaluator.hxx
+++ b/src/Euler/EulerEvaluator.hxx
@@ -1160,7 +1160,7 @@ namespace DNDS::Euler
             real rescBase{0};
 #if defined(DNDS_DIST_MT_USE_OMP)
 #pragma omp declare reduction(TUAdd:TU : omp_out += omp_in) initializer(omp_priv = omp_orig)
-#pragma omp parallel for schedule(static) reduction(TUAdd : resc)
+#pragma omp parallel for schedule(static) reduction(TUAdd : resc) reduction(+ : rescBase)
 #endif
             for (index iCell = 0; iCell < mesh->NumCell(); iCell++)
             {
-- 
2.43.0


From 9b3900f07a02bb8749ced7223bd8211c2922d93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:25 +0000
Subject: [PATCH 23/38] fix: ConstructRecCoeff takes the largest condition
 number over all threads with a reduction

---
 src/CFV/VariationalReconstruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CFV/VariationalReconstruction.cpp b/src/CFV/VariationalReconstruction.cpp
index e537fa6..89c1c5f 100644
--- a/src/CFV/VariationalReconstruction.cpp
+++ b/src/CFV/VariationalReconstruction.cpp
@@ -837,7 +837,7 @@ namespace DNDS::CFV
             matrixACholeskyL.resize(mesh->NumCellProc());
         real maxCond = 0.0;
 #ifdef DNDS_USE_OMP
-#pragma omp parallel for
+#pragma omp parallel for reduction(max : maxCond)
 #endif
         for (index iCell = 0; iCell < mesh->NumCell(); iCell++) // only non-ghost
         {
-- 
2.43.0


From 12546b833f67e32243bd1367ea432617df0d8ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:25 +0000
Subject: [PATCH 24/38] fix: UpdateSGS adds each thread's increments to that
 thread's copy of the reduction variable

---
 src/Euler/EulerEvaluator.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Euler/EulerEvaluator.hxx b/src/Euler/EulerEvaluator.hxx
index 72b36de..33af185 100644
--- a/src/Euler/EulerEvaluator.hxx
+++ b/src/Euler/EulerEvaluator.hxx
@@ -441,7 +441,7 @@ namespace DNDS::Euler
         sumInc.setZero(cnvars);
 
 #if defined(DNDS_DIST_MT_USE_OMP)
-        auto cellOp = [&](index iScanStart, index iScanEnd)
+        auto cellOp = [&](index iScanStart, index iScanEnd, TU &sumInc)
         {
 #else
         const index iScanStart{0}, iScanEnd(nCellDist);
@@ -551,7 +551,7 @@ namespace DNDS::Euler
 #pragma omp declare reduction(TUAdd:TU : omp_out += omp_in) initializer(omp_priv = omp_orig)
 #pragma omp parallel for schedule(static) reduction(TUAdd : sumInc)
         for (index iScanStart = 0; iScanStart < nCellDist; iScanStart += 16)
-            cellOp(iScanStart, std::min(iScanStart + 16, nCellDist));
+            cellOp(iScanStart, std::min(iScanStart + 16, nCellDist), sumInc);
 #endif
 
         TU sumIncAll(cnvars);
-- 
2.43.0


From e1a42ba53d7d4cc6019c755bb14dca2e63c638af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:25 +0000
Subject: [PATCH 25/38] fix: InitializeUDOF evaluates the exprtk initializers,
 which share one set of variables, on one thread

---
 src/Euler/EulerEvaluator.hxx | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/Euler/EulerEvaluator.hxx b/src/Euler/EulerEvaluator.hxx
index 33af185..cf92225 100644
--- a/src/Euler/EulerEvaluator.hxx
+++ b/src/Euler/EulerEvaluator.hxx
@@ -1051,10 +1051,7 @@ namespace DNDS::Euler
             exprtkEval.AddScalar("iCell");
             exprtkEval.AddVector("x", dim);
             exprtkEval.AddVector("UPrim", nVars);
-            exprtkEval.Compile(exprStr);
-#if defined(DNDS_DIST_MT_USE_OMP)
-#pragma omp parallel for schedule(runtime)
-#endif
+            exprtkEval.Compile(exprStr); // holds one set of variables: not to be evaluated by several threads
             for (index iCell = 0; iCell < mesh->NumCell(); iCell++)
             {
                 Geom::tPoint pos = vfv->GetCellBary(iCell);
-- 
2.43.0


From 200b28b1b74bbaf0d91586103a6fed27de09071a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:25 +0000
Subject: [PATCH 26/38] fix: PerformanceTimer can be started and stopped from
 several threads, and StopTimer(int) uses its own start time

---
 src/DNDS/Profiling.cpp | 14 ++++++++++++--
 src/DNDS/Profiling.hpp |  2 +-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/DNDS/Profiling.cpp b/src/DNDS/Profiling.cpp
index 0c8607f..5be236f 100644
--- a/src/DNDS/Profiling.cpp
+++ b/src/DNDS/Profiling.cpp
@@ -2,6 +2,8 @@
 
 namespace DNDS
 {
+    thread_local std::array<real, PerformanceTimer::Ntype_All> PerformanceTimer::tStart;
+
     PerformanceTimer &PerformanceTimer::Instance()
     {
         static PerformanceTimer instance;
@@ -20,12 +22,20 @@ namespace DNDS
 
     void PerformanceTimer::StopTimer(TimerType t)
     {
-        this->timer[t] += MPI_Wtime() - tStart[t];
+        real dt = MPI_Wtime() - tStart[t];
+#ifdef DNDS_USE_OMP
+#pragma omp atomic
+#endif
+        this->timer[t] += dt;
     }
 
     void PerformanceTimer::StopTimer(int t)
     {
-        this->timer[t + Ntype] += MPI_Wtime() - tStart[t];
+        real dt = MPI_Wtime() - tStart[t + Ntype];
+#ifdef DNDS_USE_OMP
+#pragma omp atomic
+#endif
+        this->timer[t + Ntype] += dt;
     }
 
     real PerformanceTimer::getTimer(TimerType t)
diff --git a/src/DNDS/Profiling.hpp b/src/DNDS/Profiling.hpp
index 0b2b400..558101c 100644
--- a/src/DNDS/Profiling.hpp
+++ b/src/DNDS/Profiling.hpp
@@ -37,7 +37,7 @@ namespace DNDS
 
     private:
         std::array<real, Ntype_All> timer = {0};
-        std::array<real, Ntype_All> tStart;
+        static thread_local std::array<real, Ntype_All> tStart;
         PerformanceTimer() = default;
         PerformanceTimer(const PerformanceTimer &);
         PerformanceTimer &operator=(const PerformanceTimer &);
-- 
2.43.0


From 960dfefd6f91e89080b2e6d55962dd79770d6e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:52 +0000
Subject: [PATCH 27/38] fix: BuildCell2Cell counts its progress in the critical
 section that reads the count

---
 src/Geom/Mesh_Serial_BuildCell2Cell.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Geom/Mesh_Serial_BuildCell2Cell.cpp b/src/Geom/Mesh_Serial_BuildCell2Cell.cpp
index 7176c5e..ec71e30 100644
--- a/src/Geom/Mesh_Serial_BuildCell2Cell.cpp
+++ b/src/Geom/Mesh_Serial_BuildCell2Cell.cpp
@@ -407,7 +407,7 @@ namespace DNDS::Geom
             for (auto iCellOther : c_neighbors)
                 (*cell2cellSerial)(iCell, ic2c++) = iCellOther;
 #ifdef DNDS_USE_OMP
-#pragma omp atomic
+#pragma omp critical
 #endif
             nCellsDone++;
         }
@@ -465,7 +465,7 @@ namespace DNDS::Geom
             (*cell2cellSerialFacial).ResizeRow(iCell, facialNeighbors.size());
             (*cell2cellSerialFacial)[iCell] = facialNeighbors;
 #ifdef DNDS_USE_OMP
-#pragma omp atomic
+#pragma omp critical
 #endif
             nCellsDone++;
         }
-- 
2.43.0


From c8b9a0ff3bed6b71a40636b7840a4e9cded92977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:50 +0000
Subject: [PATCH 28/38] fix: EvaluateRHS converts the mean gradient to
 primitive variables in the model's own dimension

GradientCons2Prim_IdealGas defaults to three dimensions; for NS_2D (2 x 4 gradients) the call read and
wrote outside the gradient and took the third velocity component for the energy.
---
 src/Euler/EulerEvaluator_EvaluateRHS.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Euler/EulerEvaluator_EvaluateRHS.hxx b/src/Euler/EulerEvaluator_EvaluateRHS.hxx
index 40d2f5c..829b725 100644
--- a/src/Euler/EulerEvaluator_EvaluateRHS.hxx
+++ b/src/Euler/EulerEvaluator_EvaluateRHS.hxx
@@ -366,7 +366,7 @@ namespace DNDS::Euler
                                               (unitNorm * (URxyPrim - ULxyPrim).transpose());
                     }
                     else
-                        Gas::GradientCons2Prim_IdealGas(UMeanXy, GradUMeanXy, GradUMeanXyPrim, gamma);
+                        Gas::GradientCons2Prim_IdealGas<dim>(UMeanXy, GradUMeanXy, GradUMeanXyPrim, gamma);
 
 #else
                     TDiffU GradUMeanXy;
-- 
2.43.0


From 7147826095a46c30beb2bba686ceb6d42b3a4e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:10 +0000
Subject: [PATCH 29/38] fix: Green-Gauss penalty of the reconstruction turns
 the neighbour's derivatives into the cell's frame

---
 src/CFV/VariationalReconstruction.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/CFV/VariationalReconstruction.cpp b/src/CFV/VariationalReconstruction.cpp
index 89c1c5f..fcadae7 100644
--- a/src/CFV/VariationalReconstruction.cpp
+++ b/src/CFV/VariationalReconstruction.cpp
@@ -1042,9 +1042,20 @@ namespace DNDS::CFV
                                   this->GetIntPointDiffBaseValue(iCellOther, iFace, 1 - if2c, iG, 0, 1); // need 1-if2c!!if2c is for iCell!
                             inc *= settings.functionalSettings.greenGauss1Bias;
                             real dLR = (GetOtherCellBaryFromCell(iCell, iCellOther, iFace) - GetCellBary(iCell)).norm();
+                            MatrixXR DiffJ = this->GetIntPointDiffBaseValue(
+                                iCellOther, iFace, 1 - if2c, iG,
+                                Eigen::seq(Eigen::fix<0>, Eigen::fix<dim>), dim + 1);
+                            if (mesh->isPeriodic)
+                            {
+                                if ((if2c == 1 && Geom::FaceIDIsPeriodicMain(faceID)) ||
+                                    (if2c == 0 && Geom::FaceIDIsPeriodicDonor(faceID))) // I am donor
+                                    periodicity.TransDiValueInplace<dim>(DiffJ, faceID);
+                                if ((if2c == 1 && Geom::FaceIDIsPeriodicDonor(faceID)) ||
+                                    (if2c == 0 && Geom::FaceIDIsPeriodicMain(faceID))) // I am main
+                                    periodicity.TransDiValueBackInplace<dim>(DiffJ, faceID);
+                            }
                             inc += normOut(Seq012) *
-                                   (normOut(Seq012).transpose() *
-                                    this->GetIntPointDiffBaseValue(iCellOther, iFace, 1 - if2c, iG, Seq123, dim + 1)) *
+                                   (normOut(Seq012).transpose() * DiffJ(Seq123, Eigen::all)) *
                                    dLR *
                                    settings.functionalSettings.greenGauss1Penalty;
                             inc *= this->GetFaceJacobiDet(iFace, iG);
-- 
2.43.0


From 49bd77f5e9e9ef59e069db7de891b09c97b1a38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:43 +0000
Subject: [PATCH 30/38] fix: cached boundary normals of the reconstruction are
 unit vectors

With intOrderVR different from intOrder, ConstructBaseAndWeight cached the
facial Jacobian vector itself (length = JacobiDet) as the boundary normal that
is handed to the boundary functions, which expect a unit normal, as in
ConstructMetrics.
---
 src/CFV/VariationalReconstruction.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CFV/VariationalReconstruction.cpp b/src/CFV/VariationalReconstruction.cpp
index fcadae7..906dd7d 100644
--- a/src/CFV/VariationalReconstruction.cpp
+++ b/src/CFV/VariationalReconstruction.cpp
@@ -786,6 +786,7 @@ namespace DNDS::CFV
                                 tJacobi J = Elem::ShapeJacobianCoordD01Nj(coords, DiNj);
                                 real JDet = JacobiDetFace<dim>(J);
                                 tPoint np = FacialJacobianToNormVec<dim>(J);
+                                np.stableNormalize();
                                 RowVectorXR dbv, dbvD;
                                 dbvD.resize(1, cellAtr[iCell].NDOF);
                                 this->FDiffBaseValue(dbvD, this->GetFacePointFromCell(iFace, iCell, -1, pPhy), iCell, iFace, -2, 0);
-- 
2.43.0


From 592d744388ef14899e38c790b439950f05d882bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:43 +0000
Subject: [PATCH 31/38] fix: ConstructMetrics uses the volume it just computed
 for deficient cells

GetCellVol(iCell) reads volumeLocal before it is assigned (still zero), so the
Jacobian determinants of a deficient cell became zero.
---
 src/CFV/VariationalReconstruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CFV/VariationalReconstruction.cpp b/src/CFV/VariationalReconstruction.cpp
index 906dd7d..156c453 100644
--- a/src/CFV/VariationalReconstruction.cpp
+++ b/src/CFV/VariationalReconstruction.cpp
@@ -80,7 +80,7 @@ namespace DNDS::CFV
                 else
                 { // v = std::max(0.0, v);
                     v = std::abs(v);
-                    cellIntJacobiDet[iCell].setConstant(GetCellVol(iCell) / GetCellParamVol(iCell));
+                    cellIntJacobiDet[iCell].setConstant(v / GetCellParamVol(iCell));
                 }
             }
             v += verySmallReal;
-- 
2.43.0


From e10aba2d099b7dab6790be2051201e687a1f2a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:14 +0000
Subject: [PATCH 32/38] fix: rotated Riemann flux with mean-value eigenvalues
 writes its first part to F1

---
 src/Euler/EulerEvaluator_EvaluateDt.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Euler/EulerEvaluator_EvaluateDt.hxx b/src/Euler/EulerEvaluator_EvaluateDt.hxx
index dbdf718..aa5279f 100644
--- a/src/Euler/EulerEvaluator_EvaluateDt.hxx
+++ b/src/Euler/EulerEvaluator_EvaluateDt.hxx
@@ -1201,7 +1201,7 @@ namespace DNDS::Euler
                     Gas::InviscidFlux_IdealGas_Batch_Dispatcher<dim>(
                         rsTypeAux,
                         ULxy, URxy, ULMeanXy, URMeanXy, vgXY, vgC, N1B, N1,
-                        settings.idealGasProperty.gamma, finc, deltaLambdaFace[iFace],
+                        settings.idealGasProperty.gamma, F1, deltaLambdaFace[iFace],
                         exitFun, lam0, lam123, lam4);
                     lam0V1.setConstant(lam0);
                     lam123V1.setConstant(lam123);
-- 
2.43.0


From 25291dd5c722997f9345ad766a226f06849c2c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:14 +0000
Subject: [PATCH 33/38] fix: rotated Riemann flux orients its first direction
 along the face normal

---
 src/Euler/EulerEvaluator_EvaluateDt.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Euler/EulerEvaluator_EvaluateDt.hxx b/src/Euler/EulerEvaluator_EvaluateDt.hxx
index aa5279f..19f3578 100644
--- a/src/Euler/EulerEvaluator_EvaluateDt.hxx
+++ b/src/Euler/EulerEvaluator_EvaluateDt.hxx
@@ -1168,6 +1168,8 @@ namespace DNDS::Euler
             else
             {
                 TVec N1 = diffVelo / diffVeloN;
+                if (N1.dot(unitNormC) < 0)
+                    N1 = -N1; // upwinding along N1 requires a nonnegative projection of the face normal
                 DNDS_assert_info(std::abs(N1.norm() - 1) < 1e-5, fmt::format("{}", diffVeloN));
                 TReal_Batch N1Proj = N1.transpose() * unitNorm;
 
-- 
2.43.0


From abdb3e78b0d2df2cee0171dab017098207345c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:14 +0000
Subject: [PATCH 34/38] fix: normal stress of k acts along the face normal

---
 src/Euler/EulerEvaluator_EvaluateDt.hxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Euler/EulerEvaluator_EvaluateDt.hxx b/src/Euler/EulerEvaluator_EvaluateDt.hxx
index 19f3578..4832860 100644
--- a/src/Euler/EulerEvaluator_EvaluateDt.hxx
+++ b/src/Euler/EulerEvaluator_EvaluateDt.hxx
@@ -1286,8 +1286,10 @@ namespace DNDS::Euler
                 ((vnL * ULxy(I4 + 2, Eigen::all).array() + vnR * URxy(I4 + 2, Eigen::all).array()) -
                  (URxy(I4 + 2, Eigen::all).array() - ULxy(I4 + 2, Eigen::all).array()) * lambdaFaceCC.array()) *
                 0.5;
-            finc(1, Eigen::all).array() += UMeanXy(I4 + 1, Eigen::all).array() * (2. / 3.); //! k's normal stress
-            finc(I4, Eigen::all).array() += UMeanXy(I4 + 1, Eigen::all).array() * (2. / 3.) * UMeanXy(1, Eigen::all).array() / UMeanXy(0, Eigen::all).array();
+            Eigen::RowVector<real, -1> kStress = UMeanXy(I4 + 1, Eigen::all) * (2. / 3.); //! k's normal stress
+            Eigen::RowVector<real, -1> vnMean = (UMeanXy(Seq123, Eigen::all).array() * unitNorm.array()).colwise().sum() / UMeanXy(0, Eigen::all).array();
+            finc(Seq123, Eigen::all).array() += unitNorm.array().rowwise() * kStress.array();
+            finc(I4, Eigen::all).array() += kStress.array() * vnMean.array();
         }
 
 #ifndef DNDS_FV_EULEREVALUATOR_IGNORE_VISCOUS_TERM
-- 
2.43.0


From a526454b72e034ae0901792662aed1e88710a562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:05 +0000
Subject: [PATCH 35/38] fix: realizable k-epsilon source reads epsilon from its
 own variable

---
 src/Euler/RANS_ke.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Euler/RANS_ke.hpp b/src/Euler/RANS_ke.hpp
index ec0b672..b0e7035 100644
--- a/src/Euler/RANS_ke.hpp
+++ b/src/Euler/RANS_ke.hpp
@@ -84,7 +84,7 @@ namespace DNDS::Euler::RANS
         Eigen::Matrix<real, dim, dim> SS = diffU + diffU.transpose() - (2. / 3.) * diffU.trace() * Eigen::Matrix<real, dim, dim>::Identity();
         real rho = UMeanXy(0);
         real k = std::max(UMeanXy(I4 + 1) / rho, verySmallReal_4);
-        real epsilon = std::max(UMeanXy(I4 + 1) / rho, verySmallReal_4);
+        real epsilon = std::max(UMeanXy(I4 + 2) / rho, verySmallReal_4);
         real Ret = rho * sqr(k) / (muf * epsilon) + verySmallReal_4;
         real S = std::sqrt(SS.squaredNorm() / 2) + verySmallReal_4;
         real fmu = (1 - std::exp(-0.01 * Ret)) / std::max(1 - exp(-std::sqrt(Ret)), verySmallReal_4) * std::max(1., std::sqrt(2 / Ret));
-- 
2.43.0


From 8d2107abca04e96cd7a484127c8fa221928a3431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:05 +0000
Subject: [PATCH 36/38] fix: SST production limiter keeps its lower bound

---
 src/Euler/RANS_ke.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Euler/RANS_ke.hpp b/src/Euler/RANS_ke.hpp
index b0e7035..e84e9bc 100644
--- a/src/Euler/RANS_ke.hpp
+++ b/src/Euler/RANS_ke.hpp
@@ -396,7 +396,7 @@ namespace DNDS::Euler::RANS
         real PkTilde = Pk;
 #if KW_SST_PROD_LIMITS == 1
         PkTilde = std::max(PkTilde, verySmallReal);
-        PkTilde = std::min(Pk, 20 * betaStar * rho * k * omegaaa); // CFD++'s limiting: 10 times
+        PkTilde = std::min(PkTilde, 20 * betaStar * rho * k * omegaaa); // CFD++'s limiting: 10 times
 #endif
 
         real gammaC = gamma1 * F1 + gamma1 * (1 - F1);
-- 
2.43.0


From 1459623b297834406454b5121c5cba73efdbb7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:05 +0000
Subject: [PATCH 37/38] fix: SST omega production blends both gamma
 coefficients

---
 src/Euler/RANS_ke.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Euler/RANS_ke.hpp b/src/Euler/RANS_ke.hpp
index e84e9bc..a53c2ab 100644
--- a/src/Euler/RANS_ke.hpp
+++ b/src/Euler/RANS_ke.hpp
@@ -399,7 +399,7 @@ namespace DNDS::Euler::RANS
         PkTilde = std::min(PkTilde, 20 * betaStar * rho * k * omegaaa); // CFD++'s limiting: 10 times
 #endif
 
-        real gammaC = gamma1 * F1 + gamma1 * (1 - F1);
+        real gammaC = gamma1 * F1 + gamma2 * (1 - F1);
         real sigK = sigK1 * F1 + sigK2 * (1 - F1);
         real sigO = sigO1 * F1 + sigO2 * (1 - F1);
         real beta = beta1 * F1 + beta2 * (1 - F1);
-- 
2.43.0


From c63273aab45b71a6cee6df0c9b411c43052e1617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:12 +0000
Subject: [PATCH 38/38] fix: GMRES keeps the closing direction of the Krylov
 space

When the Arnoldi process closes (h(j+1,j) = 0) the last basis vector and its
column of h were dropped, so the exact solution it contains was lost; with
j == 0 the solver stopped without any update.
---
 src/Solver/Linear.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Solver/Linear.hpp b/src/Solver/Linear.hpp
index f7f0169..fafb6c3 100644
--- a/src/Solver/Linear.hpp
+++ b/src/Solver/Linear.hpp
@@ -81,6 +81,7 @@ namespace DNDS::Linear
                     if (h(j + 1, j) < scale_MLb * 1e-32)
                     {
                         std::cout << "early stop" << std::endl;
+                        j++; // the space is closed: Vs[j] and its column of h still belong to the projected problem
                         break;
                     }
                     Vs[j + 1] *= 1.0 / h(j + 1, j); // normalize
-- 
2.43.0

