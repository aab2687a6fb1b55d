From c5000015a74bcb547babcf35120a037460866873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:02 +0000
Subject: [PATCH 01/58] fix: Return out-of-range index instead of aborting for
 points outside variable-resolution grids

---
 libsrc/geomodelgrids/utils/Indexing.cc | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/libsrc/geomodelgrids/utils/Indexing.cc b/libsrc/geomodelgrids/utils/Indexing.cc
index 96060fa..6b6de42 100644
--- a/libsrc/geomodelgrids/utils/Indexing.cc
+++ b/libsrc/geomodelgrids/utils/Indexing.cc
@@ -77,10 +77,8 @@ geomodelgrids::utils::IndexingVariable::getIndex(const double x) const {
     double index = -1.0;
     size_t indexL = 0;
     size_t indexR = _numX - 1;
+    // Coordinates outside the range give an index outside [0, numX-1] (extrapolated from the closest interval).
     const double xN = (_order == ASCENDING) ? _x[0] + x : _x[0] - x;
-    const double tolerance = 1.0e-6;
-    assert((ASCENDING == _order && (xN >= _x[indexL]-tolerance) && (xN <= _x[indexR]+tolerance)) ||
-           (DESCENDING == _order && (xN <= _x[indexL]+tolerance) && (xN >= _x[indexR]-tolerance)));
 
     typedef bool (*cmp_fn)(const double,
                            const double);
@@ -94,8 +92,6 @@ geomodelgrids::utils::IndexingVariable::getIndex(const double x) const {
             indexL = indexM;
         } // if/else
     } // while
-    assert((ASCENDING == _order && xN >= _x[indexL]-tolerance && _x[indexR] > _x[indexL]) ||
-           (DESCENDING == _order && xN <= _x[indexL]+tolerance && _x[indexR] <= _x[indexL]));
 
     index = double(indexL) + (xN - _x[indexL]) / (_x[indexR] - _x[indexL]);
     return index;
-- 
2.43.0


From ad54b0f9711fc64bb192f5d265e40cf19f4a050a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:28 +0000
Subject: [PATCH 02/58] fix: Tolerate roundoff for points on the boundary of a
 model, block, or surface

---
 libsrc/geomodelgrids/serial/Block.cc   |  5 +++++
 libsrc/geomodelgrids/serial/Model.cc   |  7 +++++++
 libsrc/geomodelgrids/serial/Surface.cc | 13 +++++++++++++
 3 files changed, 25 insertions(+)

diff --git a/libsrc/geomodelgrids/serial/Block.cc b/libsrc/geomodelgrids/serial/Block.cc
index cec79b2..821bcfb 100644
--- a/libsrc/geomodelgrids/serial/Block.cc
+++ b/libsrc/geomodelgrids/serial/Block.cc
@@ -331,6 +331,11 @@ geomodelgrids::serial::Block::query(const double x,
     index[1] = _indexingY->getIndex(y);
     index[2] = _indexingZ->getIndex(_zTop - z);
 
+    // Points on the boundary can be slightly outside the grid due to roundoff.
+    for (size_t i = 0; i < 3; ++i) {
+        index[i] = std::min(std::max(index[i], 0.0), double(_dims[i]-1));
+    } // for
+
     assert( (_numValues > 0 && _values) || (!_numValues && !_values) );
 
     assert(_hyperslab);
diff --git a/libsrc/geomodelgrids/serial/Model.cc b/libsrc/geomodelgrids/serial/Model.cc
index ffb0efb..b09aade 100644
--- a/libsrc/geomodelgrids/serial/Model.cc
+++ b/libsrc/geomodelgrids/serial/Model.cc
@@ -506,6 +506,13 @@ geomodelgrids::serial::Model::_findBlock(const double x,
             return block;
         } // if
     } // for
+
+    // Points on a block boundary can be slightly outside the block due to roundoff.
+    for (auto block : _blocks) {
+        if (( z <= block->getZTop()+TOLERANCE) && ( z >= block->getZBottom()-TOLERANCE) ) {
+            return block;
+        } // if
+    } // for
     static std::shared_ptr<geomodelgrids::serial::Block> empty;
     return empty;
 } // _findBlock
diff --git a/libsrc/geomodelgrids/serial/Surface.cc b/libsrc/geomodelgrids/serial/Surface.cc
index 648d93c..5291af1 100644
--- a/libsrc/geomodelgrids/serial/Surface.cc
+++ b/libsrc/geomodelgrids/serial/Surface.cc
@@ -13,6 +13,9 @@
 #include <sstream> // USES std::ostringstream
 #include <cassert> // USES assert()
 
+// Tolerance for roundoff in index (fraction of grid spacing).
+static const double INDEX_TOLERANCE = 1.0e-6;
+
 // ------------------------------------------------------------------------------------------------
 // Default constructor.
 geomodelgrids::serial::Surface::Surface(const char* const name) :
@@ -216,6 +219,16 @@ geomodelgrids::serial::Surface::query(const double x,
     index[0] = _indexingX->getIndex(x);
     index[1] = _indexingY->getIndex(y);
 
+    // Points on the boundary can be slightly outside the grid due to roundoff.
+    for (size_t i = 0; i < 2; ++i) {
+        const double indexMax = double(_dims[i]-1);
+        if ((index[i] < 0.0) && (index[i] > -INDEX_TOLERANCE)) {
+            index[i] = 0.0;
+        } else if ((index[i] > indexMax) && (index[i] < indexMax + INDEX_TOLERANCE)) {
+            index[i] = indexMax;
+        } // if/else
+    } // for
+
     double elevation = geomodelgrids::NODATA_VALUE;
     if ((index[0] >= 0) && (index[0] <= double(_dims[0]-1))
         && (index[1] >= 0) && (index[1] <= double(_dims[1]-1))) {
-- 
2.43.0


From 3865fc6e2413e1aa020ddc44ad8eaa848d19431b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:28 +0000
Subject: [PATCH 03/58] fix: Do not reuse cached hyperslab values after a
 failed read

---
 libsrc/geomodelgrids/serial/Hyperslab.cc | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Hyperslab.cc b/libsrc/geomodelgrids/serial/Hyperslab.cc
index 62edad3..3035791 100644
--- a/libsrc/geomodelgrids/serial/Hyperslab.cc
+++ b/libsrc/geomodelgrids/serial/Hyperslab.cc
@@ -9,7 +9,8 @@
 #include <sstream> // USES std::ostringstream
 #include <cassert> // USES assert()
 #include <cmath> // USES floor()
-#include <algorithm> // USES std::min(), std::max()
+#include <algorithm> // USES std::min(), std::max(), std::fill()
+#include <memory> // USES std::unique_ptr
 
 #if !defined(CALL_MEMBER_FN)
 #define CALL_MEMBER_FN(object,ptrToMember)  ((object).*(ptrToMember))
@@ -195,7 +196,7 @@ geomodelgrids::serial::_Hyperslab::~_Hyperslab(void) {}
 void
 geomodelgrids::serial::_Hyperslab::getSlab(const double indexFloat[]) {
     const size_t ndims = _hyperslab._ndims;
-    hsize_t* origin = _hyperslab._origin;
+    const hsize_t* origin = _hyperslab._origin;
     const hsize_t* dims = _hyperslab._dims;
     const hsize_t* dimsAll = _hyperslab._dimsAll;
 
@@ -210,21 +211,25 @@ geomodelgrids::serial::_Hyperslab::getSlab(const double indexFloat[]) {
             } // if
         } // for
     } else {
-        origin = _hyperslab._origin = (ndims > 0) ? new hsize_t[ndims] : nullptr;
-        std::fill(&origin[0], &origin[ndims], 0);
         needsNewSlab = true;
     } // if/else
 
     if (needsNewSlab) {
+        // Current values are not valid until the new ones have been read successfully.
+        delete[] _hyperslab._origin;_hyperslab._origin = nullptr;
+
         // Get hyperslab with target point in the center.
+        std::unique_ptr<hsize_t[]> originNew(new hsize_t[ndims]);
+        std::fill(&originNew[0], &originNew[ndims], 0);
         for (size_t i = 0; i < spaceDim; ++i) {
             hsize_t index = (indexFloat[i] >= dims[i]-1) ? hsize_t(std::floor(indexFloat[i] - (dims[i]-1)/ 2)) : 0;
             index = std::min(index, dimsAll[i]-dims[i]);
-            origin[i] = index;
+            originNew[i] = index;
         } // for
 
-        _hyperslab._h5->readDatasetHyperslab(_hyperslab._values, _hyperslab._datasetPath.c_str(), origin, dims, ndims,
-                                             H5T_NATIVE_DOUBLE);
+        _hyperslab._h5->readDatasetHyperslab(_hyperslab._values, _hyperslab._datasetPath.c_str(), originNew.get(), dims,
+                                             ndims, H5T_NATIVE_DOUBLE);
+        _hyperslab._origin = originNew.release();
     } // if
 } // getSlab
 
-- 
2.43.0


From 96c20cac12378e1d379fb4e80d11d1c310c1126f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:56 +0000
Subject: [PATCH 04/58] fix: Leave query uninitialized after failed
 initialization

---
 libsrc/geomodelgrids/serial/Query.cc | 38 +++++++++++++++-------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Query.cc b/libsrc/geomodelgrids/serial/Query.cc
index 4b63196..9da8e29 100644
--- a/libsrc/geomodelgrids/serial/Query.cc
+++ b/libsrc/geomodelgrids/serial/Query.cc
@@ -91,29 +91,31 @@ void
 geomodelgrids::serial::Query::initialize(const std::vector<std::string>& modelFilenames,
                                          const std::vector<std::string>& valueNames,
                                          const std::string& inputCRSString) {
-    _valuesLowercase = _Query::toLower(valueNames);
-
-    for (size_t i = 0; i < _models.size(); ++i) {
-        _models[i].reset();
-    } // for
+    // Release current models, so that the query is not initialized if an error occurs below.
+    _models.clear();
+    _valuesIndex.clear();
+    _valuesLowercase.clear();
 
+    const std::vector<std::string>& valuesLowercase = _Query::toLower(valueNames);
     const size_t numModels = modelFilenames.size();
-    _models.resize(numModels);
-    _valuesIndex.resize(numModels);
+    std::vector<std::unique_ptr<geomodelgrids::serial::Model> > models(numModels);
+    std::vector<values_map_type> valuesIndex(numModels);
     std::map<size_t, std::string> valueUnits;
     for (size_t iModel = 0; iModel < numModels; ++iModel) {
-        _models[iModel] = std::make_unique<geomodelgrids::serial::Model>();assert(_models[iModel]);
-        _models[iModel]->setInputCRS(inputCRSString);
-        _models[iModel]->open(modelFilenames[iModel].c_str(), geomodelgrids::serial::Model::READ);
-        _models[iModel]->loadMetadata();
-        _models[iModel]->initialize();
-
-        _valuesIndex[iModel] = _Query::createModelValuesIndex(*_models[iModel], _valuesLowercase);
-
-        const std::vector<std::string>& modelValues = _models[iModel]->getValueNames();
-        const std::vector<std::string>& modelUnitsLower = _Query::toLower(_models[iModel]->getValueUnits());
-        _Query::checkUnits(&valueUnits, _valuesIndex[iModel], modelValues, modelUnitsLower);
+        models[iModel] = std::make_unique<geomodelgrids::serial::Model>();assert(models[iModel]);
+        models[iModel]->setInputCRS(inputCRSString);
+        models[iModel]->open(modelFilenames[iModel].c_str(), geomodelgrids::serial::Model::READ);
+        models[iModel]->loadMetadata();
+        models[iModel]->initialize();
+        valuesIndex[iModel] = _Query::createModelValuesIndex(*models[iModel], valuesLowercase);
+        const std::vector<std::string>& modelValues = models[iModel]->getValueNames();
+        const std::vector<std::string>& modelUnitsLower = _Query::toLower(models[iModel]->getValueUnits());
+        _Query::checkUnits(&valueUnits, valuesIndex[iModel], modelValues, modelUnitsLower);
     } // for
+
+    _models = std::move(models);
+    _valuesIndex = std::move(valuesIndex);
+    _valuesLowercase = valuesLowercase;
 } // initialize
 
 
-- 
2.43.0


From e088eb454c6fea4cadf989c41fb3f7f52d616569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:25 +0000
Subject: [PATCH 05/58] fix: Report HDF5 errors when checking for objects and
 closing files instead of aborting

---
 libsrc/geomodelgrids/serial/HDF5.cc | 58 ++++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 13 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/HDF5.cc b/libsrc/geomodelgrids/serial/HDF5.cc
index 75bb504..e5f982b 100644
--- a/libsrc/geomodelgrids/serial/HDF5.cc
+++ b/libsrc/geomodelgrids/serial/HDF5.cc
@@ -49,6 +49,19 @@ struct geomodelgrids::serial::_HDF5Access {
         if (datatype >= 0) { H5Tclose(datatype); }
     } // destructor
 
+    /** Throw std::runtime_error for an error while accessing an object in the file.
+     *
+     * @param[in] message Description of error.
+     * @param[in] name Name of object.
+     */
+    static
+    void throwError(const char* message,
+                    const char* name) {
+        std::ostringstream msg;
+        msg << message << " '" << name << "' in HDF5 file.";
+        throw std::runtime_error(msg.str());
+    } // throwError
+
 };
 
 // ------------------------------------------------------------------------------------------------
@@ -63,7 +76,11 @@ geomodelgrids::serial::HDF5::HDF5(void) :
 // ------------------------------------------------------------------------------------------------
 // Destructor
 geomodelgrids::serial::HDF5::~HDF5(void) {
-    close();
+    try {
+        close();
+    } catch (const std::exception&) {
+        // Destructors must not throw; file is no longer accessible.
+    } // try/catch
 } // destructor
 
 
@@ -93,10 +110,14 @@ geomodelgrids::serial::HDF5::open(const char* filename,
     hid_t fileAccess = H5Pcreate(H5P_FILE_ACCESS);
     if (fileAccess < 0) { throw std::runtime_error("Could not create property for HDF5 cache parameters."); }
     herr_t err = H5Pset_cache(fileAccess, 0, _cacheNumSlots, _cacheSize, _cachePreemption);
-    if (err < 0) { throw std::runtime_error("Could not set HDF5 file cache properties."); }
+    if (err < 0) {
+        H5Pclose(fileAccess);
+        throw std::runtime_error("Could not set HDF5 file cache properties.");
+    } // if
 
     if (hid_t(H5F_ACC_TRUNC) == mode) {
         _file = H5Fcreate(filename, mode, H5P_DEFAULT, fileAccess);
+        H5Pclose(fileAccess);
         if (_file < 0) {
             std::ostringstream msg;
             msg << "Could not create HDF5 file '" << filename << "'.";
@@ -105,15 +126,14 @@ geomodelgrids::serial::HDF5::open(const char* filename,
 
     } else {
         _file = H5Fopen(filename, mode, fileAccess);
+        H5Pclose(fileAccess);
         if (_file < 0) {
             std::ostringstream msg;
             msg << "Could not open existing HDF5 file '" << filename << "'.";
             throw std::runtime_error(msg.str());
         } // if
     } // if/else
-
-    H5Pclose(fileAccess);
-} // constructor
+} // open
 
 
 // ------------------------------------------------------------------------------------------------
@@ -122,11 +142,11 @@ void
 geomodelgrids::serial::HDF5::close(void) {
     if (_file >= 0) {
         herr_t err = H5Fclose(_file);
+        _file = H5_NULL;
         if (err < 0) {
             throw std::runtime_error("Could not close HDF5 file.");
         } // if
     } // if
-    _file = H5_NULL;
 } // close
 
 
@@ -146,16 +166,19 @@ geomodelgrids::serial::HDF5::hasGroup(const char* name) {
     assert(name);
 
     bool exists = false;
-    if (H5Lexists(_file, name, H5P_DEFAULT)) {
+    const htri_t linkExists = H5Lexists(_file, name, H5P_DEFAULT);
+    if (linkExists < 0) { _HDF5Access::throwError("Could not check for object", name); }
+    if (linkExists) {
         _HDF5Access h5access;
-        h5access.object = H5Oopen(_file, name, H5P_DEFAULT);assert(h5access.object >= 0);
+        h5access.object = H5Oopen(_file, name, H5P_DEFAULT);
+        if (h5access.object < 0) { _HDF5Access::throwError("Could not open object", name); }
         H5O_info_t info;
 #if defined(GEOMODELGRIDS_HDF5_USE_API_112)
         herr_t err = H5Oget_info(h5access.object, &info, H5O_INFO_ALL);
 #else
         herr_t err = H5Oget_info(h5access.object, &info);
 #endif
-        assert(err >= 0);
+        if (err < 0) { _HDF5Access::throwError("Could not get information for object", name); }
         if (H5O_TYPE_GROUP == info.type) {
             exists = true;
         } // if
@@ -173,16 +196,19 @@ geomodelgrids::serial::HDF5::hasDataset(const char* name) {
     assert(name);
 
     bool exists = false;
-    if (H5Lexists(_file, name, H5P_DEFAULT)) {
+    const htri_t linkExists = H5Lexists(_file, name, H5P_DEFAULT);
+    if (linkExists < 0) { _HDF5Access::throwError("Could not check for object", name); }
+    if (linkExists) {
         _HDF5Access h5access;
-        h5access.object = H5Oopen(_file, name, H5P_DEFAULT);assert(h5access.object >= 0);
+        h5access.object = H5Oopen(_file, name, H5P_DEFAULT);
+        if (h5access.object < 0) { _HDF5Access::throwError("Could not open object", name); }
         H5O_info_t info;
 #if defined(GEOMODELGRIDS_HDF5_USE_API_112)
         herr_t err = H5Oget_info(h5access.object, &info, H5O_INFO_ALL);
 #else
         herr_t err = H5Oget_info(h5access.object, &info);
 #endif
-        assert(err >= 0);
+        if (err < 0) { _HDF5Access::throwError("Could not get information for object", name); }
         if (H5O_TYPE_DATASET == info.type) {
             exists = true;
         } // if
@@ -255,7 +281,8 @@ geomodelgrids::serial::HDF5::getGroupDatasets(std::vector<std::string>* names,
         for (int i = 0, index = 0; i < gsize; ++i) {
             char buffer[256];
             ssize_t namelen = H5Lget_name_by_idx(h5access.group, ".", H5_INDEX_NAME, H5_ITER_NATIVE, i,
-                                                 buffer, 256, H5P_DEFAULT);assert(namelen > 0);
+                                                 buffer, 256, H5P_DEFAULT);
+            if (namelen <= 0) { throw std::runtime_error("Could not get name of dataset in group."); }
             (*names)[index++] = buffer;
         } // for
 
@@ -278,6 +305,11 @@ geomodelgrids::serial::HDF5::hasAttribute(const char* path,
     assert(name);
 
     htri_t exists = H5Aexists_by_name(_file, path, name, H5P_DEFAULT);
+    if (exists < 0) {
+        std::ostringstream msg;
+        msg << "Could not check for attribute '" << name << "' of '" << path << "'.";
+        throw std::runtime_error(msg.str());
+    } // if
     return exists > 0;
 } // hasAttribute
 
-- 
2.43.0


From 448662cf90423a8d852a3e26719a428fd6ee564a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:49 +0000
Subject: [PATCH 06/58] fix: Report malformed or unreadable HDF5 attributes and
 datasets instead of aborting

---
 libsrc/geomodelgrids/serial/Block.cc   |  7 ++-
 libsrc/geomodelgrids/serial/HDF5.cc    | 62 +++++++++++++++++---------
 libsrc/geomodelgrids/serial/Surface.cc |  7 ++-
 3 files changed, 53 insertions(+), 23 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Block.cc b/libsrc/geomodelgrids/serial/Block.cc
index 821bcfb..6f28ebb 100644
--- a/libsrc/geomodelgrids/serial/Block.cc
+++ b/libsrc/geomodelgrids/serial/Block.cc
@@ -122,7 +122,12 @@ geomodelgrids::serial::Block::loadMetadata(geomodelgrids::serial::HDF5* const h5
     hsize_t* hdims = nullptr;
     int ndims = 0;
     h5->getDatasetDims(&hdims, &ndims, blockPath.c_str());
-    assert(4 == ndims);
+    if (4 != ndims) {
+        delete[] hdims;hdims = nullptr;
+        msg << indent << "    expected dataset with 4 dimensions for /" << blockPath << ", found dataset with "
+            << ndims << " dimensions.\n";
+        throw std::runtime_error(msg.str().c_str());
+    } // if
     for (int i = 0; i < 3; ++i) {
         _dims[i] = hdims[i];
     } // for
diff --git a/libsrc/geomodelgrids/serial/HDF5.cc b/libsrc/geomodelgrids/serial/HDF5.cc
index e5f982b..3d09529 100644
--- a/libsrc/geomodelgrids/serial/HDF5.cc
+++ b/libsrc/geomodelgrids/serial/HDF5.cc
@@ -28,6 +28,7 @@ struct geomodelgrids::serial::_HDF5Access {
     hid_t group;
     hid_t dataset;
     hid_t dataspace;
+    hid_t memspace;
     hid_t attribute;
     hid_t datatype;
 
@@ -36,6 +37,7 @@ struct geomodelgrids::serial::_HDF5Access {
         group(HDF5::H5_NULL),
         dataset(HDF5::H5_NULL),
         dataspace(HDF5::H5_NULL),
+        memspace(HDF5::H5_NULL),
         attribute(HDF5::H5_NULL),
         datatype(HDF5::H5_NULL) {}
 
@@ -45,6 +47,7 @@ struct geomodelgrids::serial::_HDF5Access {
         if (group >= 0) { H5Gclose(group); }
         if (dataset >= 0) { H5Dclose(dataset); }
         if (dataspace >= 0) { H5Sclose(dataspace); }
+        if (memspace >= 0) { H5Sclose(memspace); }
         if (attribute >= 0) { H5Aclose(attribute); }
         if (datatype >= 0) { H5Tclose(datatype); }
     } // destructor
@@ -331,7 +334,11 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
         h5access.attribute = H5Aopen_by_name(_file, path, name, H5P_DEFAULT, H5P_DEFAULT);
         if (h5access.attribute < 0) { throw std::runtime_error("Could not open"); }
 
-        hid_t err = H5Aread(h5access.attribute, datatype, value);
+        h5access.dataspace = H5Aget_space(h5access.attribute);
+        if (h5access.dataspace < 0) { throw std::runtime_error("Could not get dataspace of"); }
+        if (1 != H5Sget_simple_extent_npoints(h5access.dataspace)) { throw std::runtime_error("Expected scalar for"); }
+
+        herr_t err = H5Aread(h5access.attribute, datatype, value);
         if (err < 0) { throw std::runtime_error("Could not read"); }
 
     } catch (std::exception& err) {
@@ -363,19 +370,25 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
 
         h5access.dataspace = H5Aget_space(h5access.attribute);
         if (h5access.dataspace < 0) { throw std::runtime_error("Could not get dataspace of"); }
-        const hsize_t ndims = H5Sget_simple_extent_ndims(h5access.dataspace);assert(1 == ndims);
+        if (1 != H5Sget_simple_extent_ndims(h5access.dataspace)) { throw std::runtime_error("Expected 1-D array for"); }
         hsize_t dims[1];
-        H5Sget_simple_extent_dims(h5access.dataspace, dims, nullptr);
-        const hsize_t numValues = dims[0];assert(numValues > 0);
+        if (H5Sget_simple_extent_dims(h5access.dataspace, dims, nullptr) < 0) {
+            throw std::runtime_error("Could not get dimensions of");
+        } // if
+        const hsize_t numValues = dims[0];
+        if (!numValues) { throw std::runtime_error("Found empty array for"); }
 
         hsize_t typeNumBytes = H5Tget_size(datatype);
-        void* buffer = (void*) new char[numValues * typeNumBytes];
+        char* buffer = new char[numValues * typeNumBytes];
 
         herr_t err = H5Aread(h5access.attribute, datatype, buffer);
-        if (err < 0) { throw std::runtime_error("Could not read"); }
+        if (err < 0) {
+            delete[] buffer;buffer = nullptr;
+            throw std::runtime_error("Could not read");
+        } // if
 
         *valuesSize = numValues;
-        *values = buffer;
+        *values = (void*)buffer;
     } catch (std::exception& err) {
         std::ostringstream msg;
         msg << err.what() << " attribute '" << name << "' of '" << path << "'.";
@@ -414,10 +427,9 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
             buffer[stringLength] = '\0';
 
             herr_t err = H5Aread(h5access.attribute, h5access.datatype, buffer);
-            if (err < 0) { throw std::runtime_error("Could not read"); }
-            value = buffer;
-
+            if (err >= 0) { value = buffer; }
             delete[] buffer;buffer = nullptr;
+            if (err < 0) { throw std::runtime_error("Could not read"); }
         } else {
             herr_t err = H5Aread(h5access.attribute, h5access.datatype, &buffer);
             if (err < 0) { throw std::runtime_error("Could not read"); }
@@ -458,10 +470,13 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
 
         h5access.dataspace = H5Aget_space(h5access.attribute);
         if (h5access.dataspace < 0) { throw std::runtime_error("Could not get dataspace of"); }
-        const hsize_t ndims = H5Sget_simple_extent_ndims(h5access.dataspace);assert(1 == ndims);
+        if (1 != H5Sget_simple_extent_ndims(h5access.dataspace)) { throw std::runtime_error("Expected 1-D array for"); }
         hsize_t dims[1];
-        H5Sget_simple_extent_dims(h5access.dataspace, dims, nullptr);
-        const hsize_t numStrings = dims[0];assert(numStrings > 0);
+        if (H5Sget_simple_extent_dims(h5access.dataspace, dims, nullptr) < 0) {
+            throw std::runtime_error("Could not get dimensions of");
+        } // if
+        const hsize_t numStrings = dims[0];
+        if (!numStrings) { throw std::runtime_error("Found empty array for"); }
 
         char** buffer = new char*[numStrings];
         if (0 == H5Tis_variable_str(h5access.datatype)) { // Fixed length strings
@@ -472,7 +487,11 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
             } // for
 
             herr_t err = H5Aread(h5access.attribute, h5access.datatype, buffer[0]);
-            if (err < 0) { throw std::runtime_error("Could not read"); }
+            if (err < 0) {
+                delete[] buffer[0];buffer[0] = nullptr;
+                delete[] buffer;buffer = nullptr;
+                throw std::runtime_error("Could not read");
+            } // if
 
             values->resize(numStrings);
             for (size_t i = 0; i < values->size(); ++i) {
@@ -488,7 +507,10 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
             delete[] buffer[0];buffer[0] = nullptr;
         } else {
             herr_t err = H5Aread(h5access.attribute, h5access.datatype, buffer);
-            if (err < 0) { throw std::runtime_error("Could not read"); }
+            if (err < 0) {
+                delete[] buffer;buffer = nullptr;
+                throw std::runtime_error("Could not read");
+            } // if
 
             values->resize(numStrings);
             for (size_t i = 0; i < values->size(); ++i) {
@@ -566,17 +588,15 @@ geomodelgrids::serial::HDF5::readDatasetHyperslab(void* values,
             count[i] = 1;
         } // for
 
-        hid_t memspace = H5Screate_simple(ndims, dims, dims);
-        if (memspace < 0) { throw std::runtime_error("Could not create memory space."); }
-
         herr_t err = H5Sselect_hyperslab(h5access.dataspace, H5S_SELECT_SET, origin, stride, count, dims);
         delete[] stride;stride = nullptr;
         delete[] count;count = nullptr;
         if (err < 0) { throw std::runtime_error("Could not select hyperslab."); }
-        err = H5Dread(h5access.dataset, datatype, memspace, h5access.dataspace, H5P_DEFAULT, values);
-        if (err < 0) { throw std::runtime_error("Could not read hyperslab."); }
 
-        H5Sclose(memspace);memspace = H5_NULL;
+        h5access.memspace = H5Screate_simple(ndims, dims, dims);
+        if (h5access.memspace < 0) { throw std::runtime_error("Could not create memory space."); }
+        err = H5Dread(h5access.dataset, datatype, h5access.memspace, h5access.dataspace, H5P_DEFAULT, values);
+        if (err < 0) { throw std::runtime_error("Could not read hyperslab."); }
     } catch (const std::exception& err) {
         std::ostringstream msg;
         msg << "Error occurred while reading dataset '"
diff --git a/libsrc/geomodelgrids/serial/Surface.cc b/libsrc/geomodelgrids/serial/Surface.cc
index 5291af1..47d9d6d 100644
--- a/libsrc/geomodelgrids/serial/Surface.cc
+++ b/libsrc/geomodelgrids/serial/Surface.cc
@@ -88,7 +88,12 @@ geomodelgrids::serial::Surface::loadMetadata(geomodelgrids::serial::HDF5* const
     hsize_t* hdims = nullptr;
     int ndims = 0;
     h5->getDatasetDims(&hdims, &ndims, surfacePath.c_str());
-    assert(3 == ndims);
+    if (3 != ndims) {
+        delete[] hdims;hdims = nullptr;
+        msg << indent << "    expected dataset with 3 dimensions for /" << surfacePath << ", found dataset with "
+            << ndims << " dimensions.\n";
+        throw std::runtime_error(msg.str().c_str());
+    } // if
     for (int i = 0; i < 2; ++i) {
         _dims[i] = hdims[i];
     } // for
-- 
2.43.0


From 266fc165182a221788a50a2a4a84a7b68e4c4373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:05 +0000
Subject: [PATCH 07/58] fix: Honor surface hyperslab dimensions and never throw
 from Model destructor

---
 libsrc/geomodelgrids/serial/Block.cc   | 5 +++--
 libsrc/geomodelgrids/serial/Model.cc   | 6 +++++-
 libsrc/geomodelgrids/serial/Surface.cc | 7 ++++---
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Block.cc b/libsrc/geomodelgrids/serial/Block.cc
index 6f28ebb..6398909 100644
--- a/libsrc/geomodelgrids/serial/Block.cc
+++ b/libsrc/geomodelgrids/serial/Block.cc
@@ -307,9 +307,10 @@ void
 geomodelgrids::serial::Block::openQuery(geomodelgrids::serial::HDF5* const h5) {
     const size_t ndims = 4;
     hsize_t dims[ndims];
-    for (size_t i = 0; i < ndims; ++i) {
-        dims[i] = _hyperslabDims[i];
+    for (size_t i = 0; i < ndims-1; ++i) {
+        dims[i] = std::max(size_t(2), _hyperslabDims[i]); // Interpolation uses 2 points in each spatial dimension.
     } // for
+    dims[ndims-1] = _hyperslabDims[ndims-1];
     const std::string blockPath(std::string("/blocks/") + _name);
     delete _hyperslab;_hyperslab = new geomodelgrids::serial::Hyperslab(h5, blockPath.c_str(), dims, ndims);
 
diff --git a/libsrc/geomodelgrids/serial/Model.cc b/libsrc/geomodelgrids/serial/Model.cc
index b09aade..415a622 100644
--- a/libsrc/geomodelgrids/serial/Model.cc
+++ b/libsrc/geomodelgrids/serial/Model.cc
@@ -35,7 +35,11 @@ geomodelgrids::serial::Model::Model(void) :
 // ------------------------------------------------------------------------------------------------
 // Destructor
 geomodelgrids::serial::Model::~Model(void) {
-    this->close();
+    try {
+        this->close();
+    } catch (const std::exception&) {
+        // Destructors must not throw; model is no longer accessible.
+    } // try/catch
 } // destructor
 
 
diff --git a/libsrc/geomodelgrids/serial/Surface.cc b/libsrc/geomodelgrids/serial/Surface.cc
index 47d9d6d..de6e5fa 100644
--- a/libsrc/geomodelgrids/serial/Surface.cc
+++ b/libsrc/geomodelgrids/serial/Surface.cc
@@ -196,9 +196,10 @@ void
 geomodelgrids::serial::Surface::openQuery(geomodelgrids::serial::HDF5* const h5) {
     const size_t ndims = 3;
     hsize_t dims[ndims];
-    dims[0] = 128;
-    dims[1] = 128;
-    dims[2] = 1;
+    for (size_t i = 0; i < ndims-1; ++i) {
+        dims[i] = std::max(size_t(2), _hyperslabDims[i]); // Interpolation uses 2 points in each spatial dimension.
+    } // for
+    dims[ndims-1] = _hyperslabDims[ndims-1];
     const std::string& surfacePath = std::string("surfaces/") + _name;
     delete _hyperslab;_hyperslab = new geomodelgrids::serial::Hyperslab(h5, surfacePath.c_str(), dims, ndims);
 } // openQuery
-- 
2.43.0


From 36fe69c50a0348062c24f7dc929c752a2f0dad63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:30 +0000
Subject: [PATCH 08/58] fix: Do not let exceptions cross the C API when
 initializing or finalizing queries

---
 libsrc/geomodelgrids/serial/cquery.cc | 29 ++++++++++++++++-----------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/cquery.cc b/libsrc/geomodelgrids/serial/cquery.cc
index a172462..4c722de 100644
--- a/libsrc/geomodelgrids/serial/cquery.cc
+++ b/libsrc/geomodelgrids/serial/cquery.cc
@@ -63,20 +63,20 @@ geomodelgrids_squery_initialize(void* handle,
         return geomodelgrids::utils::ErrorHandler::ERROR;
     } // if
 
-    std::vector < std::string > modelFilenamesCxx(modelFilenamesSize);
-    for (int i = 0; i < modelFilenamesSize; ++i) {
-        modelFilenamesCxx[i] = modelFilenames[i];
-    } // for
+    assert(query);
+    try {
+        std::vector < std::string > modelFilenamesCxx(modelFilenamesSize);
+        for (int i = 0; i < modelFilenamesSize; ++i) {
+            modelFilenamesCxx[i] = modelFilenames[i];
+        } // for
 
-    std::vector < std::string > valueNamesCxx(valueNamesSize);
-    for (int i = 0; i < valueNamesSize; ++i) {
-        valueNamesCxx[i] = valueNames[i];
-    } // for
+        std::vector < std::string > valueNamesCxx(valueNamesSize);
+        for (int i = 0; i < valueNamesSize; ++i) {
+            valueNamesCxx[i] = valueNames[i];
+        } // for
 
-    const std::string& inputCRSStringCxx(inputCRSString);
+        const std::string& inputCRSStringCxx(inputCRSString);
 
-    assert(query);
-    try {
         query->initialize(modelFilenamesCxx, valueNamesCxx, inputCRSStringCxx);
     } catch (const std::exception& err) {
         std::shared_ptr<geomodelgrids::utils::ErrorHandler>& errorHandler = query->getErrorHandler();
@@ -281,7 +281,12 @@ geomodelgrids_squery_finalize(void* handle) {
     } // if
 
     assert(query);
-    query->finalize();
+    try {
+        query->finalize();
+    } catch (const std::exception& err) {
+        std::shared_ptr<geomodelgrids::utils::ErrorHandler>& errorHandler = query->getErrorHandler();
+        errorHandler->setError(err.what());
+    } // try/catch
 
     return query->getErrorHandler()->getStatus();
 } // finalize
-- 
2.43.0


From 40db63862e92e0dd1cb91a87b78d02e232f1b203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:45 +0000
Subject: [PATCH 09/58] fix: Report error instead of aborting when querying
 after finalize

---
 libsrc/geomodelgrids/serial/Query.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Query.cc b/libsrc/geomodelgrids/serial/Query.cc
index 9da8e29..de12e8d 100644
--- a/libsrc/geomodelgrids/serial/Query.cc
+++ b/libsrc/geomodelgrids/serial/Query.cc
@@ -248,9 +248,15 @@ geomodelgrids::serial::Query::query(double* const values,
 // Cleanup after querying.
 void
 geomodelgrids::serial::Query::finalize(void) {
-    for (size_t i = 0; i < _models.size(); ++i) {
-        if (_models[i]) {
-            _models[i]->close();
+    // Release models, so that the query is not initialized after closing the models.
+    std::vector<std::unique_ptr<geomodelgrids::serial::Model> > models = std::move(_models);
+    _models.clear();
+    _valuesIndex.clear();
+    _valuesLowercase.clear();
+
+    for (size_t i = 0; i < models.size(); ++i) {
+        if (models[i]) {
+            models[i]->close();
         } // if
     } // for
 } // finalize
-- 
2.43.0


From 9ce6278dcb7454b358ee8bcc791395420b895218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:22 +0000
Subject: [PATCH 10/58] fix: Report unreadable points and failed writes of
 output in applications instead of exiting normally

---
 libsrc/geomodelgrids/apps/Borehole.cc  |  9 ++++++++-
 libsrc/geomodelgrids/apps/Query.cc     | 17 +++++++++++++++--
 libsrc/geomodelgrids/apps/QueryElev.cc | 17 +++++++++++++++--
 3 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Borehole.cc b/libsrc/geomodelgrids/apps/Borehole.cc
index 959191d..1b45a30 100644
--- a/libsrc/geomodelgrids/apps/Borehole.cc
+++ b/libsrc/geomodelgrids/apps/Borehole.cc
@@ -92,7 +92,14 @@ geomodelgrids::apps::Borehole::run(int argc,
             sout << std::setw(_Borehole::cwidth) << values[i];
         } // for
         sout << "\n";
-    } // while
+    } // for
+
+    sout.close();
+    if (sout.fail()) {
+        std::ostringstream msg;
+        msg << "Error writing output file '" << _outputFilename << "'.";
+        throw std::runtime_error(msg.str().c_str());
+    } // if
 
     query.finalize();
 
diff --git a/libsrc/geomodelgrids/apps/Query.cc b/libsrc/geomodelgrids/apps/Query.cc
index d24c2c4..6bf0027 100644
--- a/libsrc/geomodelgrids/apps/Query.cc
+++ b/libsrc/geomodelgrids/apps/Query.cc
@@ -81,10 +81,16 @@ geomodelgrids::apps::Query::run(int argc,
     std::vector<double> values(numQueryValues);
     sout << std::scientific << std::setprecision(_Query::precision);
     while (true) {
+        sin >> std::ws;
+        if (sin.eof() && !sin.bad()) {
+            break;
+        } // if
         double srcX, srcY, srcZ;
         sin >> srcX >> srcY >> srcZ;
-        if (sin.eof() || !sin.good()) {
-            break;
+        if (sin.fail()) {
+            std::ostringstream msg;
+            msg << "Error reading point from points file '" << _pointsFilename << "'. Expected coordinates 'X Y Z'.";
+            throw std::runtime_error(msg.str().c_str());
         } // if
 
         query.query(&values[0], srcX, srcY, srcZ);
@@ -98,6 +104,13 @@ geomodelgrids::apps::Query::run(int argc,
         sout << "\n";
     } // while
 
+    sout.close();
+    if (sout.fail()) {
+        std::ostringstream msg;
+        msg << "Error writing output file '" << _outputFilename << "'.";
+        throw std::runtime_error(msg.str().c_str());
+    } // if
+
     query.finalize();
 
     return 0;
diff --git a/libsrc/geomodelgrids/apps/QueryElev.cc b/libsrc/geomodelgrids/apps/QueryElev.cc
index 24a2250..ef47be4 100644
--- a/libsrc/geomodelgrids/apps/QueryElev.cc
+++ b/libsrc/geomodelgrids/apps/QueryElev.cc
@@ -74,10 +74,16 @@ geomodelgrids::apps::QueryElev::run(int argc,
     sout << _createOutputHeader(argc, argv);
     sout << std::scientific << std::setprecision(_QueryElev::precision);
     while (true) {
+        sin >> std::ws;
+        if (sin.eof() && !sin.bad()) {
+            break;
+        } // if
         double srcX, srcY;
         sin >> srcX >> srcY;
-        if (sin.eof() || !sin.good()) {
-            break;
+        if (sin.fail()) {
+            std::ostringstream msg;
+            msg << "Error reading point from points file '" << _pointsFilename << "'. Expected coordinates 'X Y'.";
+            throw std::runtime_error(msg.str().c_str());
         } // if
 
         const double elev = (_useTopoBathy) ? query.queryTopoBathyElevation(srcX, srcY) : query.queryTopElevation(srcX, srcY);
@@ -88,6 +94,13 @@ geomodelgrids::apps::QueryElev::run(int argc,
              << "\n";
     } // while
 
+    sout.close();
+    if (sout.fail()) {
+        std::ostringstream msg;
+        msg << "Error writing output file '" << _outputFilename << "'.";
+        throw std::runtime_error(msg.str().c_str());
+    } // if
+
     query.finalize();
 
     return 0;
-- 
2.43.0


From 2343d8358b920ded4451269ddb4a30e3bdd2fb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:22 +0000
Subject: [PATCH 11/58] fix: Separate column names in output header when names
 are as wide as the columns

---
 libsrc/geomodelgrids/apps/Borehole.cc | 2 +-
 libsrc/geomodelgrids/apps/Query.cc    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Borehole.cc b/libsrc/geomodelgrids/apps/Borehole.cc
index 1b45a30..f5deb61 100644
--- a/libsrc/geomodelgrids/apps/Borehole.cc
+++ b/libsrc/geomodelgrids/apps/Borehole.cc
@@ -257,7 +257,7 @@ geomodelgrids::apps::Borehole::_createOutputHeader(int argc,
            << std::setw(_Borehole::cwidth-1) << "Elevation"
            << std::setw(_Borehole::cwidth) << "Depth";
     for (size_t i = 0; i < _valueNames.size(); ++i) {
-        header << std::setw(_Borehole::cwidth) << _valueNames[i];
+        header << " " << std::setw(_Borehole::cwidth-1) << _valueNames[i];
     } // for
     header << "\n";
     return header.str();
diff --git a/libsrc/geomodelgrids/apps/Query.cc b/libsrc/geomodelgrids/apps/Query.cc
index 6bf0027..def20f7 100644
--- a/libsrc/geomodelgrids/apps/Query.cc
+++ b/libsrc/geomodelgrids/apps/Query.cc
@@ -272,7 +272,7 @@ geomodelgrids::apps::Query::_createOutputHeader(int argc,
            << std::setw(_Query::cwidth) << "x1"
            << std::setw(_Query::cwidth) << "x2";
     for (size_t i = 0; i < _valueNames.size(); ++i) {
-        header << std::setw(_Query::cwidth) << _valueNames[i];
+        header << " " << std::setw(_Query::cwidth-1) << _valueNames[i];
     } // for
     header << "\n";
     return header.str();
-- 
2.43.0


From 822f07965074c88de75f64ec40c3604890eeabf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:22 +0000
Subject: [PATCH 12/58] fix: Include point at maximum depth in virtual borehole
 despite roundoff

---
 libsrc/geomodelgrids/apps/Borehole.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/apps/Borehole.cc b/libsrc/geomodelgrids/apps/Borehole.cc
index f5deb61..345b95d 100644
--- a/libsrc/geomodelgrids/apps/Borehole.cc
+++ b/libsrc/geomodelgrids/apps/Borehole.cc
@@ -68,7 +68,8 @@ geomodelgrids::apps::Borehole::run(int argc,
     } else if (groundSurf != 0.0) {
         groundSurf += groundOffset;
     } // if
-    const size_t numPoints = size_t(1 + _maxDepth / _dz);
+    const double roundoff = 1.0e-6; // Include point at maximum depth if spacing evenly divides maximum depth.
+    const size_t numPoints = size_t(1 + _maxDepth / _dz + roundoff);
 
     std::ofstream sout(_outputFilename);
     if (!sout.is_open() && !sout.good()) {
-- 
2.43.0


From 243d4b791cce0f3afcefbeea062ff4aaaba8d58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:03 +0000
Subject: [PATCH 13/58] fix: Report errors from closing GeoTiff files

---
 libsrc/geomodelgrids/utils/GeoTiff.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/utils/GeoTiff.cc b/libsrc/geomodelgrids/utils/GeoTiff.cc
index 3c2ecdf..99edad4 100644
--- a/libsrc/geomodelgrids/utils/GeoTiff.cc
+++ b/libsrc/geomodelgrids/utils/GeoTiff.cc
@@ -27,7 +27,11 @@ geomodelgrids::utils::GeoTiff::GeoTiff(void) :
 
 // ------------------------------------------------------------------------------------------------
 geomodelgrids::utils::GeoTiff::~GeoTiff(void) {
-    this->close();
+    try {
+        this->close();
+    } catch (const std::exception&) {
+        // Destructor must not throw exceptions. Call close() explicitly to detect errors in closing file.
+    } // try/catch
 }
 
 
@@ -272,14 +276,21 @@ geomodelgrids::utils::GeoTiff::read(const char* filename) {
 void
 geomodelgrids::utils::GeoTiff::close(void) {
     delete[] _buffer;_buffer = nullptr;
+    bool closeError = false;
     if (_dataset) {
+        // GDAL buffers data, so failures in writing may not occur until the file is closed.
+        CPLErrorReset();
         GDALClose(_dataset);
+        closeError = CPLGetLastErrorType() >= CE_Failure;
         _dataset = nullptr;
     } // if
     if (_driver) {
         GDALDestroyDriverManager();
         _driver = nullptr;
     } // if
+    if (closeError) {
+        throw std::runtime_error("Error while closing GeoTiff file.");
+    } // if
 }
 
 
-- 
2.43.0


From c9ab1f6f633d03b054eaee2fba6a640a0a217d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:13 +0000
Subject: [PATCH 14/58] fix: Georeference isosurface pixels at the sampled
 locations

---
 libsrc/geomodelgrids/apps/Isosurface.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/apps/Isosurface.cc b/libsrc/geomodelgrids/apps/Isosurface.cc
index e7c0524..966b44e 100644
--- a/libsrc/geomodelgrids/apps/Isosurface.cc
+++ b/libsrc/geomodelgrids/apps/Isosurface.cc
@@ -190,7 +190,8 @@ geomodelgrids::apps::Isosurface::run(int argc,
         writer.setNumBands(numIsosurfaces);
         writer.setBandLabels(bandLabels);
         writer.setCRS(_bboxCRS.c_str());
-        writer.setBBox(_minX, _maxX, _minY, _maxY);
+        // Image spans integer number of pixels with dimension _horizRes, which may differ from bounding box.
+        writer.setBBox(_minX, _minX + numX*_horizRes, _minY, _minY + numY*_horizRes);
         writer.setNoDataValue(geomodelgrids::NODATA_VALUE);
         writer.create(_outputFilename.c_str());
 
-- 
2.43.0


From 11c6ef35aca4859d9d13c299e028105db537b273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:40 +0000
Subject: [PATCH 15/58] fix: Resolve isosurface depth to vertical resolution
 and do not abort for shallow maximum depths

---
 libsrc/geomodelgrids/apps/Isosurface.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Isosurface.cc b/libsrc/geomodelgrids/apps/Isosurface.cc
index 966b44e..17b2414 100644
--- a/libsrc/geomodelgrids/apps/Isosurface.cc
+++ b/libsrc/geomodelgrids/apps/Isosurface.cc
@@ -389,8 +389,8 @@ geomodelgrids::apps::Isosurface::_parseArgs(int argc,
             msg << "    - Maximum depth (" << _maxDepth << ") must be positive.\n";
             optionsOkay = false;
         } // if
-        if (_numSearchPoints < 2) {
-            msg << "    - Number of search points (" << _numSearchPoints << ") must be at least 2.\n";
+        if (_numSearchPoints < 3) {
+            msg << "    - Number of search points (" << _numSearchPoints << ") must be at least 3.\n";
             optionsOkay = false;
         } // if
         if (_isosurfaces.empty()) {
@@ -471,8 +471,10 @@ geomodelgrids::apps::Isosurfacer::initialize(void) {
     } // for
     _query->initialize(_app._modelFilenames, valueNames, _app._bboxCRS);
 
-    _numLevels = size_t(ceil(log(_app._maxDepth/_app._vertRes) / log(_app._numSearchPoints)));
-    assert(_numLevels >= 1);
+    // Each level of the search reduces the depth range by a factor of _numSearchPoints-1.
+    assert(_app._numSearchPoints > 2);
+    const double numLevels = ceil(log(_app._maxDepth/_app._vertRes) / log(_app._numSearchPoints-1));
+    _numLevels = size_t(std::max(1.0, numLevels));
 
     const size_t numValues = _app._isosurfaces.size();
     _vbuffer.resize(numValues);
-- 
2.43.0


From 441bdbf89a8cfc82166a664a6af6be907a3b8624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:14 +0000
Subject: [PATCH 16/58] fix: Report unknown coordinate system instead of
 aborting and use requested axis when getting units

---
 libsrc/geomodelgrids/utils/CRSTransformer.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/utils/CRSTransformer.cc b/libsrc/geomodelgrids/utils/CRSTransformer.cc
index f30d767..0fb88c9 100644
--- a/libsrc/geomodelgrids/utils/CRSTransformer.cc
+++ b/libsrc/geomodelgrids/utils/CRSTransformer.cc
@@ -7,6 +7,7 @@
 #include <cassert> // USES assert()
 #include <cstring> // USES strlen()
 #include <strings.h> // USES stdcasecmp()
+#include <stdexcept> // USES std::runtime_error
 
 namespace geomodelgrids {
     namespace utils {
@@ -174,7 +175,12 @@ geomodelgrids::utils::CRSTransformer::getCRSUnits(std::string* xUnit,
     if (!crsString || (0 == strlen(crsString))) { return; }
 
     PJ_CONTEXT* context = PJ_DEFAULT_CTX;
-    PJ* proj = proj_create(context, crsString);assert(proj);
+    PJ* proj = proj_create(context, crsString);
+    if (!proj) {
+        std::ostringstream msg;
+        msg << "Error parsing coordinate system '" << crsString << "'.";
+        throw std::runtime_error(msg.str());
+    } // if
     PJ* projCoordSys = proj_crs_get_coordinate_system(context, proj);
     if (projCoordSys) {
         _CRSTransformer::getUnits(xUnit, yUnit, zUnit, projCoordSys);
@@ -232,7 +238,10 @@ geomodelgrids::utils::_CRSTransformer::getAxisUnit(std::string* unit,
     assert(projCoordSys);
 
     const char* buffer = nullptr;
-    proj_cs_get_axis_info(nullptr, projCoordSys, 0, nullptr, nullptr, nullptr, nullptr, &buffer, nullptr, nullptr);
+    proj_cs_get_axis_info(nullptr, projCoordSys, axisIndex, nullptr, nullptr, nullptr, nullptr, &buffer, nullptr, nullptr);
+    if (!buffer) {
+        return;
+    } // if
     if (strcasecmp("metre", buffer) == 0) {
         *unit = "meter";
     } else if (strcasecmp("meter", buffer) == 0) {
-- 
2.43.0


From 37e2641e2e95f681dedec1047c2b7581a0849476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:46 +0000
Subject: [PATCH 17/58] fix: Discard block and surface coordinates that do not
 match dimensions of dataset

---
 libsrc/geomodelgrids/serial/Block.cc   | 5 ++++-
 libsrc/geomodelgrids/serial/Surface.cc | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/serial/Block.cc b/libsrc/geomodelgrids/serial/Block.cc
index 6398909..2475ff0 100644
--- a/libsrc/geomodelgrids/serial/Block.cc
+++ b/libsrc/geomodelgrids/serial/Block.cc
@@ -146,16 +146,19 @@ geomodelgrids::serial::Block::loadMetadata(geomodelgrids::serial::HDF5* const h5
     if (_coordinatesX && (dims[0] != _dims[0])) {
         msg << indent << "    x dimension of block " << blockPath << " (" << _dims[0]
             << ") does not match number of x coordinates (" << dims[0] << ").\n";
+        delete[] _coordinatesX;_coordinatesX = nullptr;
         attributeErrors = true;
     } // if
     if (_coordinatesY && (dims[1] != _dims[1])) {
         msg << indent << "    y dimension of block " << blockPath << " (" << _dims[1]
             << ") does not match number of x coordinates (" << dims[1] << ").\n";
+        delete[] _coordinatesY;_coordinatesY = nullptr;
         attributeErrors = true;
     } // if
     if (_coordinatesZ && (dims[2] != _dims[2])) {
         msg << indent << "    z dimension of block " << blockPath << " (" << _dims[2]
             << ") does not match number of x coordinates (" << dims[2] << ").\n";
+        delete[] _coordinatesZ;_coordinatesZ = nullptr;
         attributeErrors = true;
     } // if
 
@@ -233,7 +236,7 @@ geomodelgrids::serial::Block::getZBottom(void) const {
     double zBottom = 0.0;
     if (_resolutionZ > 0.0) {
         zBottom = _zTop - _resolutionZ * (_dims[2] - 1);
-    } else if (_coordinatesZ) {
+    } else if (_coordinatesZ && (_dims[2] > 0)) {
         zBottom = _coordinatesZ[_dims[2]-1];
     } // if/else
 
diff --git a/libsrc/geomodelgrids/serial/Surface.cc b/libsrc/geomodelgrids/serial/Surface.cc
index de6e5fa..4cfb274 100644
--- a/libsrc/geomodelgrids/serial/Surface.cc
+++ b/libsrc/geomodelgrids/serial/Surface.cc
@@ -103,11 +103,13 @@ geomodelgrids::serial::Surface::loadMetadata(geomodelgrids::serial::HDF5* const
     if (_coordinatesX && (dims[0] != _dims[0])) {
         msg << indent << "    x dimension of surface " << surfacePath << " (" << _dims[0]
             << ") does not match number of x coordinates (" << dims[0] << ").\n";
+        delete[] _coordinatesX;_coordinatesX = nullptr;
         attributeErrors = true;
     } // if
     if (_coordinatesY && (dims[1] != _dims[1])) {
         msg << indent << "    y dimension of surface " << surfacePath << " (" << _dims[1]
             << ") does not match number of x coordinates (" << dims[1] << ").\n";
+        delete[] _coordinatesY;_coordinatesY = nullptr;
         attributeErrors = true;
     } // if
 
-- 
2.43.0


From 3a0ef2e7f69b20b9316a8d399b507f6593931e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:56 +0000
Subject: [PATCH 18/58] fix: Keep errors for one model file from aborting info
 application or affecting other files

---
 libsrc/geomodelgrids/apps/Info.cc | 80 ++++++++++++++++++++-----------
 1 file changed, 51 insertions(+), 29 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Info.cc b/libsrc/geomodelgrids/apps/Info.cc
index fba6e3d..789aa4d 100644
--- a/libsrc/geomodelgrids/apps/Info.cc
+++ b/libsrc/geomodelgrids/apps/Info.cc
@@ -73,35 +73,42 @@ geomodelgrids::apps::Info::run(int argc,
         return 0;
     } // if
 
-    geomodelgrids::serial::Model model;
+    int status = 0;
     const size_t numModels = _modelFilenames.size();
     for (size_t i = 0; i < numModels; ++i) {
-        model.open(_modelFilenames[i].c_str(), geomodelgrids::serial::Model::READ);
-
-        std::cout << "Model: " << _modelFilenames[i] << std::endl;
-        if (_doVerification || _showAll) {
-            _verify(&model);
-        } else {
-            try {
-                model.loadMetadata();
-            } catch (const std::exception& err) {
-                std::cout << _Info::indent(1)
-                          << "WARNING: Errors encountered while reading metadata. Information may be incomplete.\n";
-                if (!_doVerification && !_showAll) {
-                    std::cout << err.what();
-                } // if
-            } // try/catch
-        } // if/else
+        // An error for one file should not affect the information for the others.
+        try {
+            geomodelgrids::serial::Model model;
+            model.open(_modelFilenames[i].c_str(), geomodelgrids::serial::Model::READ);
+
+            std::cout << "Model: " << _modelFilenames[i] << std::endl;
+            if (_doVerification || _showAll) {
+                _verify(&model);
+            } else {
+                try {
+                    model.loadMetadata();
+                } catch (const std::runtime_error& err) {
+                    std::cout << _Info::indent(1)
+                              << "WARNING: Errors encountered while reading metadata. Information may be incomplete.\n";
+                    if (!_doVerification && !_showAll) {
+                        std::cout << err.what();
+                    } // if
+                } // try/catch
+            } // if/else
 
-        if (_showDescription || _showAll) { _printDescription(&model); }
-        if (_showCoordSys || _showAll) { _printCoordSys(&model); }
-        if (_showValues || _showAll) { _printValues(&model); }
-        if (_showBlocks || _showAll) { _printBlocks(&model); }
+            if (_showDescription || _showAll) { _printDescription(&model); }
+            if (_showCoordSys || _showAll) { _printCoordSys(&model); }
+            if (_showValues || _showAll) { _printValues(&model); }
+            if (_showBlocks || _showAll) { _printBlocks(&model); }
 
-        model.close();
+            model.close();
+        } catch (const std::exception& ex) {
+            std::cerr << "Error getting information for model '" << _modelFilenames[i] << "'. " << ex.what() << std::endl;
+            status = 1;
+        } // try/catch
     } // for
 
-    return 0;
+    return status;
 } // run
 
 
@@ -243,8 +250,14 @@ geomodelgrids::apps::Info::_printDescription(geomodelgrids::serial::Model* const
     const double* dims = model->getDims();
     std::cout << _Info::indent(1) << "Dimensions of model: x=" << dims[0] << ", y="<< dims[1] << ", z=" << dims[2] << "\n";
 
-    const double* bbox = _Info::computeBoundingBox(model);
     std::cout << _Info::indent(1) << "Bounding box (WGS84):" << std::resetiosflags(std::ios::fixed);
+    const double* bbox = nullptr;
+    try {
+        bbox = _Info::computeBoundingBox(model);
+    } catch (const std::runtime_error& err) {
+        std::cout << " unknown\n";
+        return;
+    } // try/catch
     for (size_t i = 0; i < 4; ++i) {
         const size_t dim = 2;
         std::cout << " ("
@@ -272,7 +285,11 @@ geomodelgrids::apps::Info::_printCoordSys(geomodelgrids::serial::Model* const mo
     std::string xUnit;
     std::string yUnit;
     std::string zUnit;
-    geomodelgrids::utils::CRSTransformer::getCRSUnits(&xUnit, &yUnit, &zUnit, model->getCRSString().c_str());
+    try {
+        geomodelgrids::utils::CRSTransformer::getCRSUnits(&xUnit, &yUnit, &zUnit, model->getCRSString().c_str());
+    } catch (const std::runtime_error& err) {
+        // CRS cannot be parsed, so the units are unknown.
+    } // try/catch
     std::cout << _Info::indent(2) << "Coordinate system units:"
               << " x=" << xUnit << ", y=" << yUnit << ", z=" << zUnit << "\n";
 
@@ -294,9 +311,9 @@ geomodelgrids::apps::Info::_printValues(geomodelgrids::serial::Model* const mode
     const std::vector<std::string>& names = model->getValueNames();
     const std::vector<std::string>& units = model->getValueUnits();
     const size_t size = names.size();
-    assert(units.size() == size);
     for (size_t i = 0; i < size; ++i) {
-        std::cout << _Info::indent(2) << i << ": " << names[i] << " (" << units[i] << ")" << "\n";
+        const std::string& unit = (i < units.size()) ? units[i] : "unknown";
+        std::cout << _Info::indent(2) << i << ": " << names[i] << " (" << unit << ")" << "\n";
     } // for
 
     switch (model->getDataLayout()) {
@@ -455,8 +472,13 @@ geomodelgrids::apps::_Info::verifyCoordSys(const geomodelgrids::serial::Model* m
 
     std::string xUnit;
     std::string yUnit;
-    geomodelgrids::utils::CRSTransformer::getCRSUnits(&xUnit, &yUnit, nullptr,
-                                                      model->getCRSString().c_str());
+    try {
+        geomodelgrids::utils::CRSTransformer::getCRSUnits(&xUnit, &yUnit, nullptr,
+                                                          model->getCRSString().c_str());
+    } catch (const std::runtime_error& err) {
+        std::cout << "FAIL\n" << _Info::indent(3) << err.what() << "\n";
+        ok = false;
+    } // try/catch
     if (xUnit != yUnit) {
         if (ok) { std::cout << "FAIL\n"; }
         std::cout << _Info::indent(3) << "Units for x (" << xUnit << ") and y (" << yUnit
-- 
2.43.0


From 0af9a9ad8dda683f9f5311016e28c77d48579359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:59 +0000
Subject: [PATCH 19/58] fix: Account for variable resolution when verifying
 span of grids and displaying dimensions of blocks

---
 libsrc/geomodelgrids/apps/Info.cc | 33 ++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Info.cc b/libsrc/geomodelgrids/apps/Info.cc
index 789aa4d..a90d4af 100644
--- a/libsrc/geomodelgrids/apps/Info.cc
+++ b/libsrc/geomodelgrids/apps/Info.cc
@@ -40,6 +40,11 @@ namespace geomodelgrids {
 
             const double* computeBoundingBox(const geomodelgrids::serial::Model* model);
 
+            // Compute span of grid along axis with uniform resolution or, if given, variable resolution.
+            double computeSpan(const double resolution,
+                               const double* coordinates,
+                               const size_t numPoints);
+
         } // _Info
     } // apps
 } // geomodelgrids
@@ -375,9 +380,9 @@ geomodelgrids::apps::Info::_printBlocks(geomodelgrids::serial::Model* const mode
         const size_t* dims = blocks[i]->getDims();
         std::cout << _Info::indent(3) << "Number of points: x=" << dims[0] << ", y=" << dims[1] << ", z=" << dims[2] << "\n";
 
-        const double dim_x = blocks[i]->getResolutionX() * (dims[0] - 1);
-        const double dim_y = blocks[i]->getResolutionY() * (dims[1] - 1);
-        const double dim_z = blocks[i]->getResolutionZ() * (dims[2] - 1);
+        const double dim_x = _Info::computeSpan(blocks[i]->getResolutionX(), blocks[i]->getCoordinatesX(), dims[0]);
+        const double dim_y = _Info::computeSpan(blocks[i]->getResolutionY(), blocks[i]->getCoordinatesY(), dims[1]);
+        const double dim_z = blocks[i]->getZTop() - blocks[i]->getZBottom();
         std::cout << _Info::indent(3) << "Dimensions: x=" << dim_x << ", y=" << dim_y << ", z=" << dim_z << "\n";
     } // for
 } // _printBlocks
@@ -507,11 +512,14 @@ geomodelgrids::apps::_Info::verifySurface(const geomodelgrids::serial::Surface*
     resolution[0] = surface->getResolutionX();
     resolution[1] = surface->getResolutionY();
     const size_t* numTopo = surface->getDims();
+    double span[2];
+    span[0] = computeSpan(resolution[0], surface->getCoordinatesX(), numTopo[0]);
+    span[1] = computeSpan(resolution[1], surface->getCoordinatesY(), numTopo[1]);
 
     const double tolerance = 1.0e-6;
     const std::string dimLabel[2] = { "x", "y" };
     for (size_t iDim = 0; iDim < 2; ++iDim) {
-        if (fabs(1.0 - resolution[iDim]*(numTopo[iDim]-1)/dimsDomain[iDim]) > tolerance) {
+        if (fabs(1.0 - span[iDim]/dimsDomain[iDim]) > tolerance) {
             if (ok) { std::cout << "FAIL\n"; }
             std::cout << _Info::indent(3) << "Surface '" << name << "' does not span the domain in the " << dimLabel[iDim]
                       << " dimension (surface=" << resolution[iDim]*numTopo[iDim] << ", domain=" << dimsDomain[iDim] << ").\n";
@@ -538,13 +546,16 @@ geomodelgrids::apps::_Info::verifyBlock(geomodelgrids::serial::Block* block,
     resolution[0] = block->getResolutionX();
     resolution[1] = block->getResolutionY();
     const size_t* numBlock = block->getDims();
+    double span[2];
+    span[0] = computeSpan(resolution[0], block->getCoordinatesX(), numBlock[0]);
+    span[1] = computeSpan(resolution[1], block->getCoordinatesY(), numBlock[1]);
 
     const double tolerance = 1.0e-6;
 
     // Verify block spans the domain.
     const std::string dimLabel[2] = { "x", "y" };
     for (size_t iDim = 0; iDim < 2; ++iDim) {
-        if (fabs(1.0 - resolution[iDim]*(numBlock[iDim]-1)/dimsDomain[iDim]) > tolerance) {
+        if (fabs(1.0 - span[iDim]/dimsDomain[iDim]) > tolerance) {
             if (ok) { std::cout << "FAIL\n"; }
             std::cout << _Info::indent(3) << "Block '" << block->getName() << "' does not span the domain in the "
                       << dimLabel[iDim] << " dimension (block=" << resolution[iDim]*numBlock[iDim] << ", domain="
@@ -623,6 +634,18 @@ geomodelgrids::apps::_Info::verifyBlocksZ(const std::vector<std::shared_ptr<geom
 }
 
 
+// ------------------------------------------------------------------------------------------------
+double
+geomodelgrids::apps::_Info::computeSpan(const double resolution,
+                                        const double* coordinates,
+                                        const size_t numPoints) {
+    if (coordinates) {
+        return (numPoints > 0) ? coordinates[numPoints-1] - coordinates[0] : 0.0;
+    } // if
+    return resolution * (numPoints - 1);
+}
+
+
 // ------------------------------------------------------------------------------------------------
 const double*
 geomodelgrids::apps::_Info::computeBoundingBox(const geomodelgrids::serial::Model* model) {
-- 
2.43.0


From fee3cb1003a9880dc47bf3350367c9f76f79f28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:19 +0000
Subject: [PATCH 20/58] fix: Fail verification of models without blocks

---
 libsrc/geomodelgrids/apps/Info.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/apps/Info.cc b/libsrc/geomodelgrids/apps/Info.cc
index a90d4af..d08b636 100644
--- a/libsrc/geomodelgrids/apps/Info.cc
+++ b/libsrc/geomodelgrids/apps/Info.cc
@@ -607,7 +607,11 @@ geomodelgrids::apps::_Info::verifyBlocksZ(const std::vector<std::shared_ptr<geom
                       << _Info::indent(3) << "Top block '" << blocks[0]->getName() << "' does not reach top of domain (z=0).\n";
             ok = false;
         } // if
-    } // if
+    } else {
+        std::cout << "FAIL\n"
+                  << _Info::indent(3) << "Model does not contain any blocks.\n";
+        ok = false;
+    } // if/else
 
     for (size_t i = 1; i < numBlocks; ++i) {
         assert(blocks[i]);
-- 
2.43.0


From a523b5ba1cb37ef2138e90852e78c49bc7a4f805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:18 +0000
Subject: [PATCH 21/58] fix: Verify isosurface image after writing because
 failures in flushing buffers are not always reported

---
 libsrc/geomodelgrids/apps/Isosurface.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libsrc/geomodelgrids/apps/Isosurface.cc b/libsrc/geomodelgrids/apps/Isosurface.cc
index 17b2414..211a940 100644
--- a/libsrc/geomodelgrids/apps/Isosurface.cc
+++ b/libsrc/geomodelgrids/apps/Isosurface.cc
@@ -217,6 +217,11 @@ geomodelgrids::apps::Isosurface::run(int argc,
         writer.write();
         writer.close();
         isosurfacer.finalize();
+
+        // Failures in writing buffered data are not always reported, so verify that the image is complete.
+        geomodelgrids::utils::GeoTiff reader;
+        reader.read(_outputFilename.c_str());
+        reader.close();
     } catch (const std::exception& err) {
         delete toXYOrder;toXYOrder = nullptr;
         throw;
-- 
2.43.0


From f01d43c6b39bd6dd09d497479d340259ba88ef6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:31 +0000
Subject: [PATCH 22/58] fix: Refuse models with missing units instead of
 reading beyond the units

---
 libsrc/geomodelgrids/serial/Query.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libsrc/geomodelgrids/serial/Query.cc b/libsrc/geomodelgrids/serial/Query.cc
index de12e8d..7fe405f 100644
--- a/libsrc/geomodelgrids/serial/Query.cc
+++ b/libsrc/geomodelgrids/serial/Query.cc
@@ -323,6 +323,11 @@ geomodelgrids::serial::_Query::checkUnits(std::map<size_t,std::string>* valueUni
 
     for (size_t iValue = 0; iValue < valuesIndex.size(); ++iValue) {
         const size_t indexModel = valuesIndex[iValue];
+        if (indexModel >= modelUnits.size()) {
+            std::ostringstream msg;
+            msg << "Missing units for value '" << modelValues[indexModel] << "'.";
+            throw std::runtime_error(msg.str());
+        } // if
         if (valueUnits->count(iValue) == 0) {
             (*valueUnits)[iValue] = modelUnits[indexModel];
         } else if ((*valueUnits)[iValue] != modelUnits[indexModel]) {
-- 
2.43.0


From adc5a1294da435189d810b7dae2ca0804017f258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:31 +0000
Subject: [PATCH 23/58] fix: Refuse invalid bounding box in isosurface
 application

---
 libsrc/geomodelgrids/apps/Isosurface.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libsrc/geomodelgrids/apps/Isosurface.cc b/libsrc/geomodelgrids/apps/Isosurface.cc
index 211a940..401b5c4 100644
--- a/libsrc/geomodelgrids/apps/Isosurface.cc
+++ b/libsrc/geomodelgrids/apps/Isosurface.cc
@@ -373,6 +373,7 @@ geomodelgrids::apps::Isosurface::_parseArgs(int argc,
         } // if
         if (((_maxX - _minX)/_horizRes < 0) || ((_maxY - _minY) / _horizRes < 0)) {
             msg << "    - Invalid bounding box. Use --bbox=XMIN,XMAX,YMIN,YMAX\n";
+            optionsOkay = false;
         } // if
         if (0.0 == _horizRes) {
             msg << "    - Missing horizontal resolution. Use --resolution=RESOLUTION\n";
-- 
2.43.0


From c221f0713f80945cda37830dd2479426b0637aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:54 +0000
Subject: [PATCH 24/58] fix: Report error instead of aborting for points in
 gaps between blocks

---
 libsrc/geomodelgrids/serial/Model.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/serial/Model.cc b/libsrc/geomodelgrids/serial/Model.cc
index 415a622..42d996f 100644
--- a/libsrc/geomodelgrids/serial/Model.cc
+++ b/libsrc/geomodelgrids/serial/Model.cc
@@ -457,7 +457,13 @@ geomodelgrids::serial::Model::query(const double x,
     _toModelXYZ(&xModel, &yModel, &zModel, x, y, z);
     assert(contains(x, y, z));
 
-    std::shared_ptr<geomodelgrids::serial::Block> block = _findBlock(xModel, yModel, zModel);assert(block);
+    std::shared_ptr<geomodelgrids::serial::Block> block = _findBlock(xModel, yModel, zModel);
+    if (!block) {
+        std::ostringstream msg;
+        msg << "Could not find block containing point in model '" << _info->getTitle()
+            << "'. Blocks do not span the vertical dimension of the domain.";
+        throw std::runtime_error(msg.str());
+    } // if
     return block->query(xModel, yModel, zModel);
 } // query
 
-- 
2.43.0


From 177a52256b028536a1aba6df019a325548de2f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:54 +0000
Subject: [PATCH 25/58] fix: Refuse models with more value names than values
 stored in blocks instead of reading beyond the values

---
 libsrc/geomodelgrids/serial/Model.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libsrc/geomodelgrids/serial/Model.cc b/libsrc/geomodelgrids/serial/Model.cc
index 42d996f..8f9c854 100644
--- a/libsrc/geomodelgrids/serial/Model.cc
+++ b/libsrc/geomodelgrids/serial/Model.cc
@@ -241,6 +241,12 @@ geomodelgrids::serial::Model::loadMetadata(void) {
     for (size_t i = 0; i < numBlocks; ++i) {
         try {
             _blocks[i]->loadMetadata(_h5.get());
+            if (_blocks[i]->getNumValues() < _valueNames.size()) {
+                msg << indent << "    number of values stored in block '" << blockNames[i] << "' ("
+                    << _blocks[i]->getNumValues() << ") is less than number of values in /data_values ("
+                    << _valueNames.size() << ")\n";
+                missingAttributes = true;
+            } // if
         } catch (std::runtime_error& err) {
             msg << err.what();
             missingAttributes = true;
-- 
2.43.0


From ce304719c5b47dd021713c69ff6f6a249d338a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:25 +0000
Subject: [PATCH 26/58] fix: Refuse grids with invalid resolution, coordinates,
 or number of points instead of aborting or reading beyond the grid

---
 libsrc/geomodelgrids/serial/Block.cc   | 55 ++++++++++++++++----------
 libsrc/geomodelgrids/serial/Surface.cc | 42 ++++++++++++++------
 libsrc/geomodelgrids/utils/Indexing.cc | 17 ++++++--
 3 files changed, 79 insertions(+), 35 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Block.cc b/libsrc/geomodelgrids/serial/Block.cc
index 2475ff0..0fa406b 100644
--- a/libsrc/geomodelgrids/serial/Block.cc
+++ b/libsrc/geomodelgrids/serial/Block.cc
@@ -8,6 +8,7 @@
 
 #include <cstring> // USES strlen()
 #include <algorithm> // USES std::max()
+#include <functional> // USES std::greater
 #include <stdexcept> // USES std::runtime_error
 #include <sstream> // USES std::ostringstream
 #include <cassert> // USES assert()
@@ -100,7 +101,7 @@ geomodelgrids::serial::Block::loadMetadata(geomodelgrids::serial::HDF5* const h5
     } else {
         if (h5->hasAttribute(blockPath.c_str(), "z_coordinates")) {
             h5->readAttribute(blockPath.c_str(), "z_coordinates", H5T_NATIVE_DOUBLE, (void**)&_coordinatesZ, &dims[2]);
-            std::sort(_coordinatesZ, _coordinatesZ+dims[2], geomodelgrids::utils::IndexingVariable::greater);
+            std::sort(_coordinatesZ, _coordinatesZ+dims[2], std::greater<double>());
         } else {
             msg << indent << "    /" << blockPath << "/z_resolution or /" << blockPath << "/z_coordinates\n";
             attributeErrors = true;
@@ -162,30 +163,44 @@ geomodelgrids::serial::Block::loadMetadata(geomodelgrids::serial::HDF5* const h5
         attributeErrors = true;
     } // if
 
+    // Interpolation requires at least 2 points along each dimension.
+    for (int i = 0; i < 3; ++i) {
+        if (_dims[i] < 2) {
+            msg << indent << "    expected at least 2 points along each dimension for /" << blockPath << ", found "
+                << _dims[i] << " points along dimension " << i << ".\n";
+            attributeErrors = true;
+        } // if
+    } // for
+
     if (attributeErrors) { throw std::runtime_error(msg.str().c_str()); }
 
     delete _indexingX;_indexingX = nullptr;
     delete _indexingY;_indexingY = nullptr;
     delete _indexingZ;_indexingZ = nullptr;
-    if (!_coordinatesX) {
-        _indexingX = new geomodelgrids::utils::IndexingUniform(_resolutionX);
-    } else {
-        assert(_coordinatesX);
-        _indexingX = new geomodelgrids::utils::IndexingVariable(_coordinatesX, _dims[0]);
-    } // if/else
-    if (!_coordinatesY) {
-        _indexingY = new geomodelgrids::utils::IndexingUniform(_resolutionY);
-    } else {
-        assert(_coordinatesY);
-        _indexingY = new geomodelgrids::utils::IndexingVariable(_coordinatesY, _dims[1]);
-    } // if/else
-    if (!_coordinatesZ) {
-        _indexingZ = new geomodelgrids::utils::IndexingUniform(_resolutionZ);
-    } else {
-        assert(_coordinatesZ);
-        _indexingZ = new geomodelgrids::utils::IndexingVariable(_coordinatesZ, _dims[2],
-                                                                geomodelgrids::utils::IndexingVariable::DESCENDING);
-    } // if/else
+    try {
+        if (!_coordinatesX) {
+            _indexingX = new geomodelgrids::utils::IndexingUniform(_resolutionX);
+        } else {
+            assert(_coordinatesX);
+            _indexingX = new geomodelgrids::utils::IndexingVariable(_coordinatesX, _dims[0]);
+        } // if/else
+        if (!_coordinatesY) {
+            _indexingY = new geomodelgrids::utils::IndexingUniform(_resolutionY);
+        } else {
+            assert(_coordinatesY);
+            _indexingY = new geomodelgrids::utils::IndexingVariable(_coordinatesY, _dims[1]);
+        } // if/else
+        if (!_coordinatesZ) {
+            _indexingZ = new geomodelgrids::utils::IndexingUniform(_resolutionZ);
+        } else {
+            assert(_coordinatesZ);
+            _indexingZ = new geomodelgrids::utils::IndexingVariable(_coordinatesZ, _dims[2],
+                                                                    geomodelgrids::utils::IndexingVariable::DESCENDING);
+        } // if/else
+    } catch (const std::invalid_argument& err) {
+        msg << indent << "    invalid resolution or coordinates for /" << blockPath << ": " << err.what() << "\n";
+        throw std::runtime_error(msg.str());
+    } // try/catch
 } // loadMetadata
 
 
diff --git a/libsrc/geomodelgrids/serial/Surface.cc b/libsrc/geomodelgrids/serial/Surface.cc
index 4cfb274..1938961 100644
--- a/libsrc/geomodelgrids/serial/Surface.cc
+++ b/libsrc/geomodelgrids/serial/Surface.cc
@@ -97,6 +97,10 @@ geomodelgrids::serial::Surface::loadMetadata(geomodelgrids::serial::HDF5* const
     for (int i = 0; i < 2; ++i) {
         _dims[i] = hdims[i];
     } // for
+    if (0 == hdims[2]) {
+        msg << indent << "    expected at least 1 value at each point for /" << surfacePath << ".\n";
+        attributeErrors = true;
+    } // if
     delete[] hdims;hdims = nullptr;
 
     // Check to make sure dimensions of surface match coordinates (if provided).
@@ -113,22 +117,36 @@ geomodelgrids::serial::Surface::loadMetadata(geomodelgrids::serial::HDF5* const
         attributeErrors = true;
     } // if
 
+    // Interpolation requires at least 2 points along each dimension.
+    for (int i = 0; i < 2; ++i) {
+        if (_dims[i] < 2) {
+            msg << indent << "    expected at least 2 points along each dimension for /" << surfacePath << ", found "
+                << _dims[i] << " points along dimension " << i << ".\n";
+            attributeErrors = true;
+        } // if
+    } // for
+
     if (attributeErrors) { throw std::runtime_error(msg.str().c_str()); }
 
     delete _indexingX;_indexingX = nullptr;
     delete _indexingY;_indexingY = nullptr;
-    if (!_coordinatesX) {
-        _indexingX = new geomodelgrids::utils::IndexingUniform(_resolutionX);
-    } else {
-        assert(_coordinatesX);
-        _indexingX = new geomodelgrids::utils::IndexingVariable(_coordinatesX, _dims[0]);
-    } // if/else
-    if (!_coordinatesY) {
-        _indexingY = new geomodelgrids::utils::IndexingUniform(_resolutionY);
-    } else {
-        assert(_coordinatesY);
-        _indexingY = new geomodelgrids::utils::IndexingVariable(_coordinatesY, _dims[1]);
-    } // if/else
+    try {
+        if (!_coordinatesX) {
+            _indexingX = new geomodelgrids::utils::IndexingUniform(_resolutionX);
+        } else {
+            assert(_coordinatesX);
+            _indexingX = new geomodelgrids::utils::IndexingVariable(_coordinatesX, _dims[0]);
+        } // if/else
+        if (!_coordinatesY) {
+            _indexingY = new geomodelgrids::utils::IndexingUniform(_resolutionY);
+        } else {
+            assert(_coordinatesY);
+            _indexingY = new geomodelgrids::utils::IndexingVariable(_coordinatesY, _dims[1]);
+        } // if/else
+    } catch (const std::invalid_argument& err) {
+        msg << indent << "    invalid resolution or coordinates for /" << surfacePath << ": " << err.what() << "\n";
+        throw std::runtime_error(msg.str());
+    } // try/catch
 } // loadMetadata
 
 
diff --git a/libsrc/geomodelgrids/utils/Indexing.cc b/libsrc/geomodelgrids/utils/Indexing.cc
index 6b6de42..1e82043 100644
--- a/libsrc/geomodelgrids/utils/Indexing.cc
+++ b/libsrc/geomodelgrids/utils/Indexing.cc
@@ -3,7 +3,10 @@
 #include "Indexing.hh" // implementation of class methods
 
 #include <algorithm> // USES std::sort()
+#include <functional> // USES std::greater
+#include <stdexcept> // USES std::invalid_argument
 #include <sstream> // USES std::ostringstream
+#include <cmath> // USES std::isfinite()
 #include <cassert> // USES assert()
 
 // ------------------------------------------------------------------------------------------------
@@ -17,7 +20,7 @@ geomodelgrids::utils::Indexing::~Indexing(void) {}
 // ------------------------------------------------------------------------------------------------
 geomodelgrids::utils::IndexingUniform::IndexingUniform(const double dx) :
     _dx(dx) {
-    if (dx <= 0.0) {
+    if (!(dx > 0.0)) {
         std::ostringstream msg;
         msg << "Non-positive value (" << dx << ") for uniform resolution indexing.";
         throw std::invalid_argument(msg.str());
@@ -58,8 +61,15 @@ geomodelgrids::utils::IndexingVariable::IndexingVariable(const double* x,
     if (ASCENDING == sortOrder) {
         std::sort(_x, _x + _numX);
     } else {
-        std::sort(_x, _x + _numX, greater);
+        std::sort(_x, _x + _numX, std::greater<double>());
     } // if/else
+
+    for (size_t i = 0; i < _numX; ++i) {
+        if (!std::isfinite(_x[i])) {
+            delete[] _x;_x = nullptr;
+            throw std::invalid_argument("Coordinates for variable resolution indexing must be finite.");
+        } // if
+    } // for
 }
 
 
@@ -93,7 +103,8 @@ geomodelgrids::utils::IndexingVariable::getIndex(const double x) const {
         } // if/else
     } // while
 
-    index = double(indexL) + (xN - _x[indexL]) / (_x[indexR] - _x[indexL]);
+    const double width = _x[indexR] - _x[indexL]; // zero for repeated coordinates
+    index = double(indexL) + ((width != 0.0) ? (xN - _x[indexL]) / width : 0.0);
     return index;
 }
 
-- 
2.43.0


From e00a5251cc98c89005e282d1e9d1339297c3685a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:34 +0000
Subject: [PATCH 27/58] fix: Refuse attributes that are not scalar strings
 instead of reading beyond the string

---
 libsrc/geomodelgrids/serial/HDF5.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/HDF5.cc b/libsrc/geomodelgrids/serial/HDF5.cc
index 3d09529..490d17d 100644
--- a/libsrc/geomodelgrids/serial/HDF5.cc
+++ b/libsrc/geomodelgrids/serial/HDF5.cc
@@ -416,9 +416,11 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
 
         h5access.datatype = H5Aget_type(h5access.attribute);
         if (h5access.datatype < 0) { throw std::runtime_error("Could not get datatype of"); }
+        if (H5T_STRING != H5Tget_class(h5access.datatype)) { throw std::runtime_error("Expected string for"); }
 
         h5access.dataspace = H5Aget_space(h5access.attribute);
         if (h5access.dataspace < 0) { throw std::runtime_error("Could not get dataspace of"); }
+        if (1 != H5Sget_simple_extent_npoints(h5access.dataspace)) { throw std::runtime_error("Expected scalar for"); }
 
         char* buffer = nullptr;
         if (0 == H5Tis_variable_str(h5access.datatype)) { // Fixed length strings
@@ -433,7 +435,7 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
         } else {
             herr_t err = H5Aread(h5access.attribute, h5access.datatype, &buffer);
             if (err < 0) { throw std::runtime_error("Could not read"); }
-            value = buffer;
+            if (buffer) { value = buffer; }
 
             err = H5Dvlen_reclaim(h5access.datatype, h5access.dataspace, H5P_DEFAULT, &buffer);
             if (err < 0) { throw std::runtime_error("Could not reclaim variable length string for"); }
@@ -467,6 +469,7 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
 
         h5access.datatype = H5Aget_type(h5access.attribute);
         if (h5access.datatype < 0) { throw std::runtime_error("Could not get datatype of"); }
+        if (H5T_STRING != H5Tget_class(h5access.datatype)) { throw std::runtime_error("Expected string for"); }
 
         h5access.dataspace = H5Aget_space(h5access.attribute);
         if (h5access.dataspace < 0) { throw std::runtime_error("Could not get dataspace of"); }
@@ -514,7 +517,7 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
 
             values->resize(numStrings);
             for (size_t i = 0; i < values->size(); ++i) {
-                (*values)[i] = buffer[i];
+                (*values)[i] = (buffer[i]) ? buffer[i] : "";
             } // for
 
             err = H5Dvlen_reclaim(h5access.datatype, h5access.dataspace, H5P_DEFAULT, buffer);
-- 
2.43.0


From b15094ce5f72a74a9e53f0061520bcc1c1e70b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:54 +0000
Subject: [PATCH 28/58] fix: Pass configuration files and --all from command
 line to model creation application

---
 geomodelgrids/create/apps/create_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geomodelgrids/create/apps/create_model.py b/geomodelgrids/create/apps/create_model.py
index 8907cfb..cab67f4 100644
--- a/geomodelgrids/create/apps/create_model.py
+++ b/geomodelgrids/create/apps/create_model.py
@@ -153,13 +153,15 @@ def cli():
     parser.add_argument("--debug", action="store_true", dest="debug")
     args = parser.parse_args()
 
-    app = App(show_progress=True, debug=args.debug, log_filename=args.log_filename)
+    app = App(show_progress=args.show_progress, debug=args.debug, log_filename=args.log_filename)
     kwargs = {
+        "config_filenames": args.config,
         "show_parameters": args.show_parameters,
         "import_domain": args.import_domain,
         "import_surfaces": args.import_surfaces,
         "import_blocks": args.import_blocks,
         "update_metadata": args.update_metadata,
+        "all_steps": args.all,
     }
     app.main(**kwargs)
 
-- 
2.43.0


From 3dbd444295943b7e86514461fcbf9cb4f59c2143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:54 +0000
Subject: [PATCH 29/58] fix: Pass points to data source when creating top
 surface without batches

---
 geomodelgrids/create/apps/create_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomodelgrids/create/apps/create_model.py b/geomodelgrids/create/apps/create_model.py
index cab67f4..1c9e7f5 100644
--- a/geomodelgrids/create/apps/create_model.py
+++ b/geomodelgrids/create/apps/create_model.py
@@ -85,7 +85,7 @@ class App():
                         model.save_top_surface(elevation, batch)
                 else:
                     points = model.top_surface.generate_points()
-                    elevation = datasrc.get_top_surface()
+                    elevation = datasrc.get_top_surface(points)
                     model.save_top_surface(elevation)
             if model.topo_bathy:
                 model.init_topography_bathymetry()
-- 
2.43.0


From dc3f1b9583ffc04adefa3c80d86516328fc6fd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:54 +0000
Subject: [PATCH 30/58] fix: Create blocks without batches when model has
 surfaces

---
 geomodelgrids/create/core/model.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index 7bb7325..98920f1 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -242,7 +242,7 @@ class Block():
             y_start = 0
             y_end = num_y
             z_start = 0
-            z_end = 0
+            z_end = num_z
 
         if self.x_resolution:
             x1 = numpy.linspace(0.0, self.x_resolution * (num_x - 1), num_x)[x_start:x_end]
@@ -307,7 +307,7 @@ class Block():
                 indices = numpy.arange(0, surf_range[1]-surf_range[0], step=block_skip, dtype=numpy.int64)
             else:
                 surf_range = None
-                indices = numpy.arange(0, surfae_dim+0.5, step=block_skip, dtype=numpy.int64)
+                indices = numpy.arange(0, surfae_dim, step=block_skip, dtype=numpy.int64)
             return (surf_range, indices)
 
         def _get_slice_variable(block_coordinates, surface_coordinates, batch_range):
@@ -342,17 +342,18 @@ class Block():
         elif self.y_coordinates and not surface.y_coordinates:
             raise ValueError("Cannot use variable y-resolution block with uniform y-resolution surface.")
 
+        batch_xrange, batch_yrange = (batch.x_range, batch.y_range) if batch else (None, None)
         surface_dims = surface.get_dims()
         if self.x_resolution:
             (surf_xrange, x_indices) = _get_slice_uniform(self.x_resolution, surface_dims[0],
-                                                          surface.x_resolution, batch.x_range)
+                                                          surface.x_resolution, batch_xrange)
         else:
-            (surf_xrange, x_indices) = _get_slice_variable(self.x_coordinates, surface.x_coordinates, batch.x_range)
+            (surf_xrange, x_indices) = _get_slice_variable(self.x_coordinates, surface.x_coordinates, batch_xrange)
         if self.y_resolution:
             (surf_yrange, y_indices) = _get_slice_uniform(self.y_resolution, surface_dims[1],
-                                                          surface.y_resolution, batch.y_range)
+                                                          surface.y_resolution, batch_yrange)
         else:
-            (surf_yrange, y_indices) = _get_slice_variable(self.y_coordinates, surface.y_coordinates, batch.y_range)
+            (surf_yrange, y_indices) = _get_slice_variable(self.y_coordinates, surface.y_coordinates, batch_yrange)
 
         if batch:
             surface_batch = BatchSurface(surf_xrange, surf_yrange)
-- 
2.43.0


From 725604e24031de3bf1c0b67e90e750e5517322af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:54 +0000
Subject: [PATCH 31/58] fix: Keep both dimensions of surface in batches with a
 single row or column of points

---
 geomodelgrids/create/core/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index 98920f1..ae39d5c 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -361,7 +361,7 @@ class Block():
             surface_batch = None
 
         elevation = surface.storage.load_surface(surface, surface_batch)
-        return numpy.float64(elevation[numpy.ix_(x_indices, y_indices, [0])].squeeze())
+        return numpy.float64(elevation[numpy.ix_(x_indices, y_indices, [0])][:, :, 0])
 
     def get_attributes(self):
         """Get attributes associated with block.
-- 
2.43.0


From 8f924e1f051a79681959ab02287e00f4e49730a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:54 +0000
Subject: [PATCH 32/58] fix: Apply vertical offset only to top points of block
 and not to top points of each batch

---
 geomodelgrids/create/core/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index ae39d5c..6947e82 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -267,7 +267,8 @@ class Block():
                     (domain_top - domain_bot) * (self.z_top - z[:, :, iz] - domain_bot)
         else:
             z = self.z_top - z
-        z[:, :, 0] += self.z_top_offset  # Adjust top points by offset
+        if z_start == 0:
+            z[:, :, 0] += self.z_top_offset  # Adjust top points by offset
 
         xyz_geo = numpy.stack((x, y, z), axis=3)
         xyz_model = numpy.zeros(xyz_geo.shape)
-- 
2.43.0


From 8b5edbc2b5524d6f9c468044bef65928944b74e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:54 +0000
Subject: [PATCH 33/58] fix: Use surface points of current batch for blocks
 with variable resolution

---
 geomodelgrids/create/core/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index 6947e82..1a2e4f3 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -321,8 +321,8 @@ class Block():
                     if math.fabs(scoords_sorted[index] - block_coord) > TOLERANCE:
                         raise ValueError(
                             f"Could not find surface coordinate matching block coordinate ({block_coord}).")
-                indices -= indices[0]
                 surf_range = (numpy.min(indices), numpy.max(indices)+1)
+                indices -= indices[0]
             else:
                 scoords_sorted = numpy.array(surface_coordinates)
                 scoords_sorted.sort()
-- 
2.43.0


From 346dfb3f47c907b6ec94089062597c690f2079de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:13 +0000
Subject: [PATCH 34/58] fix: Do not drop last grid point along dimension
 because of roundoff

---
 geomodelgrids/create/core/model.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index 1a2e4f3..c825696 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -13,6 +13,12 @@ from geomodelgrids.create.utils import batch
 from geomodelgrids.create.io.hdf5 import HDF5Storage
 
 
+def _num_cells(dim, resolution):
+    """Get number of cells of size resolution along dimension, allowing for roundoff error."""
+    TOLERANCE = 1.0e-6
+    return int(TOLERANCE + dim / resolution)
+
+
 class Surface():
     """Model surface.
 
@@ -61,8 +67,8 @@ class Surface():
         Returns:
             Tuple of number of points along each dimension (num_x, num_y).
         """
-        num_x = 1 + int(self.model_metadata.dim_x / self.x_resolution) if self.x_resolution else len(self.x_coordinates)
-        num_y = 1 + int(self.model_metadata.dim_y / self.y_resolution) if self.y_resolution else len(self.y_coordinates)
+        num_x = 1 + _num_cells(self.model_metadata.dim_x, self.x_resolution) if self.x_resolution else len(self.x_coordinates)
+        num_y = 1 + _num_cells(self.model_metadata.dim_y, self.y_resolution) if self.y_resolution else len(self.y_coordinates)
         return (num_x, num_y, 1)
 
     def get_batches(self, batch_size):
@@ -191,15 +197,15 @@ class Block():
             Tuple of number of points along each dimension (num_x, num_y, num_z).
         """
         if self.x_resolution:
-            num_x = 1 + int(self.model_metadata.dim_x / self.x_resolution)
+            num_x = 1 + _num_cells(self.model_metadata.dim_x, self.x_resolution)
         else:
             num_x = len(self.x_coordinates)
         if self.y_resolution:
-            num_y = 1 + int(self.model_metadata.dim_y / self.y_resolution)
+            num_y = 1 + _num_cells(self.model_metadata.dim_y, self.y_resolution)
         else:
             num_y = len(self.y_coordinates)
         if self.z_resolution:
-            num_z = 1 + int((self.z_top - self.z_bot) / self.z_resolution)
+            num_z = 1 + _num_cells(self.z_top - self.z_bot, self.z_resolution)
         else:
             num_z = len(self.z_coordinates)
         return (num_x, num_y, num_z)
-- 
2.43.0


From 9a4660964ae1557acff40749c810a065a4fe15f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:13 +0000
Subject: [PATCH 35/58] fix: Report inconsistent surface and attributes of
 wrong type instead of undefined variables

---
 geomodelgrids/create/io/hdf5.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geomodelgrids/create/io/hdf5.py b/geomodelgrids/create/io/hdf5.py
index 50ac313..44f8632 100644
--- a/geomodelgrids/create/io/hdf5.py
+++ b/geomodelgrids/create/io/hdf5.py
@@ -112,7 +112,9 @@ class HDF5Storage():
                         raise ValueError(
                             f"Inconsistency in surface '{surface.name}' attribute '{attr_name}': config value: {config_attr}, value from model: {h5_attr}")
             else:
-                if getattr(surface, attr_name) != attrs[attr_name]:
+                config_attr = getattr(surface, attr_name)
+                h5_attr = attrs[attr_name]
+                if config_attr != h5_attr:
                     raise ValueError(
                         f"Inconsistency in surface '{surface.name}' attribute '{attr_name}': config value: {config_attr}, value from model: {h5_attr}")
 
@@ -207,7 +209,7 @@ class HDF5Storage():
                 for list_value in value:
                     if not isinstance(list_value, value_type):
                         raise ValueError(
-                            f"Expected type '{value_type}' for value of attribute '{attr_name}'. Got type '{type(iter_value)}'.")
+                            f"Expected type '{value_type}' for value of attribute '{attr_name}'. Got type '{type(list_value)}'.")
                 if value_type == str:
                     result = [numpy.string_(v) for v in value]
                 else:
-- 
2.43.0


From ae5fe4f90cd2cb0b4ef8e0994312af9bb04ca3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:13 +0000
Subject: [PATCH 36/58] fix: Store lists of strings with characters that are
 not ASCII

---
 geomodelgrids/create/io/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomodelgrids/create/io/hdf5.py b/geomodelgrids/create/io/hdf5.py
index 44f8632..cdd2d55 100644
--- a/geomodelgrids/create/io/hdf5.py
+++ b/geomodelgrids/create/io/hdf5.py
@@ -211,7 +211,7 @@ class HDF5Storage():
                         raise ValueError(
                             f"Expected type '{value_type}' for value of attribute '{attr_name}'. Got type '{type(list_value)}'.")
                 if value_type == str:
-                    result = [numpy.string_(v) for v in value]
+                    result = [numpy.bytes_(v.encode("utf-8")) for v in value]
                 else:
                     result = value
             else:
-- 
2.43.0


From 8306659895e1cd809125124a523ac071560dd201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:43 +0000
Subject: [PATCH 37/58] fix: Do not exceed maximum number of points in a batch
 and handle any grid dimensions

---
 geomodelgrids/create/utils/batch.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/geomodelgrids/create/utils/batch.py b/geomodelgrids/create/utils/batch.py
index d9c5cf4..d2415e9 100644
--- a/geomodelgrids/create/utils/batch.py
+++ b/geomodelgrids/create/utils/batch.py
@@ -5,6 +5,14 @@ import logging
 import math
 
 
+def _integer_root(value, degree):
+    """Get largest integer (at least 1) with integer**degree <= value."""
+    root = round(value**(1.0 / degree))
+    while root > 1 and root**degree > value:
+        root -= 1
+    return max(root, 1)
+
+
 class BatchGenerator2D():
     """Iterator for batches of points for 2D domains.
 
@@ -31,7 +39,7 @@ class BatchGenerator2D():
             self.bnum_x = num_x
             self.bnum_y = num_y
         else:
-            num_xy = round(max_nvalues**0.5)
+            num_xy = _integer_root(max_nvalues, 2)
             if num_x > num_xy and num_y > num_xy:
                 self.bnum_x = self.bnum_y = num_xy
             elif num_x <= num_xy:
@@ -120,12 +128,12 @@ class BatchGenerator3D():
             self.bnum_y = num_y
             self.bnum_z = num_z
         else:
-            num_xyz = round(max_nvalues**(1.0 / 3.0))
+            num_xyz = _integer_root(max_nvalues, 3)
             if num_x > num_xyz and num_y > num_xyz and num_z > num_xyz:
                 self.bnum_x = self.bnum_y = self.bnum_z = num_xyz
             elif num_z <= num_xyz:
                 self.bnum_z = num_z
-                num_xy = round((max_nvalues // num_z)**0.5)
+                num_xy = _integer_root(max_nvalues // num_z, 2)
                 if num_x > num_xy and num_y > num_xy:
                     self.bnum_x = self.bnum_y = num_xy
                 elif num_x <= num_xy:
@@ -138,19 +146,28 @@ class BatchGenerator3D():
                     raise ValueError("Unknown case")
             elif num_x <= num_xyz:
                 self.bnum_x = num_x
-                num_yz = round((max_nvalues // num_x)**0.5)
+                num_yz = _integer_root(max_nvalues // num_x, 2)
                 if num_y > num_yz and num_z > num_yz:
                     self.bnum_y = self.bnum_z = num_yz
                 elif num_y <= num_yz:
                     self.bnum_y = num_y
                     self.bnum_z = max_nvalues // (num_x * num_y)
+                elif num_z <= num_yz:
+                    self.bnum_z = num_z
+                    self.bnum_y = max_nvalues // (num_x * num_z)
                 else:
                     raise ValueError("Unknown case")
             elif num_y <= num_xyz:
                 self.bnum_y = num_y
-                num_xz = round((max_nvalues // num_y)**0.5)
+                num_xz = _integer_root(max_nvalues // num_y, 2)
                 if num_x > num_xz and num_z > num_xz:
                     self.bnum_x = self.bnum_z = num_xz
+                elif num_x <= num_xz:
+                    self.bnum_x = num_x
+                    self.bnum_z = max_nvalues // (num_x * num_y)
+                elif num_z <= num_xz:
+                    self.bnum_z = num_z
+                    self.bnum_x = max_nvalues // (num_y * num_z)
                 else:
                     raise ValueError("Unknown case")
             else:
-- 
2.43.0


From e9097f596c0087c1ee6a9178a0da0da9e2bf3305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:42 +0000
Subject: [PATCH 38/58] fix: Report errors in writing model and close model
 file if there is an error

---
 geomodelgrids/create/io/hdf5.py | 177 ++++++++++++++++----------------
 1 file changed, 89 insertions(+), 88 deletions(-)

diff --git a/geomodelgrids/create/io/hdf5.py b/geomodelgrids/create/io/hdf5.py
index cdd2d55..97c3aa9 100644
--- a/geomodelgrids/create/io/hdf5.py
+++ b/geomodelgrids/create/io/hdf5.py
@@ -6,6 +6,8 @@ import numpy
 
 class HDF5Storage():
     """HDF5 file for storing gridded model.
+
+    We flush the file before closing it, because errors in writing the file are not reported when it is closed.
     """
 
     def __init__(self, filename):
@@ -24,12 +26,12 @@ class HDF5Storage():
             domain (Model):
                 Model domain.
         """
-        h5 = h5py.File(self.filename, "a")
-        attrs = h5.attrs
-        for attr_info in domain.get_attributes():
-            attr_name = attr_info[0]
-            attrs[attr_name] = self._get_attribute(domain.metadata, attr_info)
-        h5.close()
+        with h5py.File(self.filename, "a") as h5:
+            attrs = h5.attrs
+            for attr_info in domain.get_attributes():
+                attr_name = attr_info[0]
+                attrs[attr_name] = self._get_attribute(domain.metadata, attr_info)
+            h5.flush()
 
     def create_surface(self, surface):
         """Create surface in HDF5 file.
@@ -38,15 +40,15 @@ class HDF5Storage():
             surface (Surface)
                 Model surface.
         """
-        h5 = h5py.File(self.filename, "a")
-        if not "surfaces" in h5:
-            h5.create_group("surfaces")
-        surfaces_group = h5["surfaces"]
-        if surface.name in surfaces_group:
-            del surfaces_group[surface.name]
-        surf_dataset = surfaces_group.create_dataset(surface.name, shape=surface.get_dims(),
-                                                     chunks=surface.chunk_size, compression="gzip")
-        h5.close()
+        with h5py.File(self.filename, "a") as h5:
+            if not "surfaces" in h5:
+                h5.create_group("surfaces")
+            surfaces_group = h5["surfaces"]
+            if surface.name in surfaces_group:
+                del surfaces_group[surface.name]
+            surf_dataset = surfaces_group.create_dataset(surface.name, shape=surface.get_dims(),
+                                                         chunks=surface.chunk_size, compression="gzip")
+            h5.flush()
         self.save_surface_metadata(surface)
 
     def save_surface_metadata(self, surface):
@@ -56,12 +58,12 @@ class HDF5Storage():
             surface (Surface)
                 Model surface
         """
-        h5 = h5py.File(self.filename, "a")
-        attrs = h5["surfaces"][surface.name].attrs
-        for attr_info in surface.get_attributes():
-            attr_name = attr_info[0]
-            attrs[attr_name] = self._get_attribute(surface, attr_info)
-        h5.close()
+        with h5py.File(self.filename, "a") as h5:
+            attrs = h5["surfaces"][surface.name].attrs
+            for attr_info in surface.get_attributes():
+                attr_name = attr_info[0]
+                attrs[attr_name] = self._get_attribute(surface, attr_info)
+            h5.flush()
 
     def save_surface(self, surface, elevation, batch=None):
         """Write surface to HDF5 file.
@@ -74,17 +76,17 @@ class HDF5Storage():
             batch (utils.BatchGenerator2D)
                 Current batch of points in domain corresponding to elevation data.
         """
-        h5 = h5py.File(self.filename, "a")
-        surfaces_group = h5["surfaces"]
-        assert surface.name in surfaces_group
-        surf_dataset = surfaces_group[surface.name]
-        if batch:
-            x_start, x_end = batch.x_range
-            y_start, y_end = batch.y_range
-            surf_dataset[x_start:x_end, y_start:y_end, :] = elevation
-        else:
-            surf_dataset[:] = elevation
-        h5.close()
+        with h5py.File(self.filename, "a") as h5:
+            surfaces_group = h5["surfaces"]
+            assert surface.name in surfaces_group
+            surf_dataset = surfaces_group[surface.name]
+            if batch:
+                x_start, x_end = batch.x_range
+                y_start, y_end = batch.y_range
+                surf_dataset[x_start:x_end, y_start:y_end, :] = elevation
+            else:
+                surf_dataset[:] = elevation
+            h5.flush()
 
     def load_surface(self, surface, batch=None):
         """Load surface from HDF5 file.
@@ -95,36 +97,35 @@ class HDF5Storage():
             batch (utils.BatchGenerator2D)
                 Current batch of points in domain corresponding to elevation data.
         """
-        h5 = h5py.File(self.filename, "r")
-        surf_dataset = h5["surfaces"][surface.name]
-        attrs = surf_dataset.attrs
-        for attr_info in surface.get_attributes():
-            attr_name = attr_info[0]
-            attr_type = attr_info[1]
-            if attr_type == list or attr_type == tuple:
-                config_attr = getattr(surface, attr_name)
-                h5_attr = attrs[attr_name]
-                if len(config_attr) != len(h5_attr):
-                    raise ValueError(
-                        f"Inconsistency in surface '{surface.name}' attribute '{attr_name}': config value: {config_attr}, value from model: {h5_attr}")
-                for config_value, h5_value in zip(config_attr, h5_attr):
-                    if config_value != h5_value:
+        with h5py.File(self.filename, "r") as h5:
+            surf_dataset = h5["surfaces"][surface.name]
+            attrs = surf_dataset.attrs
+            for attr_info in surface.get_attributes():
+                attr_name = attr_info[0]
+                attr_type = attr_info[1]
+                if attr_type == list or attr_type == tuple:
+                    config_attr = getattr(surface, attr_name)
+                    h5_attr = attrs[attr_name]
+                    if len(config_attr) != len(h5_attr):
                         raise ValueError(
                             f"Inconsistency in surface '{surface.name}' attribute '{attr_name}': config value: {config_attr}, value from model: {h5_attr}")
+                    for config_value, h5_value in zip(config_attr, h5_attr):
+                        if config_value != h5_value:
+                            raise ValueError(
+                                f"Inconsistency in surface '{surface.name}' attribute '{attr_name}': config value: {config_attr}, value from model: {h5_attr}")
+                else:
+                    config_attr = getattr(surface, attr_name)
+                    h5_attr = attrs[attr_name]
+                    if config_attr != h5_attr:
+                        raise ValueError(
+                            f"Inconsistency in surface '{surface.name}' attribute '{attr_name}': config value: {config_attr}, value from model: {h5_attr}")
+
+            if batch:
+                x_start, x_end = batch.x_range
+                y_start, y_end = batch.y_range
+                elevation = surf_dataset[x_start:x_end, y_start:y_end]
             else:
-                config_attr = getattr(surface, attr_name)
-                h5_attr = attrs[attr_name]
-                if config_attr != h5_attr:
-                    raise ValueError(
-                        f"Inconsistency in surface '{surface.name}' attribute '{attr_name}': config value: {config_attr}, value from model: {h5_attr}")
-
-        if batch:
-            x_start, x_end = batch.x_range
-            y_start, y_end = batch.y_range
-            elevation = surf_dataset[x_start:x_end, y_start:y_end]
-        else:
-            elevation = surf_dataset[:]
-        h5.close()
+                elevation = surf_dataset[:]
 
         return elevation
 
@@ -135,16 +136,16 @@ class HDF5Storage():
             block (Block)
                 Block associated with gridded data.
         """
-        h5 = h5py.File(self.filename, "a")
-        if not "blocks" in h5:
-            h5.create_group("blocks")
-        blocks_group = h5["blocks"]
-        if block.name in blocks_group:
-            del blocks_group[block.name]
-        shape = list(block.get_dims()) + [len(block.model_metadata.data_values)]
-        block_dataset = blocks_group.create_dataset(
-            block.name, shape=shape, chunks=block.chunk_size, compression="gzip")
-        h5.close()
+        with h5py.File(self.filename, "a") as h5:
+            if not "blocks" in h5:
+                h5.create_group("blocks")
+            blocks_group = h5["blocks"]
+            if block.name in blocks_group:
+                del blocks_group[block.name]
+            shape = list(block.get_dims()) + [len(block.model_metadata.data_values)]
+            block_dataset = blocks_group.create_dataset(
+                block.name, shape=shape, chunks=block.chunk_size, compression="gzip")
+            h5.flush()
         self.save_block_metadata(block)
 
     def save_block_metadata(self, block):
@@ -154,12 +155,12 @@ class HDF5Storage():
             block (Block)
                 Block associated with gridded data.
         """
-        h5 = h5py.File(self.filename, "a")
-        attrs = h5["blocks"][block.name].attrs
-        for attr_info in block.get_attributes():
-            attr_name = attr_info[0]
-            attrs[attr_name] = self._get_attribute(block, attr_info)
-        h5.close()
+        with h5py.File(self.filename, "a") as h5:
+            attrs = h5["blocks"][block.name].attrs
+            for attr_info in block.get_attributes():
+                attr_name = attr_info[0]
+                attrs[attr_name] = self._get_attribute(block, attr_info)
+            h5.flush()
 
     def save_block(self, block, data, batch=None):
         """Write block data to HDF5 file.
@@ -172,19 +173,19 @@ class HDF5Storage():
             batch (BatchGenerator3D)
                 Current batch of points in block.
         """
-        h5 = h5py.File(self.filename, "a")
-        assert "blocks" in h5
-        blocks_group = h5["blocks"]
-        assert block.name in blocks_group
-        block_dataset = blocks_group[block.name]
-        if batch:
-            x_start, x_end = batch.x_range
-            y_start, y_end = batch.y_range
-            z_start, z_end = batch.z_range
-            block_dataset[x_start:x_end, y_start:y_end, z_start:z_end, :] = data
-        else:
-            block_dataset[:] = data
-        h5.close()
+        with h5py.File(self.filename, "a") as h5:
+            assert "blocks" in h5
+            blocks_group = h5["blocks"]
+            assert block.name in blocks_group
+            block_dataset = blocks_group[block.name]
+            if batch:
+                x_start, x_end = batch.x_range
+                y_start, y_end = batch.y_range
+                z_start, z_end = batch.z_range
+                block_dataset[x_start:x_end, y_start:y_end, z_start:z_end, :] = data
+            else:
+                block_dataset[:] = data
+            h5.flush()
 
     @staticmethod
     def _get_attribute(metadata, attr_info):
-- 
2.43.0


From a2b086115aecf348c80f50c926a5ed32cc6f4751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:42 +0000
Subject: [PATCH 39/58] fix: Remove attributes of grid that no longer apply
 when updating metadata

---
 geomodelgrids/create/io/hdf5.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/geomodelgrids/create/io/hdf5.py b/geomodelgrids/create/io/hdf5.py
index 97c3aa9..18557ab 100644
--- a/geomodelgrids/create/io/hdf5.py
+++ b/geomodelgrids/create/io/hdf5.py
@@ -60,6 +60,7 @@ class HDF5Storage():
         """
         with h5py.File(self.filename, "a") as h5:
             attrs = h5["surfaces"][surface.name].attrs
+            self._remove_grid_attributes(attrs, surface)
             for attr_info in surface.get_attributes():
                 attr_name = attr_info[0]
                 attrs[attr_name] = self._get_attribute(surface, attr_info)
@@ -157,6 +158,7 @@ class HDF5Storage():
         """
         with h5py.File(self.filename, "a") as h5:
             attrs = h5["blocks"][block.name].attrs
+            self._remove_grid_attributes(attrs, block)
             for attr_info in block.get_attributes():
                 attr_name = attr_info[0]
                 attrs[attr_name] = self._get_attribute(block, attr_info)
@@ -187,6 +189,24 @@ class HDF5Storage():
                 block_dataset[:] = data
             h5.flush()
 
+    @staticmethod
+    def _remove_grid_attributes(attrs, grid):
+        """Remove attributes of grid that no longer apply, for example, x_resolution if grid now uses x_coordinates.
+        """
+        GRID_ATTRIBUTES = (
+            "x_resolution",
+            "x_coordinates",
+            "y_resolution",
+            "y_coordinates",
+            "z_resolution",
+            "z_coordinates",
+            "z_top",
+        )
+        current = [attr_info[0] for attr_info in grid.get_attributes()]
+        for attr_name in GRID_ATTRIBUTES:
+            if attr_name in attrs and attr_name not in current:
+                del attrs[attr_name]
+
     @staticmethod
     def _get_attribute(metadata, attr_info):
         result = None
-- 
2.43.0


From df42090d899a6aed8a7bac00243ce718355a3c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:42 +0000
Subject: [PATCH 40/58] fix: Ignore surface if use_surface is False

---
 geomodelgrids/create/core/model.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index c825696..906fee6 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -621,16 +621,23 @@ class Model():
             self.blocks.append(block)
 
         self.storage = HDF5Storage(config["geomodelgrids"]["filename"])
-        if "top_surface" in config:
+        if self._use_surface(config, "top_surface"):
             self.top_surface = Surface("top_surface", self.metadata, config["top_surface"], self.storage)
         else:
             self.top_surface = None
-        if "topography_bathymetry" in config:
+        if self._use_surface(config, "topography_bathymetry"):
             self.topo_bathy = Surface("topography_bathymetry", self.metadata,
                                       config["topography_bathymetry"], self.storage)
         else:
             self.topo_bathy = None
 
+    @staticmethod
+    def _use_surface(config, name):
+        """Return True if configuration includes surface and it is not ignored (use_surface=False)."""
+        if not name in config:
+            return False
+        return str(config[name].get("use_surface", True)).strip().lower() not in ("false", "no", "off", "0")
+
     @staticmethod
     def get_attributes():
         """Get attributes for model.
-- 
2.43.0


From 425f7cf337f6ba9d093bc5ea114622c8d2b53018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 41/58] fix: Report errors instead of aborting for queries of
 model that is not initialized or outside model

---
 libsrc/geomodelgrids/serial/Model.cc | 36 +++++++++++++++++++---------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Model.cc b/libsrc/geomodelgrids/serial/Model.cc
index 8f9c854..38d1f13 100644
--- a/libsrc/geomodelgrids/serial/Model.cc
+++ b/libsrc/geomodelgrids/serial/Model.cc
@@ -58,6 +58,7 @@ geomodelgrids::serial::Model::open(const char* filename,
                                    ModelMode mode) {
     assert(filename);
 
+    this->close(); // Release current file, if any.
     _h5 = std::make_unique<geomodelgrids::serial::HDF5>();
     hid_t h5Mode = H5F_ACC_RDONLY;
     switch (mode) {
@@ -98,13 +99,12 @@ geomodelgrids::serial::Model::close(void) {
         } // if
     } // for
 
+    _blocks.clear();
+    _crsTransformer.reset(); // Model must be initialized again before querying.
+
     if (_h5) {
         _h5->close();
     } // if
-
-    for (size_t i = 0; i < _blocks.size(); ++i) {
-        _blocks[i].reset();
-    } // for
 } // close
 
 
@@ -112,9 +112,10 @@ geomodelgrids::serial::Model::close(void) {
 // Load metadata.
 void
 geomodelgrids::serial::Model::loadMetadata(void) {
-    if (!_h5) {
+    if (!_h5 || !_h5->isOpen()) {
         throw std::logic_error("Model not open. Call open() before loading metadata.");
     } // if
+    _crsTransformer.reset(); // Model must be initialized again before querying.
 
     std::ostringstream msg;
     const char* indent = "            ";
@@ -262,11 +263,17 @@ geomodelgrids::serial::Model::loadMetadata(void) {
 // Initialize.
 void
 geomodelgrids::serial::Model::initialize(void) {
+    if (!_h5 || !_h5->isOpen()) {
+        throw std::logic_error("Model not open. Call open() and loadMetadata() before initializing.");
+    } // if
+
     // Initialize CRS transformation
-    _crsTransformer = std::make_shared<geomodelgrids::utils::CRSTransformer>();
-    _crsTransformer->setSrc(_inputCRSString.c_str());
-    _crsTransformer->setDest(_modelCRSString.c_str());
-    _crsTransformer->initialize();
+    _crsTransformer.reset();
+    std::shared_ptr<geomodelgrids::utils::CRSTransformer> crsTransformer =
+        std::make_shared<geomodelgrids::utils::CRSTransformer>();
+    crsTransformer->setSrc(_inputCRSString.c_str());
+    crsTransformer->setDest(_modelCRSString.c_str());
+    crsTransformer->initialize();
 
     if (_surfaceTop) {
         _surfaceTop->openQuery(_h5.get());
@@ -278,6 +285,7 @@ geomodelgrids::serial::Model::initialize(void) {
     for (size_t i = 0; i < numBlocks; ++i) {
         _blocks[i]->openQuery(_h5.get());
     } // for
+    _crsTransformer = crsTransformer; // Ready for queries
 } // initialize
 
 
@@ -461,7 +469,11 @@ geomodelgrids::serial::Model::query(const double x,
     double yModel = 0.0;
     double zModel = 0.0;
     _toModelXYZ(&xModel, &yModel, &zModel, x, y, z);
-    assert(contains(x, y, z));
+    if (!contains(x, y, z)) {
+        std::ostringstream msg;
+        msg << "Point (" << x << ", " << y << ", " << z << ") is not in model '" << _info->getTitle() << "'.";
+        throw std::runtime_error(msg.str());
+    } // if
 
     std::shared_ptr<geomodelgrids::serial::Block> block = _findBlock(xModel, yModel, zModel);
     if (!block) {
@@ -484,7 +496,9 @@ geomodelgrids::serial::Model::_toModelXYZ(double* xModel,
                                           const double z) const {
     assert(xModel);
     assert(yModel);
-    assert(_crsTransformer);
+    if (!_crsTransformer) {
+        throw std::logic_error("Model not initialized. Call initialize() before querying.");
+    } // if
 
     double xModelCRS = 0.0;
     double yModelCRS = 0.0;
-- 
2.43.0


From 1fa82d405bf65573bb711b9b32185142e723f925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:30 +0000
Subject: [PATCH 42/58] fix: Require successfully loaded metadata to initialize
 model

---
 libsrc/geomodelgrids/serial/Model.cc | 9 ++++++++-
 libsrc/geomodelgrids/serial/Model.hh | 1 +
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/serial/Model.cc b/libsrc/geomodelgrids/serial/Model.cc
index 38d1f13..a4661a1 100644
--- a/libsrc/geomodelgrids/serial/Model.cc
+++ b/libsrc/geomodelgrids/serial/Model.cc
@@ -23,7 +23,8 @@ geomodelgrids::serial::Model::Model(void) :
     _layout(VERTEX),
     _modelCRSString(""),
     _inputCRSString("EPSG:4326"),
-    _yazimuth(0.0) {
+    _yazimuth(0.0),
+    _hasMetadata(false) {
     _origin[0] = 0.0;
     _origin[1] = 0.0;
     _dims[0] = 0.0;
@@ -100,6 +101,7 @@ geomodelgrids::serial::Model::close(void) {
     } // for
 
     _blocks.clear();
+    _hasMetadata = false;
     _crsTransformer.reset(); // Model must be initialized again before querying.
 
     if (_h5) {
@@ -115,6 +117,7 @@ geomodelgrids::serial::Model::loadMetadata(void) {
     if (!_h5 || !_h5->isOpen()) {
         throw std::logic_error("Model not open. Call open() before loading metadata.");
     } // if
+    _hasMetadata = false;
     _crsTransformer.reset(); // Model must be initialized again before querying.
 
     std::ostringstream msg;
@@ -256,6 +259,7 @@ geomodelgrids::serial::Model::loadMetadata(void) {
     std::sort(_blocks.begin(), _blocks.end(), Block::compare);
 
     if (missingAttributes) { throw std::runtime_error(msg.str().c_str()); }
+    _hasMetadata = true;
 } // loadMetadata
 
 
@@ -266,6 +270,9 @@ geomodelgrids::serial::Model::initialize(void) {
     if (!_h5 || !_h5->isOpen()) {
         throw std::logic_error("Model not open. Call open() and loadMetadata() before initializing.");
     } // if
+    if (!_hasMetadata) {
+        throw std::logic_error("Metadata of model not loaded. Call loadMetadata() before initializing.");
+    } // if
 
     // Initialize CRS transformation
     _crsTransformer.reset();
diff --git a/libsrc/geomodelgrids/serial/Model.hh b/libsrc/geomodelgrids/serial/Model.hh
index 9c6445f..ec130be 100644
--- a/libsrc/geomodelgrids/serial/Model.hh
+++ b/libsrc/geomodelgrids/serial/Model.hh
@@ -207,6 +207,7 @@ private:
     double _origin[2]; ///< x and y coordinates of model origin.
     double _yazimuth; ///< Azimuth of y coordinate axis.
     double _dims[3]; ///< Dimensions of model along coordinate axes.
+    bool _hasMetadata; ///< True if metadata for model has been loaded.
 
     std::unique_ptr<geomodelgrids::serial::HDF5> _h5; ///< Model file.
     std::shared_ptr<geomodelgrids::serial::ModelInfo> _info; ///< Model description information.
-- 
2.43.0


From 463bf445ab08d1b51a12b991003e1a07dc05616c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:53 +0000
Subject: [PATCH 43/58] fix: Leave query uninitialized if there is any error in
 initialization

---
 libsrc/geomodelgrids/serial/Query.cc  | 4 ++--
 libsrc/geomodelgrids/serial/cquery.cc | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Query.cc b/libsrc/geomodelgrids/serial/Query.cc
index 7fe405f..0524997 100644
--- a/libsrc/geomodelgrids/serial/Query.cc
+++ b/libsrc/geomodelgrids/serial/Query.cc
@@ -96,7 +96,7 @@ geomodelgrids::serial::Query::initialize(const std::vector<std::string>& modelFi
     _valuesIndex.clear();
     _valuesLowercase.clear();
 
-    const std::vector<std::string>& valuesLowercase = _Query::toLower(valueNames);
+    std::vector<std::string> valuesLowercase = _Query::toLower(valueNames);
     const size_t numModels = modelFilenames.size();
     std::vector<std::unique_ptr<geomodelgrids::serial::Model> > models(numModels);
     std::vector<values_map_type> valuesIndex(numModels);
@@ -115,7 +115,7 @@ geomodelgrids::serial::Query::initialize(const std::vector<std::string>& modelFi
 
     _models = std::move(models);
     _valuesIndex = std::move(valuesIndex);
-    _valuesLowercase = valuesLowercase;
+    _valuesLowercase = std::move(valuesLowercase);
 } // initialize
 
 
diff --git a/libsrc/geomodelgrids/serial/cquery.cc b/libsrc/geomodelgrids/serial/cquery.cc
index 4c722de..ead122a 100644
--- a/libsrc/geomodelgrids/serial/cquery.cc
+++ b/libsrc/geomodelgrids/serial/cquery.cc
@@ -65,6 +65,8 @@ geomodelgrids_squery_initialize(void* handle,
 
     assert(query);
     try {
+        query->finalize(); // Release models of previous session, if any.
+
         std::vector < std::string > modelFilenamesCxx(modelFilenamesSize);
         for (int i = 0; i < modelFilenamesSize; ++i) {
             modelFilenamesCxx[i] = modelFilenames[i];
-- 
2.43.0


From 3faddf13ca7582a0382e150f2990c4e24a37efe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:54 +0000
Subject: [PATCH 44/58] fix: Do not read output left over from previous
 EarthVision commands

---
 geomodelgrids/create/data_srcs/earthvision/api.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/geomodelgrids/create/data_srcs/earthvision/api.py b/geomodelgrids/create/data_srcs/earthvision/api.py
index 82c0656..806d9a1 100644
--- a/geomodelgrids/create/data_srcs/earthvision/api.py
+++ b/geomodelgrids/create/data_srcs/earthvision/api.py
@@ -52,9 +52,10 @@ class EarthVisionAPI():
         logger = logging.getLogger(__name__)
         logger.info("Running EarthVision command '%s' in directory '%s' and environment %s.",
                     cmd, self.model_dir, self.env)
-        subprocess.run(cmd.split(), cwd=self.model_dir, env=self.env, check=True)
         values_abspath = os.path.join(self.model_dir, filename_values)
-        return numpy.loadtxt(values_abspath, delimiter="\t", dtype=dtype, converters=converters)
+        self._remove_output(values_abspath)
+        subprocess.run(cmd.split(), cwd=self.model_dir, env=self.env, check=True)
+        return numpy.atleast_1d(numpy.loadtxt(values_abspath, delimiter="\t", dtype=dtype, converters=converters))
 
     def ev_fp(self, formula, filename_out=None):
         """Run 'ev_fp < {formula}'.
@@ -68,9 +69,18 @@ class EarthVisionAPI():
         logger = logging.getLogger(__name__)
         logger.info("Running EarthVision command '%s' with input '%s' in directory '%s' and environment %s.",
                     "ev_fp", formula, self.model_dir, self.env)
+        if filename_out:
+            self._remove_output(filename_out)
         result = subprocess.run(["ev_fp"], input=formula.encode(
             "utf-8"), cwd=self.model_dir, env=self.env, stdout=subprocess.PIPE, check=True)
         return numpy.loadtxt(filename_out) if filename_out else result.stdout
 
+    @staticmethod
+    def _remove_output(filename):
+        """Remove output left over from previous command, so that we never read it in place of the output of the current command.
+        """
+        if os.path.exists(filename):
+            os.remove(filename)
+
 
 # End of file
-- 
2.43.0


From b28290c8319552d2ed77ab48c9701b8105d57505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:03 +0000
Subject: [PATCH 45/58] fix: Check number of points in EarthVision output

---
 geomodelgrids/create/data_srcs/earthvision/datasrc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geomodelgrids/create/data_srcs/earthvision/datasrc.py b/geomodelgrids/create/data_srcs/earthvision/datasrc.py
index e857da5..d954b82 100644
--- a/geomodelgrids/create/data_srcs/earthvision/datasrc.py
+++ b/geomodelgrids/create/data_srcs/earthvision/datasrc.py
@@ -156,6 +156,9 @@ class RulesDataSrc(DataSrc):
 
         ev_model = self.config["earthvision"]["geologic_model"]
         data = self.api.ev_label(VALUES_FILENAME, POINTS_FILENAME, ev_model, DTYPE, converters)
+        num_points = points[:, :, :, 0].size
+        if data.shape != (num_points,):
+            raise ValueError(f"Expected values at {num_points} points from EarthVision. Got values at {data.size} points.")
 
         topo_bathy_elev = block.get_surface(topo_bathy, batch)
         depth = numpy.zeros(points.shape[:-1])
-- 
2.43.0


From 5fd2e604a9a42416e768a3e0b6ddfeb71fd8f094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:03 +0000
Subject: [PATCH 46/58] fix: Remove top offset from depth only for points at
 top of block

---
 geomodelgrids/create/data_srcs/earthvision/datasrc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomodelgrids/create/data_srcs/earthvision/datasrc.py b/geomodelgrids/create/data_srcs/earthvision/datasrc.py
index d954b82..d910566 100644
--- a/geomodelgrids/create/data_srcs/earthvision/datasrc.py
+++ b/geomodelgrids/create/data_srcs/earthvision/datasrc.py
@@ -164,7 +164,8 @@ class RulesDataSrc(DataSrc):
         depth = numpy.zeros(points.shape[:-1])
         for iz in range(depth.shape[-1]):
             depth[:, :, iz] = topo_bathy_elev - points[:, :, iz, 2]
-        depth[:, :, 0] -= block.z_top_offset
+        if not batch or batch.z_range[0] == 0:
+            depth[:, :, 0] -= block.z_top_offset
 
         fn_path = self.config["earthvision"]["rules_fn"].split(".")
         if "rules_pythonpath" in self.config["earthvision"]:
-- 
2.43.0


From a9db0d5661ef34af9d8a8126fa762d3916f3526e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:03 +0000
Subject: [PATCH 47/58] fix: Convert EarthVision rules values and ids to float

---
 geomodelgrids/create/data_srcs/earthvision/datasrc.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/geomodelgrids/create/data_srcs/earthvision/datasrc.py b/geomodelgrids/create/data_srcs/earthvision/datasrc.py
index d910566..1b97880 100644
--- a/geomodelgrids/create/data_srcs/earthvision/datasrc.py
+++ b/geomodelgrids/create/data_srcs/earthvision/datasrc.py
@@ -173,15 +173,15 @@ class RulesDataSrc(DataSrc):
             if not path in sys.path:
                 sys.path.append(path)
         rules_fn = getattr(import_module(".".join(fn_path[:-1])), fn_path[-1])
-        rules_values = numpy.vectorize(self.query_rule)(rules_fn, data, depth.ravel())
+        rules_values = numpy.array([self.query_rule(rules_fn, point, point_depth)
+                                    for point, point_depth in zip(data, depth.ravel())], dtype=numpy.float64)
         del depth
 
         # Append fault block and zone id to values
         # :KLUDGE: Fault block and zone id are converted from int to float
-        faultblock_id = numpy.vectorize(self.set_faultblock_id)(self.faultblock_ids, data["fault_block"])
-        zone_id = numpy.vectorize(self.set_zone_id)(self.zone_ids, data["zone"])
-        values = numpy.vstack([v for v in rules_values] + [faultblock_id.reshape((1, -1)),
-                                                           zone_id.reshape((1, -1))]).transpose()
+        faultblock_id = [float(self.set_faultblock_id(self.faultblock_ids, name)) for name in data["fault_block"]]
+        zone_id = [float(self.set_zone_id(self.zone_ids, name)) for name in data["zone"]]
+        values = numpy.column_stack((rules_values, faultblock_id, zone_id))
         values = values.reshape((points.shape[0], points.shape[1], points.shape[2], -1))
 
         data_abspath = os.path.join(self.model_dir, VALUES_FILENAME)
-- 
2.43.0


From 2eb4eca5e04284f123470d49817f820b3ef460d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:03 +0000
Subject: [PATCH 48/58] fix: Assign rows in CSV file to closest grid point in
 block

---
 geomodelgrids/create/data_srcs/csv/datasrc.py | 60 ++++++++++---------
 1 file changed, 31 insertions(+), 29 deletions(-)

diff --git a/geomodelgrids/create/data_srcs/csv/datasrc.py b/geomodelgrids/create/data_srcs/csv/datasrc.py
index beeb64f..cef6a6d 100644
--- a/geomodelgrids/create/data_srcs/csv/datasrc.py
+++ b/geomodelgrids/create/data_srcs/csv/datasrc.py
@@ -54,48 +54,50 @@ class CSVFile(DataSrc):
             batch (BatchGenerator3D)
                 Current batch of points in block.
         """
-        def _varxy_index_fn(coordinates):
-            x_grid = numpy.array(coordinates)
-            x_grid.sort()
-            x_round = -int(numpy.log10(numpy.min(numpy.diff(x_grid))))
-            return x_grid.searchsorted(round(x, x_round))
-
         if batch:
             raise NotImplementedError("Batches with CSV files are not implemented.")
 
         comment_flag = self.config["csv"].get("comment_flag", "#")
-        csv_data = numpy.loadtxt(self.config["csv"]["filename"], comments=comment_flag)
+        csv_data = numpy.loadtxt(self.config["csv"]["filename"], comments=comment_flag, ndmin=2)
         model_x, model_y, model_z = self._to_model_xyz(csv_data)
 
         value_names = string_to_list(self.config["data"]["values"])
         value_columns = [int(self.config["csv.columns"][value]) for value in value_names]
-
-        if block.x_resolution:
-            def get_xindex(x, block): return round(x / block.x_resolution)
-        else:
-            def get_xindex(x, block): return _varxy_index_fn(block.x_coordinates)
-        if block.y_resolution:
-            def get_yindex(y, block): return round(y / block.y_resolution)
-        else:
-            def get_yindex(y, block): return _varxy_index_fn(block.y_coordinates)
-        if block.z_resolution:
-            def get_zindex(z, block): return round(z / block.z_resolution)
-        else:
-            z_grid = numpy.array(block.z_coordinates)
-            z_grid.sort()
-            z_round = -int(numpy.log10(numpy.min(numpy.diff(z_grid))))
-            def get_zindex(z, block): return len(z_grid) - 1 - z_grid.searchsorted(round(z, z_round))
+        csv_values = csv_data[:, value_columns]
 
         nx, ny, nz = block.get_dims()
+        x_grid = block.x_resolution * numpy.arange(nx) if block.x_resolution else numpy.array(block.x_coordinates)
+        y_grid = block.y_resolution * numpy.arange(ny) if block.y_resolution else numpy.array(block.y_coordinates)
+        z_grid = block.z_top - block.z_resolution * numpy.arange(nz) if block.z_resolution else numpy.array(block.z_coordinates)
+        ix, x_distance = self._get_grid_index(x_grid, model_x)
+        iy, y_distance = self._get_grid_index(y_grid, model_y)
+        iz, z_distance = self._get_grid_index(z_grid, model_z)
+
+        # Ignore rows outside block and use row closest to grid point (row assigned last).
+        distance = numpy.maximum(numpy.maximum(x_distance, y_distance), z_distance)
+        rows = numpy.argsort(-distance, kind="stable")
+        rows = rows[distance[rows] <= 0.5]
+
         values = NODATA_VALUE * numpy.ones((nx, ny, nz, len(value_names)), dtype=numpy.float32)
-        for row, x, y, z in zip(csv_data, model_x, model_y, model_z):
-            ix = get_xindex(x, block)
-            iy = get_yindex(y, block)
-            iz = get_zindex(z, block)
-            row_values = row[value_columns]
-            values[ix, iy, iz, :] = row_values
+        for row in rows:
+            values[ix[row], iy[row], iz[row], :] = csv_values[row]
         return values
 
+    @staticmethod
+    def _get_grid_index(grid, coordinates):
+        """Get indices of closest grid points and distances from them as fraction of grid cell.
+        """
+        order = numpy.argsort(grid)
+        grid = grid[order]
+        cells = numpy.diff(grid) if len(grid) > 1 else numpy.array([numpy.inf])
+
+        index = numpy.searchsorted(0.5 * (grid[1:] + grid[:-1]), coordinates)
+        distance = coordinates - grid[index]
+        cell_before = numpy.concatenate((cells[:1], cells))[index]
+        cell_after = numpy.concatenate((cells, cells[-1:]))[index]
+        cell = numpy.where(distance < 0.0, cell_before, cell_after)
+        return (order[index], numpy.abs(distance) / cell)
+
     def _to_model_xyz(self, csv_data):
         import pyproj
 
-- 
2.43.0


From 043df85bfb0da422ebb82244bdd85c2bdcc4b7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:29 +0000
Subject: [PATCH 49/58] fix: Set layout of data for models from IRIS EMC files

---
 geomodelgrids/create/data_srcs/iris_emc/datasrc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
index df334a9..e850b06 100644
--- a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
+++ b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
@@ -106,6 +106,7 @@ class EMCNetCDF(DataSrc):
         self.config["data"] = {
             "values": values,
             "units": units,
+            "layout": "vertex",
         }
 
         long_names = {}
-- 
2.43.0


From f1b53da8c957b5684f4a3adac591121c50f2e9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:29 +0000
Subject: [PATCH 50/58] fix: Create blocks for IRIS EMC models with uniform
 vertical resolution

---
 geomodelgrids/create/data_srcs/iris_emc/datasrc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
index e850b06..5928a94 100644
--- a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
+++ b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
@@ -132,7 +132,9 @@ class EMCNetCDF(DataSrc):
             "z_top_offset": 0.0,
         }
         if is_uniform_resolution(self.emc.variables["depth"][:]):
-            info["z_resolution"] = vertical_scale * (depth_max - depth_min) / (self.emc.variables["depth"].size-1),
+            info["z_resolution"] = vertical_scale * (depth_max - depth_min) / (self.emc.variables["depth"].size-1)
+            info["z_top"] = -vertical_scale * depth_min
+            info["z_bot"] = -vertical_scale * depth_max
         else:
             z_coordinates = -vertical_scale * self.emc.variables["depth"][:]
             info["z_coordinates"] = z_coordinates.tolist()
-- 
2.43.0


From ea7a7696af84a40b69d922f15348a9fe08f0e804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:29 +0000
Subject: [PATCH 51/58] fix: Use NODATA_VALUE for missing values in IRIS EMC
 models

---
 geomodelgrids/create/data_srcs/iris_emc/datasrc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
index 5928a94..61843a0 100644
--- a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
+++ b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
@@ -170,12 +170,12 @@ class EMCNetCDF(DataSrc):
             z_start, z_end = batch.z_range
             for i_value, name in enumerate(value_names):
                 values_batch = self.emc.variables[name][z_start:z_end, y_start:y_end, x_start:x_end]
-                values[:, :, :, i_value] = numpy.transpose(values_batch)
+                values[:, :, :, i_value] = numpy.transpose(numpy.ma.filled(values_batch, NODATA_VALUE))
         else:
             nz, ny, nx = self.emc.variables[value_names[0]][:].shape
             values = numpy.zeros((nx, ny, nz, len(value_names)), dtype=numpy.float32)
             for i_value, name in enumerate(value_names):
-                values[:, :, :, i_value] = numpy.transpose(self.emc.variables[name][:])
+                values[:, :, :, i_value] = numpy.transpose(numpy.ma.filled(self.emc.variables[name][:], NODATA_VALUE))
         return values
 
 
-- 
2.43.0


From 63a252102a30a38fb0def7f52d307bbe871ea7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:29 +0000
Subject: [PATCH 52/58] fix: Use coordinate system with longitude as x and
 latitude as y for IRIS EMC models

---
 geomodelgrids/create/data_srcs/iris_emc/datasrc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
index 61843a0..983743b 100644
--- a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
+++ b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
@@ -71,7 +71,7 @@ class EMCNetCDF(DataSrc):
         self.config["geomodelgrids"].update(metadata)
 
         self.config["coordsys"] = {
-            "crs": "EPSG:4979",
+            "crs": "OGC:CRS84h",  # EPSG:4979 with axis order longitude, latitude
             "origin_x": self.emc.geospatial_lon_min,
             "origin_y": self.emc.geospatial_lat_min,
             "y_azimuth": 0.0,
-- 
2.43.0


From cfc2f61f68722411650661a155f47bbb8ce6c7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:29 +0000
Subject: [PATCH 53/58] fix: Do not write empty lists of authors and references
 for IRIS EMC models

---
 geomodelgrids/create/data_srcs/iris_emc/datasrc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
index 983743b..26b7d08 100644
--- a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
+++ b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
@@ -43,7 +43,7 @@ class EMCNetCDF(DataSrc):
 
     def _read_model_metadata(self):
         def list_from_attr(nc, name):
-            return [getattr(nc, name)] if hasattr(nc, name) else []
+            return [getattr(nc, name, "")]
 
         ATTRS = {
             "title": lambda nc: getattr(nc, "title", "unknown").strip(),
-- 
2.43.0


From b0135b74371f6a9a07d7c78712bd10d24669e017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 54/58] fix: Do not convert units of missing elevations in
 surface queries of models

---
 libsrc/geomodelgrids/serial/Model.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libsrc/geomodelgrids/serial/Model.cc b/libsrc/geomodelgrids/serial/Model.cc
index a4661a1..559d37e 100644
--- a/libsrc/geomodelgrids/serial/Model.cc
+++ b/libsrc/geomodelgrids/serial/Model.cc
@@ -418,6 +418,9 @@ geomodelgrids::serial::Model::queryTopElevation(const double x,
         double yModel = 0.0;
         _toModelXYZ(&xModel, &yModel, nullptr, x, y, 0.0);
         const double zModelCRS = _surfaceTop->query(xModel, yModel);
+        if (geomodelgrids::NODATA_VALUE == zModelCRS) {
+            return geomodelgrids::NODATA_VALUE;
+        } // if
 
         const double yazimuthRad = _yazimuth * M_PI / 180.0;
         const double cosAz = cos(yazimuthRad);
@@ -448,6 +451,9 @@ geomodelgrids::serial::Model::queryTopoBathyElevation(const double x,
         double yModel = 0.0;
         _toModelXYZ(&xModel, &yModel, nullptr, x, y, 0.0);
         const double zModelCRS = (_surfaceTopoBathy) ? _surfaceTopoBathy->query(xModel, yModel) : _surfaceTop->query(xModel, yModel);
+        if (geomodelgrids::NODATA_VALUE == zModelCRS) {
+            return geomodelgrids::NODATA_VALUE;
+        } // if
 
         const double yazimuthRad = _yazimuth * M_PI / 180.0;
         const double cosAz = cos(yazimuthRad);
-- 
2.43.0


From 0378d52ca1502fcc6569d0a810dffad791ab6933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:50 +0000
Subject: [PATCH 55/58] fix: Keep command line in header of output on a single
 line

---
 libsrc/geomodelgrids/apps/Borehole.cc  | 5 ++++-
 libsrc/geomodelgrids/apps/Query.cc     | 5 ++++-
 libsrc/geomodelgrids/apps/QueryElev.cc | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Borehole.cc b/libsrc/geomodelgrids/apps/Borehole.cc
index 345b95d..55da5fe 100644
--- a/libsrc/geomodelgrids/apps/Borehole.cc
+++ b/libsrc/geomodelgrids/apps/Borehole.cc
@@ -9,6 +9,7 @@
 #include <getopt.h> // USES getopt_long()
 #include <iomanip>
 #include <fstream> // USES std::ofstream
+#include <algorithm> // USES std::replace()
 #include <sstream> // USES std::ostringstream, std::istringstream
 #include <cassert> // USES assert()
 #include <iostream> // USES std::cout
@@ -252,7 +253,9 @@ geomodelgrids::apps::Borehole::_createOutputHeader(int argc,
     std::ostringstream header;
     header << "#";
     for (int i = 0; i < argc; ++i) {
-        header << " " << argv[i];
+        std::string arg(argv[i]);
+        std::replace(arg.begin(), arg.end(), '\n', ' '); // Well-Known Text often spans multiple lines.
+        header << " " << arg;
     } // for
     header << "\n#"
            << std::setw(_Borehole::cwidth-1) << "Elevation"
diff --git a/libsrc/geomodelgrids/apps/Query.cc b/libsrc/geomodelgrids/apps/Query.cc
index def20f7..1792db4 100644
--- a/libsrc/geomodelgrids/apps/Query.cc
+++ b/libsrc/geomodelgrids/apps/Query.cc
@@ -8,6 +8,7 @@
 #include <getopt.h> // USES getopt_long()
 #include <iomanip>
 #include <fstream> // USES std::ifstream, std::ofstream
+#include <algorithm> // USES std::replace()
 #include <sstream> // USES std::ostringstream, std::istringstream
 #include <cassert> // USES assert()
 #include <iostream> // USES std::cout
@@ -265,7 +266,9 @@ geomodelgrids::apps::Query::_createOutputHeader(int argc,
     std::ostringstream header;
     header << "#";
     for (int i = 0; i < argc; ++i) {
-        header << " " << argv[i];
+        std::string arg(argv[i]);
+        std::replace(arg.begin(), arg.end(), '\n', ' '); // Well-Known Text often spans multiple lines.
+        header << " " << arg;
     } // for
     header << "\n#"
            << std::setw(_Query::cwidth-1) << "x0"
diff --git a/libsrc/geomodelgrids/apps/QueryElev.cc b/libsrc/geomodelgrids/apps/QueryElev.cc
index ef47be4..c89a97c 100644
--- a/libsrc/geomodelgrids/apps/QueryElev.cc
+++ b/libsrc/geomodelgrids/apps/QueryElev.cc
@@ -8,6 +8,7 @@
 #include <getopt.h> // USES getopt_long()
 #include <iomanip>
 #include <fstream> // USES std::ifstream, std::ofstream
+#include <algorithm> // USES std::replace()
 #include <sstream> // USES std::ostringstream, std::istringstream
 #include <cassert> // USES assert()
 #include <iostream> // USES std::cout
@@ -227,7 +228,9 @@ geomodelgrids::apps::QueryElev::_createOutputHeader(int argc,
     std::ostringstream header;
     header << "#";
     for (int i = 0; i < argc; ++i) {
-        header << " " << argv[i];
+        std::string arg(argv[i]);
+        std::replace(arg.begin(), arg.end(), '\n', ' '); // Well-Known Text often spans multiple lines.
+        header << " " << arg;
     } // for
     header << "\n#"
            << std::setw(_QueryElev::cwidth-1) << "x0"
-- 
2.43.0


From 113faabecd0d1c70d2ba8269d7c30d8b6c223d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:30 +0000
Subject: [PATCH 56/58] fix: Write coordinate system of rasters that WKT 1
 cannot express

---
 libsrc/geomodelgrids/utils/GeoTiff.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/utils/GeoTiff.cc b/libsrc/geomodelgrids/utils/GeoTiff.cc
index 99edad4..77b60e3 100644
--- a/libsrc/geomodelgrids/utils/GeoTiff.cc
+++ b/libsrc/geomodelgrids/utils/GeoTiff.cc
@@ -194,7 +194,12 @@ geomodelgrids::utils::GeoTiff::create(const char* filename) {
     // Set projection
     PJ_CONTEXT* context = nullptr;
     PJ* proj = proj_create(context, _crs.c_str());
-    _dataset->SetProjection(proj_as_wkt(context, proj, PJ_WKT1_GDAL, options));
+    const char* wkt = proj_as_wkt(context, proj, PJ_WKT1_GDAL, options);
+    if (!wkt) {
+        // Some coordinate systems cannot be expressed in the older version of Well-Known Text.
+        wkt = proj_as_wkt(context, proj, PJ_WKT2_2019, options);
+    } // if
+    _dataset->SetProjection(wkt);
     proj_destroy(proj);proj = nullptr;
 
     // Set geographic transformation.
-- 
2.43.0


From ea6dc47c01730fb5eb80d4adc3519652583272e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:34 +0000
Subject: [PATCH 57/58] fix: Report stations with missing coordinates in
 example of vertical profiles

---
 examples/python-api/station_profiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/python-api/station_profiles.py b/examples/python-api/station_profiles.py
index 08caaa1..6607ab2 100755
--- a/examples/python-api/station_profiles.py
+++ b/examples/python-api/station_profiles.py
@@ -69,7 +69,7 @@ class App:
         for row in locations:
             name = f"{row['Network']}.{row['StationCode']}"
             logger.info("Working on %s...", name)
-            names, data = self._query(row["StationLatitude"], row["StationLongitude"])
+            names, data = self._query(float(row["StationLatitude"]), float(row["StationLongitude"]))
             if data is None:
                 logger.info("No data for %s. Skipping profile.", name)
                 continue
-- 
2.43.0


From ecc909fbefd203932253595b5eeedefd67a32636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:18 +0000
Subject: [PATCH 58/58] Revert change of example of vertical profiles

---
 examples/python-api/station_profiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/python-api/station_profiles.py b/examples/python-api/station_profiles.py
index 6607ab2..08caaa1 100755
--- a/examples/python-api/station_profiles.py
+++ b/examples/python-api/station_profiles.py
@@ -69,7 +69,7 @@ class App:
         for row in locations:
             name = f"{row['Network']}.{row['StationCode']}"
             logger.info("Working on %s...", name)
-            names, data = self._query(float(row["StationLatitude"]), float(row["StationLongitude"]))
+            names, data = self._query(row["StationLatitude"], row["StationLongitude"])
             if data is None:
                 logger.info("No data for %s. Skipping profile.", name)
                 continue
-- 
2.43.0

