From da689192f1cac7e93daa811e24634c7dd092ae56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:55 +0000
Subject: [PATCH 01/29] fix: an unset long or double feature reads as 0 instead
 of 10

---
 src/cas/uima/lowlevel_fsheap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cas/uima/lowlevel_fsheap.hpp b/src/cas/uima/lowlevel_fsheap.hpp
index a8eb226..5d25ebc 100644
--- a/src/cas/uima/lowlevel_fsheap.hpp
+++ b/src/cas/uima/lowlevel_fsheap.hpp
@@ -490,7 +490,7 @@ namespace uima {
 
       inline INT64 getFSAsLong(TyFS tyFS) const {
         if (tyFS == 0) {
-          return '\n';
+          return 0;
         }
         assert( iv_clTemporary64BitHeap.debugIsValidHeapCell(tyFS) );
         return (INT64) iv_clTemporary64BitHeap.getHeapValue(tyFS);
@@ -498,7 +498,7 @@ namespace uima {
 
       inline double getFSAsDouble(TyFS tyFS) const {
         if (tyFS == 0) {
-          return '\n';
+          return 0;
         }
         assert( iv_clTemporary64BitHeap.debugIsValidHeapCell(tyFS) );
         INT64 int64Val = iv_clTemporary64BitHeap.getHeapValue(tyFS);
-- 
2.43.0


From 13c17a96f16c08fecd6c8fd5e235e5bf06aad6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:49 +0000
Subject: [PATCH 02/29] fix: copyToArray refuses a range that ends past the
 array

---
 src/cas/arrayfs.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cas/arrayfs.cpp b/src/cas/arrayfs.cpp
index fd5a85d..da03ff0 100644
--- a/src/cas/arrayfs.cpp
+++ b/src/cas/arrayfs.cpp
@@ -171,6 +171,7 @@ namespace uima {
     size_t uiDestOffset) const {
       checkValidity(UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
       checkArraySize(iv_tyFS, iv_cas->getHeap(), uiEnd - uiStart - 1 , UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
+      checkArraySize(iv_tyFS, iv_cas->getHeap(), uiEnd - 1, UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
       uima::lowlevel::TyFSType typecode = iv_cas->getHeap()->getType(iv_tyFS);
 
 	  size_t srcOffset = uiStart;
-- 
2.43.0


From 6039277560bf3089595de462f2eda61e12346ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:54 +0000
Subject: [PATCH 03/29] fix: OrderedSingleIndex::remove removes only the given
 structure

It erased whatever structure lower_bound found: another one with equal keys,
or even one with different keys when the structure was not in the index.
---
 src/cas/lowlevel_internal_indexes.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cas/lowlevel_internal_indexes.cpp b/src/cas/lowlevel_internal_indexes.cpp
index 38d5d14..4433184 100644
--- a/src/cas/lowlevel_internal_indexes.cpp
+++ b/src/cas/lowlevel_internal_indexes.cpp
@@ -651,8 +651,12 @@ namespace uima {
       void OrderedSingleIndex::remove(TyFS fs) {
         IndexComparatorLess comp(iv_cpComparator, iv_crFSHeap);
         TyStructures::iterator it = lower_bound( iv_tyStructures.begin(), iv_tyStructures.end(), fs, comp);
-        if ( it != iv_tyStructures.end() ) {
-          iv_tyStructures.erase(it);
+        // structures with equal keys follow each other: remove only the given one
+        for (; it != iv_tyStructures.end() && !comp(fs, *it); ++it) {
+          if (*it == fs) {
+            iv_tyStructures.erase(it);
+            return;
+          }
         }
       }
 
-- 
2.43.0


From 9b362696a13dc32bba2cf1f2fb24d27ac65428ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:56 +0000
Subject: [PATCH 04/29] fix: createFeature records the creator ID instead of
 the feature name

---
 src/cas/lowlevel_typesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/lowlevel_typesystem.cpp b/src/cas/lowlevel_typesystem.cpp
index cb92f04..3d47ad3 100644
--- a/src/cas/lowlevel_typesystem.cpp
+++ b/src/cas/lowlevel_typesystem.cpp
@@ -273,7 +273,7 @@ namespace uima {
       iv_vecRangeTypes.push_back(tyRange);
       iv_vecMultiRefs.push_back(multiRef);
       iv_vecIntroducedFeatures[tyIntro].push_back(newFeature);
-      iv_vecFeatureCreatorIDs.push_back(crusName);
+      iv_vecFeatureCreatorIDs.push_back(crusCreatorID);
 
       assert( debugIsTreeConsistent() );
       return newFeature;
-- 
2.43.0


From 00019062e036ef45ab22f09ae43ca55196bbcac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:40 +0000
Subject: [PATCH 05/29] fix: UnicodeStringRef::operator== compares past an
 embedded NUL

---
 src/framework/uima/unistrref.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/uima/unistrref.hpp b/src/framework/uima/unistrref.hpp
index dcb6bd6..ce2f1c4 100644
--- a/src/framework/uima/unistrref.hpp
+++ b/src/framework/uima/unistrref.hpp
@@ -1554,7 +1554,7 @@ namespace uima {
     if (iv_uiLength != crclRHS.iv_uiLength) {
       return false;
     }
-    return u_strncmp(iv_pUChars, crclRHS.iv_pUChars, iv_uiLength) == 0;
+    return u_memcmp(iv_pUChars, crclRHS.iv_pUChars, iv_uiLength) == 0;
   }
 
   inline int
-- 
2.43.0


From 41e56163f766c7adc944947607db1570485b6bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:40 +0000
Subject: [PATCH 06/29] fix: UnicodeStringRef::compareCodePointOrder compares
 whole strings, not the common length or up to a NUL

---
 src/framework/unistrref.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/unistrref.cpp b/src/framework/unistrref.cpp
index 32598ae..aba6022 100644
--- a/src/framework/unistrref.cpp
+++ b/src/framework/unistrref.cpp
@@ -126,7 +126,7 @@ namespace uima {
     // pin indices to legal values
     pinIndices(start, length);
 
-    int32_t diff = u_strncmpCodePointOrder(getBuffer() + start, srcChars + srcStart, min(length, srcLength));
+    int32_t diff = u_strCompare(getBuffer() + start, length, srcChars + srcStart, srcLength, true);
     /* translate the 32-bit result into an 8-bit one */
     if (diff!=0) {
       return (int8_t)(diff >> 15 | 1);
-- 
2.43.0


From 9b9534ee6c28239b1d9d1f8d4cac06456626360b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:40 +0000
Subject: [PATCH 07/29] fix: an empty UnicodeStringRef compares equal to a null
 (default constructed) one

---
 src/framework/unistrref.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/framework/unistrref.cpp b/src/framework/unistrref.cpp
index aba6022..95c8995 100644
--- a/src/framework/unistrref.cpp
+++ b/src/framework/unistrref.cpp
@@ -50,14 +50,14 @@ namespace uima {
                                const UChar *srcChars,
                                int32_t srcStart,
                                int32_t srcLength) const {
-    // compare illegal string values
-    if (srcChars==0) {
-      return 1;
-    }
-
     // pin indices to legal values
     pinIndices(start, length);
 
+    // a null reference is an empty string
+    if (srcChars==0) {
+      return length == 0 ? 0 : 1;
+    }
+
     // get the correct pointer
     const UChar *chars = getBuffer();
 
@@ -119,13 +119,17 @@ namespace uima {
       const UChar *srcChars,
       int32_t srcStart,
       int32_t srcLength) const {
-    if (srcChars==NULL) {
-      return 1;
-    }
-
     // pin indices to legal values
     pinIndices(start, length);
 
+    // a null reference is an empty string
+    if (srcChars==NULL) {
+      srcLength = 0;
+    }
+    if (length == 0 || srcLength == 0) {
+      return (int8_t)((length > srcLength) - (length < srcLength));
+    }
+
     int32_t diff = u_strCompare(getBuffer() + start, length, srcChars + srcStart, srcLength, true);
     /* translate the 32-bit result into an 8-bit one */
     if (diff!=0) {
-- 
2.43.0


From 11f899367b94af77f9885419dfe331ac87aa6458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:40 +0000
Subject: [PATCH 08/29] fix: UnicodeStringRef pins negative start and length
 (endsWith a longer text, search from past the end)

---
 src/framework/uima/unistrref.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/framework/uima/unistrref.hpp b/src/framework/uima/unistrref.hpp
index ce2f1c4..d849e30 100644
--- a/src/framework/uima/unistrref.hpp
+++ b/src/framework/uima/unistrref.hpp
@@ -1576,10 +1576,14 @@ namespace uima {
   UnicodeStringRef::pinIndices(int32_t& start,
                                int32_t& length) const {
     // pin indices
-    if (start > iv_uiLength) {
+    if (start < 0) {
+      start = 0;
+    } else if (start > iv_uiLength) {
       start = iv_uiLength;
     }
-    if (length > (iv_uiLength - start)) {
+    if (length < 0) {
+      length = 0;
+    } else if (length > (iv_uiLength - start)) {
       length = (iv_uiLength - start);
     }
   }
-- 
2.43.0


From 9e18ba2a6e9abd71822d626045990724aa777adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:40 +0000
Subject: [PATCH 09/29] fix: UnicodeStringRef caseCompare and extract do not
 read past the end of the referenced text

---
 src/framework/uima/unistrref.hpp | 2 ++
 src/framework/unistrref.cpp      | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/framework/uima/unistrref.hpp b/src/framework/uima/unistrref.hpp
index d849e30..82dbb96 100644
--- a/src/framework/uima/unistrref.hpp
+++ b/src/framework/uima/unistrref.hpp
@@ -2079,6 +2079,7 @@ namespace uima {
   UnicodeStringRef::extract(int32_t start,
                             int32_t length,
                             icu::UnicodeString& target) const {
+    pinIndices(start, length);
     target.replace(0, target.length(), getBuffer(), start, length);
   }
 // Replaces all of target by substring of src
@@ -2182,6 +2183,7 @@ namespace uima {
                                   int32_t srcStart,
                                   int32_t srcLength,
                                   uint32_t options) const {
+    pinIndices(start, length);
     icu::UnicodeString s(iv_pUChars+start, (int32_t)length);
     return s.caseCompare(srcChars + srcStart, (int32_t)srcLength, options);
   }
diff --git a/src/framework/unistrref.cpp b/src/framework/unistrref.cpp
index 95c8995..f432924 100644
--- a/src/framework/unistrref.cpp
+++ b/src/framework/unistrref.cpp
@@ -299,7 +299,8 @@ namespace uima {
                                     int32_t startLength,
                                     std::string & target,
                                     const char *codepage) const {
-    if (length() == 0) {
+    pinIndices(start, startLength);
+    if (startLength == 0) {
       target.clear();
       return 0;
     }
-- 
2.43.0


From 8ddad96652402251f2e4dde4470147f94df489dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:39 +0000
Subject: [PATCH 10/29] fix: refuse a value without a CAS in setFSValue instead
 of dereferencing a null pointer

---
 src/cas/featurestructure.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index c5f167d..aa6bc58 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -193,7 +193,7 @@ namespace uima {
    * checks if anFS is an appropriate value for f.
    */
   void FeatureStructure::checkAppropFeature(Feature const & f, FeatureStructure const & anFS, TyMessageId tyContext) const {
-    if ( (&iv_cas->getHeap()->getTypeSystem()) != (&anFS.iv_cas->getHeap()->getTypeSystem()) ) {
+    if ( !EXISTS(anFS.iv_cas) || (&iv_cas->getHeap()->getTypeSystem()) != (&anFS.iv_cas->getHeap()->getTypeSystem()) ) {
       UIMA_EXC_THROW_NEW(InvalidFSObjectException,
                          UIMA_ERR_INVALID_FS_OBJECT,
                          UIMA_MSG_ID_EXC_INVALID_FS_OBJECT,
-- 
2.43.0


From 1c6cc4cf503108ac2a7b2ca386e49941b6a05cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:39 +0000
Subject: [PATCH 11/29] fix: clone(Type) with no common feature copied all
 features of the new type past the original

---
 src/cas/featurestructure.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index aa6bc58..3cde420 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -256,7 +256,10 @@ namespace uima {
     lowlevel::TyFSType mcst = ts.getMostSpecificCommonSupertype( uima::internal::FSPromoter::demoteType(getType()),
                               uima::internal::FSPromoter::demoteType(t) );
     lowlevel::TyFeatureOffset featNum = ts.getFeatureNumber( mcst );
-    iv_cas->getHeap()->copyFeatures(newFS.iv_tyFS, iv_tyFS, featNum);
+    // without common features there is nothing to copy (0 would mean all features)
+    if (featNum > 0) {
+      iv_cas->getHeap()->copyFeatures(newFS.iv_tyFS, iv_tyFS, featNum);
+    }
     return newFS;
   }
 
-- 
2.43.0


From 49b27a7643a786ce3f11f951cd4598ceda041cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:39 +0000
Subject: [PATCH 12/29] fix: getFSValue took primitive values of the newer
 built-in types for references

---
 src/cas/featurestructure.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index 3cde420..e1b0aca 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -133,6 +133,11 @@ namespace uima {
     uima::lowlevel::TyFSType rangeType = rTS.getRangeType(internal::FSPromoter::demoteFeature(crFeature));
     if ( rangeType == uima::internal::gs_tyIntegerType
          || rangeType == uima::internal::gs_tyFloatType
+         || rangeType == uima::internal::gs_tyBooleanType
+         || rangeType == uima::internal::gs_tyByteType
+         || rangeType == uima::internal::gs_tyShortType
+         || rangeType == uima::internal::gs_tyLongType
+         || rangeType == uima::internal::gs_tyDoubleType
          || rangeType == uima::internal::gs_tyStringType
          || rTS.getParentType(rangeType) == uima::internal::gs_tyStringType ) {
       ErrorMessage msg( UIMA_MSG_ID_EXC_INCOMPATIBLE_RANGE_TYPE);
-- 
2.43.0


From a3c3e7d2adc511371fb85c1fc430094c7ef72dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:39 +0000
Subject: [PATCH 13/29] fix: check the feature in getStringValue and
 setStringValue, as documented

---
 src/cas/featurestructure.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index e1b0aca..131f6ff 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -442,6 +442,7 @@ namespace uima {
 
   UnicodeStringRef  FeatureStructure::getStringValue(Feature const & f) const {
     checkValidity(UIMA_MSG_ID_EXCON_GETTING_STRINGVALUE_FROM_FS);
+    checkFeature(f, UIMA_MSG_ID_EXCON_GETTING_STRINGVALUE_FROM_FS);
     checkRangeIsString(f, UIMA_MSG_ID_EXCON_GETTING_STRINGVALUE_FROM_FS);
     lowlevel::TyFSFeature tyFeat =  internal::FSPromoter::demoteFeature( f );
     lowlevel::TyFS tyStringFS = iv_cas->getHeap()->getFSValue(iv_tyFS, tyFeat);
@@ -457,6 +458,7 @@ namespace uima {
 
   void FeatureStructure::setStringValueExternal(Feature const & f, UnicodeStringRef uls) {
     checkValidity(UIMA_MSG_ID_EXCON_SETTING_STRINGVALUE_IN_FS);
+    checkFeature(f, UIMA_MSG_ID_EXCON_SETTING_STRINGVALUE_IN_FS);
     checkRangeIsString(f, UIMA_MSG_ID_EXCON_SETTING_STRINGVALUE_IN_FS);
 
     //!!! Not supporting External at this time. All strings added to StringHeap.
-- 
2.43.0


From b2645cb32df11deae7078b6133d55277484ba6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:28 +0000
Subject: [PATCH 14/29] fix: FeatureStructure list getters check the object and
 the feature before using them

---
 src/cas/featurestructure.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index 131f6ff..f014cac 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -542,6 +542,8 @@ namespace uima {
   /* ----------------------------------------------------------------------- */
 
   bool FeatureStructure::hasListElements(Feature const & f) const {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_LIST_ISEMPTY);
+    checkFeature(f, UIMA_MSG_ID_EXCON_GETTING_LIST_ISEMPTY);
     Type tRangeType;
     f.getRangeType(tRangeType);
     lowlevel::TyFSFeature tyRangeType = internal::FSPromoter::demoteType(tRangeType);
@@ -573,18 +575,26 @@ namespace uima {
   }
 
   ListFS FeatureStructure::getListFSValue( Feature const & f ) const {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FIRST_LIST_ELEMENT);
+    checkFeature(f, UIMA_MSG_ID_EXCON_GETTING_FIRST_LIST_ELEMENT);
     return ListFS::getListFSValue(*this, f);
   }
 
   FloatListFS FeatureStructure::getFloatListFSValue( Feature const & f ) const {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FIRST_LIST_ELEMENT);
+    checkFeature(f, UIMA_MSG_ID_EXCON_GETTING_FIRST_LIST_ELEMENT);
     return FloatListFS::getListFSValue(*this, f);
   }
 
   IntListFS FeatureStructure::getIntListFSValue( Feature const & f ) const {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FIRST_LIST_ELEMENT);
+    checkFeature(f, UIMA_MSG_ID_EXCON_GETTING_FIRST_LIST_ELEMENT);
     return IntListFS::getListFSValue(*this, f);
   }
 
   StringListFS FeatureStructure::getStringListFSValue( Feature const & f ) const {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FIRST_LIST_ELEMENT);
+    checkFeature(f, UIMA_MSG_ID_EXCON_GETTING_FIRST_LIST_ELEMENT);
     return StringListFS::getListFSValue(*this, f);
   }
 
-- 
2.43.0


From 0a8fc916673a8684141192806535dfdf9e20edd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:11 +0000
Subject: [PATCH 15/29] fix: swap8 swaps all eight bytes of a value

It returned the first four swapped bytes only, so every long and double of a
blob in the other byte order was read wrong.
---
 src/cas/internal_casdeserializer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/internal_casdeserializer.cpp b/src/cas/internal_casdeserializer.cpp
index 284bb5c..dff0b57 100644
--- a/src/cas/internal_casdeserializer.cpp
+++ b/src/cas/internal_casdeserializer.cpp
@@ -732,7 +732,7 @@ namespace uima {
       output[5] = ((char*)&in)[2];
       output[6] = ((char*)&in)[1];
       output[7] = ((char*)&in)[0];
-      in = *(int*)output;
+      in = *(INT64*)output;
       return in;
     }
 
-- 
2.43.0


From 9a2af5002f5a8cf614a54c1be5bc84da18613af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:11 +0000
Subject: [PATCH 16/29] fix: deserializeIndexedFSs lost the first view when the
 base CAS indexes nothing

The count 0 of the base CAS was not stepped over and was taken for the count of
the first view.
---
 src/cas/internal_casdeserializer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/internal_casdeserializer.cpp b/src/cas/internal_casdeserializer.cpp
index dff0b57..ff0eec0 100644
--- a/src/cas/internal_casdeserializer.cpp
+++ b/src/cas/internal_casdeserializer.cpp
@@ -638,13 +638,13 @@ namespace uima {
       if (loopSize > 0) {
         lastSegmentUsed = 0;
         perLoopIndexedFSs.insert(perLoopIndexedFSs.end(), cit+1, cit+1+loopSize);
-        cit += loopSize + 1;
 
         for (loopit = perLoopIndexedFSs.begin(); loopit != perLoopIndexedFSs.end(); ++loopit) {
           assert( *loopit < iMaxOffset );
           crIndexRep->add( *loopit );
         }
       }
+      cit += loopSize + 1;
 
       // book keeping for all Sofas
       rCAS.getBaseCas()->iv_sofaCount = 1; // reserve for initial view
-- 
2.43.0


From 8335fd4bc454717b96f4ac1af0aeff5a77b8e11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:11 +0000
Subject: [PATCH 17/29] fix: deserializeBlob builds the indexes after all heaps
 are restored

The structures were put into the indexes before the 8, 16 and 64-bit heaps were
read, so that indexes with keys of these types were ordered by the old values.
---
 src/cas/internal_casdeserializer.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cas/internal_casdeserializer.cpp b/src/cas/internal_casdeserializer.cpp
index ff0eec0..ac6dc11 100644
--- a/src/cas/internal_casdeserializer.cpp
+++ b/src/cas/internal_casdeserializer.cpp
@@ -898,13 +898,11 @@ namespace uima {
       }
       intPtr += 1 + uiRefHeapLength;
 
-      // create FS indexes
+      // get the indexed FSs
       size_t uiIndexedFSLength = intPtr[0];
       if (uiIndexedFSLength > 0) {
-        uima::CAS * baseCAS = rCAS.getBaseCas();
         iv_vecIndexedFSs.resize(uiIndexedFSLength);
         memcpy(&iv_vecIndexedFSs[0], intPtr+1, 4*uiIndexedFSLength);
-        deserializeIndexedFSs(iv_vecIndexedFSs, *baseCAS);
       }
       intPtr += 1 + uiIndexedFSLength;
 
@@ -939,7 +937,11 @@ namespace uima {
         memcpy(ty64BitHeap.getHeapStart(), intPtr+1, 8*ui64BitHeapLength);
       }
 
-
+      // create FS indexes, when all heaps hold the values that the FSs are ordered by
+      if (uiIndexedFSLength > 0) {
+        uima::CAS * baseCAS = rCAS.getBaseCas();
+        deserializeIndexedFSs(iv_vecIndexedFSs, *baseCAS);
+      }
 
     }
 
-- 
2.43.0


From f53af429a9a8b1ef114252e9d8c8287ebe13fe1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:11 +0000
Subject: [PATCH 18/29] fix: serialize a CAS whose views were not created yet

After reset() the initial view counts as a view, but it has no entry in the
table of index repositories before it is first used.
---
 src/cas/internal_casserializer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cas/internal_casserializer.cpp b/src/cas/internal_casserializer.cpp
index de4030b..5f3473a 100644
--- a/src/cas/internal_casserializer.cpp
+++ b/src/cas/internal_casserializer.cpp
@@ -442,7 +442,9 @@ namespace uima {
           crIndexRep->getUsedIndexes(vecAllTypes);
         } else {
           // for all views found in the CAS, get new IndexRepository
-          crIndexRep = crCASImpl.iv_baseCas->iv_sofa2indexMap[view];
+          vector<uima::lowlevel::IndexRepository *> const & crViewIndexes = crCASImpl.iv_baseCas->iv_sofa2indexMap;
+          // a view that was not created yet has no entry
+          crIndexRep = (size_t)view < crViewIndexes.size() ? crViewIndexes[view] : 0;
           if (crIndexRep == 0) {
             // no indexed FS for this View, move on
             iv_vecIndexedFSs.push_back(0);
-- 
2.43.0


From e08ed5bb382f02de3c5f97a96e5c1104117c242e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:50 +0000
Subject: [PATCH 19/29] fix: accept language and territory codes that contain
 the letter x

---
 src/framework/language.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/language.cpp b/src/framework/language.cpp
index 77bf025..f46fdf0 100644
--- a/src/framework/language.cpp
+++ b/src/framework/language.cpp
@@ -74,7 +74,7 @@ namespace uima {
   Language::init( const char * cpszLanguageCode ) {
     // Check that have 2 chars (a-z) or 2 such pairs separated by - or _
 
-    static const char legalChars[] = "abcdefghijklmnopqrstuvwzyz";
+    static const char legalChars[] = "abcdefghijklmnopqrstuvwxyz";
 
     memset(iv_locale, '\0', 6);                           // Start with all 0's
     memset(iv_lang,   '\0', 3);
-- 
2.43.0


From a543a493eec260b24efcfce1ef7ef857422f8ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:50 +0000
Subject: [PATCH 20/29] fix: an invalid language code kept a territory

---
 src/framework/language.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/framework/language.cpp b/src/framework/language.cpp
index f46fdf0..5c347a3 100644
--- a/src/framework/language.cpp
+++ b/src/framework/language.cpp
@@ -97,9 +97,10 @@ namespace uima {
     } else
       iv_locale[0] = '?';                                 // Illegal length 1,3,4,6,7,...
 
-    if ( strspn(iv_locale, legalChars) < len )            // Illegal characters?
+    if ( strspn(iv_locale, legalChars) < len ) {          // Illegal characters?
+      memset(iv_locale, '\0', 6);
       strcpy(iv_locale, "??");                            // Invalid
-    else {
+    } else {
       if ( len == 5 )
         iv_locale[2] = '-';                               // Normalize to -
     }
-- 
2.43.0


From 9b5f2724243b16ccdae6c28c98dac4ceb9ed42a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:50 +0000
Subject: [PATCH 21/29] fix: a language code with a non-invariant character was
 cut and accepted

---
 src/framework/language.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/framework/language.cpp b/src/framework/language.cpp
index 5c347a3..ae6db70 100644
--- a/src/framework/language.cpp
+++ b/src/framework/language.cpp
@@ -122,6 +122,10 @@ namespace uima {
     u_UCharsToChars(crustrLanguageCode.getBuffer(), buff, uiLen);
     // zero terminate buffer
     buff[uiLen] = char(0);
+    // other chars give a zero byte: must not end the code but make it illegal
+    for (size_t i = 0; i < uiLen; ++i)
+      if (buff[i] == char(0))
+        buff[i] = '?';
     init(buff);
   }
 
-- 
2.43.0


From 89d50764f523188fd67794b8c25f454200eb656c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:20 +0000
Subject: [PATCH 22/29] fix: LocalSofaDataStream::read returns the number of
 elements, not of bytes

---
 src/cas/sofastream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/sofastream.cpp b/src/cas/sofastream.cpp
index be3d237..8ee2b12 100644
--- a/src/cas/sofastream.cpp
+++ b/src/cas/sofastream.cpp
@@ -477,7 +477,7 @@ namespace uima {
     //move current read position
     iv_curpos += numbytesread;
 
-    return numbytesread;
+    return elementSize > 1 ? numbytesread/elementSize : numbytesread;   // number of elements read
   }
 
   //seek
-- 
2.43.0


From 5f9493b93fe6146e61ce8573472897f37dc5469b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:20 +0000
Subject: [PATCH 23/29] fix: LocalSofaDataStream::seek outside the data returns
 EOF and keeps the position

---
 src/cas/sofastream.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/cas/sofastream.cpp b/src/cas/sofastream.cpp
index 8ee2b12..da5fead 100644
--- a/src/cas/sofastream.cpp
+++ b/src/cas/sofastream.cpp
@@ -492,15 +492,19 @@ namespace uima {
                          ErrorInfo::unrecoverable);
     }
 
+    INT64 low, high;       // range of offsets that stay within the data
     switch (origin) {
     case SEEK_SET:
-      iv_curpos = offset;
+      low = 0;
+      high = iv_size;
       break ;
     case SEEK_CUR:
-      iv_curpos += offset;
+      low = -iv_curpos;
+      high = iv_size - iv_curpos;
       break ;
     case SEEK_END:
-      iv_curpos = getTotalStreamSizeInBytes() - offset;
+      low = 0;
+      high = iv_size;
       break ;
     default:
       ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_SOFADATASTREAM_INVALID_SEEK_ORIGIN);
@@ -511,6 +515,16 @@ namespace uima {
                          UIMA_MSG_ID_EXCON_SOFADATASTREAM,
                          ErrorInfo::unrecoverable);
     }
+    if (offset < low || offset > high) {
+      return SOFASTREAMHANDLER_EOF;
+    }
+    if (origin == SEEK_SET) {
+      iv_curpos = offset;
+    } else if (origin == SEEK_CUR) {
+      iv_curpos += offset;
+    } else {
+      iv_curpos = iv_size - offset;
+    }
     return 0;
   }
 
-- 
2.43.0


From f412552f84ab1bbc4128f86dfa7a0f591493e028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:56 +0000
Subject: [PATCH 24/29] fix: a stream over an empty array could not be read

---
 src/cas/sofastream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cas/sofastream.cpp b/src/cas/sofastream.cpp
index da5fead..b648c0c 100644
--- a/src/cas/sofastream.cpp
+++ b/src/cas/sofastream.cpp
@@ -392,6 +392,9 @@ namespace uima {
                            UIMA_MSG_ID_EXCON_SOFADATASTREAM,
                            ErrorInfo::unrecoverable);
       }
+      if (iv_psofadata == NULL) {
+        iv_psofadata = "";        // an empty array has no cells, but the stream is open
+      }
     } else {
       ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_LOCAL_SOFADATA_NOTSET);
       errMsg.addParam(type.getName());
-- 
2.43.0


From 38a57eb1324658ce4d2ae791e3868b46bd81dc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:25 +0000
Subject: [PATCH 25/29] fix: moveTo of a filtered iterator does not stop at a
 structure the filter rejects

---
 src/cas/lowlevel_index.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cas/lowlevel_index.cpp b/src/cas/lowlevel_index.cpp
index d071c5c..0cfa097 100644
--- a/src/cas/lowlevel_index.cpp
+++ b/src/cas/lowlevel_index.cpp
@@ -172,7 +172,12 @@ namespace uima {
 
       bool moveTo(TyFS fs) {
         assert( EXISTS(iv_pIterator) );
-        return iv_pIterator->moveTo(fs);
+        if (!iv_pIterator->moveTo(fs)) {
+          return false;
+        }
+        // the position found may be one of a filtered structure
+        moveToNextUnfiltered();
+        return isValid();
       }
 
     };
-- 
2.43.0


From 29abf3fdabac2dbf2a9b0593b8b0480da85a9409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:25 +0000
Subject: [PATCH 26/29] fix: getIndexedFSs drops the duplicates it sorted to
 the end

---
 src/cas/lowlevel_indexrepository.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cas/lowlevel_indexrepository.cpp b/src/cas/lowlevel_indexrepository.cpp
index d8a90e1..f77c07e 100644
--- a/src/cas/lowlevel_indexrepository.cpp
+++ b/src/cas/lowlevel_indexrepository.cpp
@@ -198,6 +198,7 @@ namespace uima {
 	  // eliminate duplicates
       sort(fillit.begin(), fillit.end());
       vector<TyFS>::iterator end = unique(fillit.begin(), fillit.end());
+      fillit.erase(end, fillit.end());
     }
 
     void IndexRepository::reset() {
-- 
2.43.0


From f0d427affb2df67f564c02c571a1fd6c54c50b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:25 +0000
Subject: [PATCH 27/29] fix: moveTo in a FIFO index stops at the structure, not
 behind it

---
 src/cas/lowlevel_internal_indexes.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/cas/lowlevel_internal_indexes.cpp b/src/cas/lowlevel_internal_indexes.cpp
index 4433184..8135e5a 100644
--- a/src/cas/lowlevel_internal_indexes.cpp
+++ b/src/cas/lowlevel_internal_indexes.cpp
@@ -165,9 +165,6 @@ namespace uima {
 
           if (iv_cpComparator == NULL) {
             cit = find(iv_crStructures.begin(), iv_crStructures.end(), fs);
-            if (cit != iv_crStructures.end()) {
-              ++cit;
-            }
           } else {
             // first try to find the same fs
             cit = find(iv_crStructures.begin(), iv_crStructures.end(), fs);
-- 
2.43.0


From d4c5ff20c7bddd060eb103b8dd2de819c347b258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:25 +0000
Subject: [PATCH 28/29] fix: adding and removing by index, and removing, make
 the caches over the type stale

---
 src/cas/uima/lowlevel_indexrepository.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/cas/uima/lowlevel_indexrepository.hpp b/src/cas/uima/lowlevel_indexrepository.hpp
index c4b4ea6..4f7a71c 100644
--- a/src/cas/uima/lowlevel_indexrepository.hpp
+++ b/src/cas/uima/lowlevel_indexrepository.hpp
@@ -267,6 +267,8 @@ namespace uima {
       assert( iv_bIsInitialized );
       TyFSType type = iv_rFSHeap.getType(fs);
       UIMA_TPRINT("Removing fs of type " << iv_rFSHeap.getTypeSystem().getTypeName(type) << ": " << (int) fs);
+      assert( type < iv_cacheDirtyFlags.size() );
+      iv_cacheDirtyFlags[type].clear();
       assert( type < iv_indexes.size() );
       std::vector<internal::SingleIndex*>& typeIndexes = iv_indexes[type];
 
@@ -280,13 +282,20 @@ namespace uima {
 
     inline void IndexRepository::add(TyFS fs, IndexDefinition::TyIndexID const & crID) {
       assert( iv_bIsInitialized );
-      internal::SingleIndex* ix = getSingleIndexForFS(fs, crID);
+      TyFSType type = iv_rFSHeap.getType(fs);
+      internal::SingleIndex* ix = getSingleIndexForType(type, crID);
+      iv_cacheDirtyFlags[type].clear();
+      if (!iv_isUsed[type]) {
+        iv_isUsed[type] = true;
+        iv_usedIndexes.push_back(type);
+      }
       ix->add(fs);
     }
 
     inline void IndexRepository::remove(TyFS fs, IndexDefinition::TyIndexID const & crID) {
       assert( iv_bIsInitialized );
       internal::SingleIndex* ix = getSingleIndexForFS(fs, crID);
+      iv_cacheDirtyFlags[iv_rFSHeap.getType(fs)].clear();
       ix->remove(fs);
     }
 
-- 
2.43.0


From aa01c9f6c33ec450e190077bbe062b60898122ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:25 +0000
Subject: [PATCH 29/29] fix: removing a structure of a type without an index
 forgets it

---
 src/cas/uima/lowlevel_indexrepository.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cas/uima/lowlevel_indexrepository.hpp b/src/cas/uima/lowlevel_indexrepository.hpp
index 4f7a71c..0437d7a 100644
--- a/src/cas/uima/lowlevel_indexrepository.hpp
+++ b/src/cas/uima/lowlevel_indexrepository.hpp
@@ -272,6 +272,15 @@ namespace uima {
       assert( type < iv_indexes.size() );
       std::vector<internal::SingleIndex*>& typeIndexes = iv_indexes[type];
 
+      if (typeIndexes.size() == 0) {
+        // no index is defined for this type
+        std::vector<TyFS>::iterator itUndef = std::find(iv_undefinedindex.begin(), iv_undefinedindex.end(), fs);
+        if (itUndef != iv_undefinedindex.end()) {
+          iv_undefinedindex.erase(itUndef);
+        }
+        return;
+      }
+
       std::vector<internal::SingleIndex*>::iterator it;
       for (it = typeIndexes.begin(); it != typeIndexes.end(); ++it) {
         assert( (*it)->getType() == type );
-- 
2.43.0

