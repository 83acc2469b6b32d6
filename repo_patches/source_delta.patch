From 959c04ebb88ec586d3989ae88c004a11ad87a78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:41 +0000
Subject: [PATCH 01/32] fix: division by zero in the grouping progress log for
 small spaces

The progress message is printed every total/5 subsequences. With fewer
than five subsequences that interval is zero and grouping dies with
SIGFPE as soon as ten seconds passed since the last message.
---
 genex/group/LocalLengthGroupSpace.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/genex/group/LocalLengthGroupSpace.cpp b/genex/group/LocalLengthGroupSpace.cpp
index 09ba1cd..1a41fa0 100644
--- a/genex/group/LocalLengthGroupSpace.cpp
+++ b/genex/group/LocalLengthGroupSpace.cpp
@@ -60,6 +60,7 @@ int LocalLengthGroupSpace::generateGroups(const dist_t pairwiseDistance, data_t
     cout << "Processing time series space of length " << this->length << endl;
   }
   auto totalTimeSeries = this->subTimeSeriesCount * dataset.getItemCount();
+  auto logInterval = std::max(1, totalTimeSeries / LOG_FREQ);
   int counter = 0;
   for (int start = 0; start < this->subTimeSeriesCount; start++)
   {
@@ -67,7 +68,7 @@ int LocalLengthGroupSpace::generateGroups(const dist_t pairwiseDistance, data_t
     {
       counter++;
       if (doLog) {
-        if (counter % (totalTimeSeries / LOG_FREQ) == 0) {
+        if (counter % logInterval == 0) {
           cout << "  Grouping progress... " << counter << "/" << totalTimeSeries 
                << " (" << counter*100/totalTimeSeries << "%)" << endl;
         }
-- 
2.43.0


From ed459eb605e737498d25f81738f02c89aa16fe94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:41 +0000
Subject: [PATCH 02/32] fix: data race on the lazily created distance metric

Worker threads of a multithreaded grouping tested and assigned the same
static pointer without synchronisation.
---
 genex/distance/Distance.hpp | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index ea6f3a3..606b85c 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -91,10 +91,8 @@ data_t warpedDistance(
   auto n = b.getLength();
   auto r = calculateWarpingBandSize(max(m, n));
   
-  static DM* metric;
-  if (metric == nullptr) {
-    metric = new DM();
-  }
+  static DM metricInstance;
+  DM* metric = &metricInstance;
 
   // Fastpath for base intervals
   if (m == 1 && n == 1)
@@ -237,11 +235,8 @@ pairwiseDistance(
     throw GenexException("Two time series must have the same length for pairwise distance");
   }
 
-  static DM* metric = nullptr;
-  if (metric == nullptr)
-  {
-    metric = new DM();
-  }
+  static DM metricInstance;
+  DM* metric = &metricInstance;
 
   T total = metric->init();
 
@@ -280,11 +275,8 @@ pairwiseDistance(
     throw GenexException("Two time series must have the same length for pairwise distance");
   }
 
-  static DM* metric = nullptr;
-  if (metric == nullptr)
-  {
-    metric = new DM();
-  }
+  static DM metricInstance;
+  DM* metric = &metricInstance;
 
   T total = metric->init();
 
-- 
2.43.0


From 0a2a4a547d49ae262f306cc697f3da816e35ad1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:04 +0000
Subject: [PATCH 03/32] fix: process termination when a worker thread cannot be
 started

If std::thread failed in the constructor of ThreadPool the already
running workers were destroyed unjoined, which calls std::terminate.
They are now stopped and joined and the error is passed on.
---
 genex/lib/ThreadPool.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/genex/lib/ThreadPool.hpp b/genex/lib/ThreadPool.hpp
index 8e32a1e..cdfd5aa 100644
--- a/genex/lib/ThreadPool.hpp
+++ b/genex/lib/ThreadPool.hpp
@@ -42,6 +42,10 @@ public:
         -> std::future<typename std::result_of<F(Args...)>::type>;
     ~ThreadPool();
 private:
+    // Delegated to, so that the destructor joins the workers started so far
+    // when starting one of the others fails
+    ThreadPool() : stop(false) {}
+
     // need to keep track of threads so we can join them
     std::vector< std::thread > workers;
     // the task queue
@@ -55,7 +59,7 @@ private:
  
 // the constructor just launches some amount of workers
 inline ThreadPool::ThreadPool(size_t threads)
-    :   stop(false)
+    :   ThreadPool()
 {
     for(size_t i = 0;i<threads;++i)
         workers.emplace_back(
-- 
2.43.0


From fb27aacef771673f9177fc6ec6bcd5a6679cf122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:04 +0000
Subject: [PATCH 04/32] fix: failed grouping drops the existing groups and
 leaves half-built ones

The dataset was shown as grouped after a grouping that failed, and the
groups it had before were gone. New groups now replace the old ones only
after they are complete.
---
 genex/GroupableTimeSeriesSet.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index 1b75ad8..ead3065 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -1,5 +1,6 @@
 #include <iostream>
 #include <fstream>
+#include <memory>
 
 #include "IO.hpp"
 #include "GroupableTimeSeriesSet.hpp"
@@ -27,22 +28,22 @@ int GroupableTimeSeriesSet::groupAllLengths(
     throw GenexException("No data to group");
   }
 
-  // clear old groups
-  reset();
-
-  this->groupsAllLengthSet = new GlobalGroupSpace(*this);
+  // The old groups are only replaced once the new ones are complete
+  std::unique_ptr<GlobalGroupSpace> newGroups(new GlobalGroupSpace(*this));
   int cntGroups;
   if (numThreads == 1) {
-    cntGroups = this->groupsAllLengthSet->group(
+    cntGroups = newGroups->group(
       distanceName, threshold, wholeSeriesOnly);
   }
   else if (numThreads > 1) {
-    cntGroups = this->groupsAllLengthSet->groupMultiThreaded(
+    cntGroups = newGroups->groupMultiThreaded(
       distanceName, threshold, numThreads, wholeSeriesOnly);
   }
   else {
     throw GenexException("Number of threads must be positive");    
   }
+  reset();
+  this->groupsAllLengthSet = newGroups.release();
   return cntGroups;
 }
 
-- 
2.43.0


From 4f666b73df0156aae48170086c6f324f11e2bf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:04 +0000
Subject: [PATCH 05/32] fix: group leaked when it cannot be added to its length
 space

---
 genex/group/LocalLengthGroupSpace.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/genex/group/LocalLengthGroupSpace.cpp b/genex/group/LocalLengthGroupSpace.cpp
index 1a41fa0..1c1509e 100644
--- a/genex/group/LocalLengthGroupSpace.cpp
+++ b/genex/group/LocalLengthGroupSpace.cpp
@@ -6,6 +6,7 @@
 #include <cmath>
 #include <iostream>
 #include <chrono>
+#include <memory>
 
 #include "TimeSeries.hpp"
 #include "group/Group.hpp"
@@ -95,11 +96,13 @@ int LocalLengthGroupSpace::generateGroups(const dist_t pairwiseDistance, data_t
       {
         bestSoFarIndex = this->groups.size();
         auto newGroupIndex = this->groups.size();
-        this->groups.push_back(new Group(newGroupIndex
+        std::unique_ptr<Group> newGroup(new Group(newGroupIndex
                                          , this->length
                                          , this->subTimeSeriesCount
                                          , this->dataset
                                          , this->memberMap));
+        this->groups.push_back(newGroup.get());
+        newGroup.release();
         this->groups[bestSoFarIndex]->setCentroid(idx, start);
       }
 
-- 
2.43.0


From 9966f8351461bd6116238dd867a30f06b87b37dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:04 +0000
Subject: [PATCH 06/32] fix: uninitialised group index when no representative
 is comparable

With an infinite threshold, or distances that are not numbers, no group
was selected and the member was added through an uninitialised index.
---
 genex/group/LocalLengthGroupSpace.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/genex/group/LocalLengthGroupSpace.cpp b/genex/group/LocalLengthGroupSpace.cpp
index 1c1509e..9e083fb 100644
--- a/genex/group/LocalLengthGroupSpace.cpp
+++ b/genex/group/LocalLengthGroupSpace.cpp
@@ -80,7 +80,7 @@ int LocalLengthGroupSpace::generateGroups(const dist_t pairwiseDistance, data_t
       TimeSeries query = dataset.getTimeSeries(idx, start, start + this->length);
 
       data_t bestSoFar = INF;
-      int bestSoFarIndex;
+      int bestSoFarIndex = -1;
 
       for (auto i = 0; i < groups.size(); i++)
       {
@@ -92,7 +92,7 @@ int LocalLengthGroupSpace::generateGroups(const dist_t pairwiseDistance, data_t
         }
       }
 
-      if (bestSoFar > threshold / 2 || this->groups.size() == 0)
+      if (bestSoFar > threshold / 2 || bestSoFarIndex < 0)
       {
         bestSoFarIndex = this->groups.size();
         auto newGroupIndex = this->groups.size();
-- 
2.43.0


From 12e462dd654cdf0dff599360fe6417496461a1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:55 +0000
Subject: [PATCH 07/32] fix: failed loadGroups drops the existing groups and
 leaks the new ones

Groups read from a file now replace the existing ones only after the
whole file was read.
---
 genex/GroupableTimeSeriesSet.hpp      | 7 +++++--
 genex/group/GlobalGroupSpace.hpp      | 2 +-
 genex/group/LocalLengthGroupSpace.hpp | 8 +++++---
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/genex/GroupableTimeSeriesSet.hpp b/genex/GroupableTimeSeriesSet.hpp
index 29ba3a3..ca74ba1 100644
--- a/genex/GroupableTimeSeriesSet.hpp
+++ b/genex/GroupableTimeSeriesSet.hpp
@@ -1,6 +1,7 @@
 #ifndef GROUPABLE_TIME_SERIES_SET_H
 #define GROUPABLE_TIME_SERIES_SET_H
 
+#include <memory>
 #include <vector>
 #include <boost/serialization/serialization.hpp>
 #include <boost/serialization/split_member.hpp>
@@ -115,9 +116,11 @@ private:
     {
       throw GenexException("Incompatible item length");
     }
+    // The old groups are only replaced once the new ones are complete
+    std::unique_ptr<GlobalGroupSpace> newGroups(new GlobalGroupSpace(*this));
+    ar >> *newGroups;
     reset();
-    this->groupsAllLengthSet = new GlobalGroupSpace(*this);
-    ar >> *(this->groupsAllLengthSet);
+    this->groupsAllLengthSet = newGroups.release();
   }
 
   BOOST_SERIALIZATION_SPLIT_MEMBER()
diff --git a/genex/group/GlobalGroupSpace.hpp b/genex/group/GlobalGroupSpace.hpp
index 6378708..76f6d05 100644
--- a/genex/group/GlobalGroupSpace.hpp
+++ b/genex/group/GlobalGroupSpace.hpp
@@ -119,8 +119,8 @@ private:
     this->totalNumberOfGroups = 0;
     for (auto i = minLen; i < maxLen; i++) {
       auto llgs = new LocalLengthGroupSpace(dataset, i);
-      ar >> *llgs;
       this->localLengthGroupSpace[i] = llgs;
+      ar >> *llgs;
       this->totalNumberOfGroups += llgs->getNumberOfGroups();
     }
   }
diff --git a/genex/group/LocalLengthGroupSpace.hpp b/genex/group/LocalLengthGroupSpace.hpp
index 0c9f82d..2f7d7b4 100644
--- a/genex/group/LocalLengthGroupSpace.hpp
+++ b/genex/group/LocalLengthGroupSpace.hpp
@@ -3,6 +3,7 @@
 
 #include <vector>
 #include <functional>
+#include <memory>
 #include <queue>
 #include <boost/serialization/serialization.hpp>
 #include <boost/serialization/split_member.hpp>
@@ -104,13 +105,14 @@ private:
     
     for (int i = 0; i < numberOfGroups; i++)
     {
-      auto g = new Group(i
+      std::unique_ptr<Group> g(new Group(i
                          , this->length
                          , this->subTimeSeriesCount
                          , this->dataset
-                         , this->memberMap);
+                         , this->memberMap));
       ar >> *g;
-      this->groups.push_back(g);
+      this->groups.push_back(g.get());
+      g.release();
     }
   }
 
-- 
2.43.0


From 87109b282607623e37832c2e49137e10b6ea8b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:55 +0000
Subject: [PATCH 08/32] fix: loaded whole-series groups cannot be saved again

The range of lengths in a group file was not remembered, so saving groups
that had been made with wholeSeriesOnly dereferenced null pointers after
they were loaded. The range is checked against the dataset as well.
---
 genex/group/GlobalGroupSpace.cpp | 9 +++++++++
 genex/group/GlobalGroupSpace.hpp | 7 +++++++
 2 files changed, 16 insertions(+)

diff --git a/genex/group/GlobalGroupSpace.cpp b/genex/group/GlobalGroupSpace.cpp
index 8cdd3f7..55f7d1e 100644
--- a/genex/group/GlobalGroupSpace.cpp
+++ b/genex/group/GlobalGroupSpace.cpp
@@ -68,6 +68,15 @@ int GlobalGroupSpace::_getMinLength() const
   return this->wholeSeriesOnly ? this->localLengthGroupSpace.size() - 1 : 2;
 }
 
+void GlobalGroupSpace::_checkLengthRange(int minLength, int maxLength)
+{
+  if (maxLength != this->dataset.getMaxLength() + 1
+      || (minLength != 2 && minLength != maxLength - 1)) {
+    throw GenexException("Incompatible range of lengths");
+  }
+  this->wholeSeriesOnly = minLength == maxLength - 1;
+}
+
 int GlobalGroupSpace::group(
   const string& distance_name, data_t threshold, bool wholeSeriesOnly)
 {
diff --git a/genex/group/GlobalGroupSpace.hpp b/genex/group/GlobalGroupSpace.hpp
index 76f6d05..5a29848 100644
--- a/genex/group/GlobalGroupSpace.hpp
+++ b/genex/group/GlobalGroupSpace.hpp
@@ -93,6 +93,12 @@ private:
   void _loadDistance(const std::string& distanceName);
   int _group(int i);
   int _getMinLength() const;
+  /**
+   *  @brief checks the range of lengths found in a file and sets wholeSeriesOnly accordingly
+   *
+   *  @throw GenexException if the groups cannot belong to the dataset
+   */
+  void _checkLengthRange(int minLength, int maxLength);
 
   /*************************
    *  Start serialization
@@ -115,6 +121,7 @@ private:
     size_t maxLen, minLen;
     ar >> minLen >> maxLen >> this->distanceName >> this->threshold;
     this->_loadDistance(this->distanceName);
+    this->_checkLengthRange(minLen, maxLen);
     this->localLengthGroupSpace.resize(dataset.getMaxLength() + 1, nullptr);
     this->totalNumberOfGroups = 0;
     for (auto i = minLen; i < maxLen; i++) {
-- 
2.43.0


From 0f007e0b8084e37d09e891522e2f978bd42da4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:58:57 +0000
Subject: [PATCH 09/32] fix: loadGroups accepts files that do not fit the
 dataset

Members were used as indices unchecked, and groups that miss or repeat
subsequences were accepted. Members are added in their original order
now, so that queries break ties as they did before saving.
---
 genex/group/Group.cpp                 | 24 ++++++++++++++++++++++++
 genex/group/Group.hpp                 | 21 +++++++++++++++++++--
 genex/group/LocalLengthGroupSpace.cpp | 14 ++++++++++++++
 genex/group/LocalLengthGroupSpace.hpp |  6 ++++++
 4 files changed, 63 insertions(+), 2 deletions(-)

diff --git a/genex/group/Group.cpp b/genex/group/Group.cpp
index 7ed8f13..2195cfc 100644
--- a/genex/group/Group.cpp
+++ b/genex/group/Group.cpp
@@ -6,6 +6,7 @@
 #include <algorithm>
 
 #include "TimeSeries.hpp"
+#include "Exception.hpp"
 #include "distance/Distance.hpp"
 
 using std::vector;
@@ -23,6 +24,29 @@ void Group::addMember(int tsIndex, int tsStart)
   this->lastMemberCoord = std::make_pair(tsIndex, tsStart);
 }
 
+void Group::_checkMember(int index, int start) const
+{
+  if (index < 0 || index >= this->dataset.getItemCount()
+      || start < 0 || start > this->dataset.getItemLength(index) - this->memberLength) {
+    throw GenexException("Groups contain a time series that is not in the dataset");
+  }
+}
+
+void Group::_addMembers(const vector<member_coord_t>& members)
+{
+  if (members.empty()) {
+    throw GenexException("Empty group");
+  }
+  for (auto m = members.rbegin(); m != members.rend(); m++)
+  {
+    this->_checkMember(m->first, m->second);
+    if (this->memberMap[m->first * this->subTimeSeriesCount + m->second].groupIndex != -1) {
+      throw GenexException("Groups contain a time series more than once");
+    }
+    this->addMember(m->first, m->second);
+  }
+}
+
 void Group::setCentroid(int tsIndex, int tsStart)
 {
   this->centroid = this->dataset.getTimeSeries(tsIndex, tsStart, tsStart + this->memberLength);
diff --git a/genex/group/Group.hpp b/genex/group/Group.hpp
index 9487825..646cce8 100644
--- a/genex/group/Group.hpp
+++ b/genex/group/Group.hpp
@@ -8,6 +8,7 @@
 #include "distance/Distance.hpp"
 
 #include <fstream>
+#include <vector>
 
 namespace genex {
 
@@ -27,7 +28,7 @@ struct group_membership_t
   member_coord_t prev;
   int groupIndex;
 
-  group_membership_t() {}
+  group_membership_t() : groupIndex(-1) {}
   group_membership_t(int groupIndex, member_coord_t prev)
     : groupIndex(groupIndex), prev(prev) {}
 };
@@ -172,6 +173,19 @@ private:
 
   TimeSeries centroid;
 
+  /**
+   *  @throw GenexException if the dataset has no such time series
+   */
+  void _checkMember(int index, int start) const;
+
+  /**
+   *  @brief adds members in the order in which they were saved, which is the reverse of
+   *         the order in which they were added originally
+   *
+   *  @throw GenexException if a time series does not exist or is in a group already
+   */
+  void _addMembers(const std::vector<member_coord_t>& members);
+
   /*************************
    *  Start serialization
    *************************/
@@ -196,14 +210,17 @@ private:
   {
     int cindex, cstart;
     ar >> cindex >> cstart;
+    this->_checkMember(cindex, cstart);
     this->setCentroid(cindex, cstart);
     int cnt;
     ar >> cnt;
+    std::vector<member_coord_t> members;
     for (int i = 0; i < cnt; i++) {
       int index, start;
       ar >> index >> start;
-      this->addMember(index, start);
+      members.push_back(std::make_pair(index, start));
     }
+    this->_addMembers(members);
   }
 
   BOOST_SERIALIZATION_SPLIT_MEMBER()
diff --git a/genex/group/LocalLengthGroupSpace.cpp b/genex/group/LocalLengthGroupSpace.cpp
index 9e083fb..1693e93 100644
--- a/genex/group/LocalLengthGroupSpace.cpp
+++ b/genex/group/LocalLengthGroupSpace.cpp
@@ -118,6 +118,20 @@ int LocalLengthGroupSpace::getNumberOfGroups(void) const
   return this->groups.size();
 }
 
+void LocalLengthGroupSpace::_checkComplete() const
+{
+  int expected = 0, found = 0;
+  for (int idx = 0; idx < dataset.getItemCount(); idx++) {
+    expected += std::max(0, dataset.getItemLength(idx) - this->length + 1);
+  }
+  for (auto group : this->groups) {
+    found += group->getCount();
+  }
+  if (found != expected) {
+    throw GenexException("Groups do not contain all time series of the dataset");
+  }
+}
+
 const Group* LocalLengthGroupSpace::getGroup(int idx) const
 {
   if (idx < 0 || idx >= this->getNumberOfGroups()) {
diff --git a/genex/group/LocalLengthGroupSpace.hpp b/genex/group/LocalLengthGroupSpace.hpp
index 2f7d7b4..dc3c3ae 100644
--- a/genex/group/LocalLengthGroupSpace.hpp
+++ b/genex/group/LocalLengthGroupSpace.hpp
@@ -84,6 +84,11 @@ private:
   vector<Group*> groups;
   vector<group_membership_t> memberMap;
 
+  /**
+   *  @throw GenexException if a time series of this length is missing in the loaded groups
+   */
+  void _checkComplete() const;
+
   /*************************
    *  Start serialization
    *************************/
@@ -114,6 +119,7 @@ private:
       this->groups.push_back(g.get());
       g.release();
     }
+    this->_checkComplete();
   }
 
   BOOST_SERIALIZATION_SPLIT_MEMBER()
-- 
2.43.0


From 981ee00cc5bbbf01c8dd707931387267d030ca5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:21 +0000
Subject: [PATCH 10/32] fix: write errors and damaged files go unnoticed when
 saving and loading groups

saveGroups ignored errors of the file, truncated it even when there were
no groups to save, and could fail to end on a full disk. loadGroups never
reached the checksum at the end of the compressed data.
---
 genex/IO.hpp | 58 +++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 19 deletions(-)

diff --git a/genex/IO.hpp b/genex/IO.hpp
index 874aa96..ff7cae5 100644
--- a/genex/IO.hpp
+++ b/genex/IO.hpp
@@ -4,12 +4,13 @@
 #include <boost/archive/binary_oarchive.hpp>
 #include <boost/archive/text_iarchive.hpp>
 #include <boost/archive/text_oarchive.hpp>
-#include <boost/iostreams/device/file.hpp>
+#include <boost/iostreams/device/back_inserter.hpp>
 #include <boost/iostreams/filter/zlib.hpp>
-#include <boost/iostreams/filtering_streambuf.hpp>
 #include <iostream>
 
 #include <fstream>
+#include <iterator>
+#include <sstream>
 
 #include "TimeSeries.hpp"
 #include "Exception.hpp"
@@ -21,21 +22,34 @@ namespace genex {
 
 template<typename A>
 void saveToFile(const A & obj, const std::string & fname) {
-    std::ofstream ofs(fname, std::ios::binary);
-    if (ofs)
+    // everything is put together in memory first, so that the file is only
+    // touched when there is something to save
+    std::stringbuf archive;
     {
-        boost::iostreams::filtering_ostreambuf filter_osbuf;
-
-        // push the ofstream and the compressor
-        filter_osbuf.push(
-            boost::iostreams::zlib_compressor(boost::iostreams::zlib::best_compression));
-        filter_osbuf.push(ofs);
-
-        // start the archive on the filtering buffer
-        boost::archive::binary_oarchive boa(filter_osbuf);
+        // start the archive on the buffer
+        boost::archive::binary_oarchive boa(archive);
 
         boa << obj;
     }
+    std::string plain = archive.str();
+    std::string content;
+    {
+        boost::iostreams::zlib_compressor compressor(boost::iostreams::zlib::best_compression);
+        boost::iostreams::back_insert_device<std::string> sink(content);
+        compressor.write(sink, plain.data(), plain.size());
+        compressor.close(sink, std::ios::out);
+    }
+
+    std::ofstream ofs(fname, std::ios::binary);
+    if (ofs)
+    {
+        ofs.write(content.data(), content.size());
+        ofs.close();
+        if (!ofs)
+        {
+            throw GenexException("Error while writing file");
+        }
+    }
     else 
     {
         throw GenexException("Cannot open file");    
@@ -47,14 +61,20 @@ void loadFromFile(A & obj, const std::string & fname) {
     std::ifstream ifs(fname, std::ios::binary);
     if (ifs)
     {
-        boost::iostreams::filtering_istreambuf filter_isbuf;
+        std::string content((std::istreambuf_iterator<char>(ifs)), std::istreambuf_iterator<char>());
 
-        // push the ifstream and the decompressor
-        filter_isbuf.push(boost::iostreams::zlib_decompressor());
-        filter_isbuf.push(ifs);
+        // decompress the whole file first: its checksum is at the end
+        std::string plain;
+        {
+            boost::iostreams::zlib_decompressor decompressor;
+            boost::iostreams::back_insert_device<std::string> sink(plain);
+            decompressor.write(sink, content.data(), content.size());
+            decompressor.close(sink, std::ios::out);
+        }
 
-        // start the archive on the filtering buffer
-        boost::archive::binary_iarchive bia(filter_isbuf);
+        // start the archive on the buffer
+        std::stringbuf archive(plain, std::ios::in);
+        boost::archive::binary_iarchive bia(archive);
 
         bia >> obj;
     }
-- 
2.43.0


From 681189f1bc7ed788921166f2ec8b854900585e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:20 +0000
Subject: [PATCH 11/32] fix: text group files are neither written nor read
 safely

Write errors were not reported. Loading did not restore the threshold,
accepted incomplete files and members outside of the dataset, dropped the
existing groups on failure, and left centroids that were saved as the
wrong time series by saveGroups later on.
---
 genex/GroupableTimeSeriesSet.cpp      | 13 +++++++++---
 genex/group/GlobalGroupSpace.cpp      |  9 ++++++--
 genex/group/GlobalGroupSpace.hpp      |  2 +-
 genex/group/Group.cpp                 | 30 +++++++++++++++++++++++----
 genex/group/LocalLengthGroupSpace.cpp |  8 ++++---
 5 files changed, 49 insertions(+), 13 deletions(-)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index ead3065..fa03367 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -102,6 +102,11 @@ void GroupableTimeSeriesSet::saveGroupsOld(const string& path, bool groupSizeOnl
          << this->getItemCount() << " "
          << this->getMaxLength() << endl;
     this->groupsAllLengthSet->saveGroupsOld(fout, groupSizeOnly);
+    fout.close();
+    if (!fout)
+    {
+      throw GenexException("Error while writing file");
+    }
   }
   else
   {
@@ -118,7 +123,7 @@ int GroupableTimeSeriesSet::loadGroupsOld(const string& path)
     int version, grpItemCount, grpItemLength;
     data_t threshold;
     fin >> version >> threshold >> grpItemCount >> grpItemLength;
-    if (version != GROUP_FILE_VERSION)
+    if (!fin || version != GROUP_FILE_VERSION)
     {
       throw GenexException("Incompatible file version");
     }
@@ -131,9 +136,11 @@ int GroupableTimeSeriesSet::loadGroupsOld(const string& path)
     //   throw GenexException("Incompatible item length");
     // }
     cout << "Saved groups are compatible with the dataset" << endl;
+    // The old groups are only replaced once the new ones are complete
+    std::unique_ptr<GlobalGroupSpace> newGroups(new GlobalGroupSpace(*this));
+    numberOfGroups = newGroups->loadGroupsOld(fin, threshold);
     reset();
-    this->groupsAllLengthSet = new GlobalGroupSpace(*this);
-    numberOfGroups = this->groupsAllLengthSet->loadGroupsOld(fin);
+    this->groupsAllLengthSet = newGroups.release();
   }
   else
   {
diff --git a/genex/group/GlobalGroupSpace.cpp b/genex/group/GlobalGroupSpace.cpp
index 55f7d1e..681fac9 100644
--- a/genex/group/GlobalGroupSpace.cpp
+++ b/genex/group/GlobalGroupSpace.cpp
@@ -237,7 +237,7 @@ void GlobalGroupSpace::saveGroupsOld(ofstream &fout, bool groupSizeOnly) const
   }
 }
 
-int GlobalGroupSpace::loadGroupsOld(ifstream &fin)
+int GlobalGroupSpace::loadGroupsOld(ifstream &fin, data_t threshold)
 {
   reset();
 
@@ -245,13 +245,18 @@ int GlobalGroupSpace::loadGroupsOld(ifstream &fin)
   string distance;
   fin >> lenFrom >> lenTo >> distance;
   boost::trim_right(distance);
+  if (!fin) {
+    throw GenexException("Group file is not complete");
+  }
   this->_loadDistance(distance);
+  this->_checkLengthRange(lenFrom, lenTo);
+  this->threshold = threshold;
   this->localLengthGroupSpace.resize(dataset.getMaxLength() + 1, nullptr);
   this->totalNumberOfGroups = 0;  
   for (auto i = lenFrom; i < lenTo; i++) {
     auto gel = new LocalLengthGroupSpace(dataset, i);
-    this->totalNumberOfGroups += gel->loadGroupsOld(fin);
     this->localLengthGroupSpace[i] = gel;
+    this->totalNumberOfGroups += gel->loadGroupsOld(fin);
   }
   return this->totalNumberOfGroups;
 }
diff --git a/genex/group/GlobalGroupSpace.hpp b/genex/group/GlobalGroupSpace.hpp
index 5a29848..d955fc9 100644
--- a/genex/group/GlobalGroupSpace.hpp
+++ b/genex/group/GlobalGroupSpace.hpp
@@ -79,7 +79,7 @@ public:
   std::vector<candidate_time_series_t> getKBestMatches(const TimeSeries& query, int k);
   
   void saveGroupsOld(std::ofstream &fout, bool groupSizeOnly) const;
-  int loadGroupsOld(std::ifstream &fin);
+  int loadGroupsOld(std::ifstream &fin, data_t threshold);
 
 private:
   std::string distanceName;
diff --git a/genex/group/Group.cpp b/genex/group/Group.cpp
index 2195cfc..a767b3c 100644
--- a/genex/group/Group.cpp
+++ b/genex/group/Group.cpp
@@ -181,18 +181,40 @@ void Group::saveGroupOld(ofstream &fout) const
 void Group::loadGroupOld(ifstream &fin)
 {
   int cnt;
-  this->centroid = TimeSeries(this->memberLength);
+  TimeSeries savedCentroid(this->memberLength);
 
   for (int i = 0; i < this->memberLength; i++) {
-    fin >> this->centroid[i];
+    fin >> savedCentroid[i];
   }
 
   fin >> cnt; 
   int index, start;
-  for (int i = 0; i < cnt; i++) {
+  vector<member_coord_t> members;
+  for (int i = 0; fin && i < cnt; i++) {
     fin >> index >> start;
-    this->addMember(index, start);
+    members.push_back(std::make_pair(index, start));
   }
+  if (!fin) {
+    throw GenexException("Group file is not complete");
+  }
+  this->_addMembers(members);
+
+  // The centroid is one of the members, its values in the file are rounded
+  data_t smallestDiff = INF;
+  member_coord_t centroidCoord = members.back();
+  for (auto m = members.rbegin(); m != members.rend(); m++) {
+    TimeSeries member = 
+      this->dataset.getTimeSeries(m->first, m->second, m->second + this->memberLength);
+    data_t diff = 0;
+    for (int i = 0; i < this->memberLength; i++) {
+      diff = std::max(diff, std::abs(member[i] - savedCentroid[i]));
+    }
+    if (diff < smallestDiff) {
+      smallestDiff = diff;
+      centroidCoord = *m;
+    }
+  }
+  this->setCentroid(centroidCoord.first, centroidCoord.second);
 }
 
 } // namespace genex
diff --git a/genex/group/LocalLengthGroupSpace.cpp b/genex/group/LocalLengthGroupSpace.cpp
index 1693e93..5c5f714 100644
--- a/genex/group/LocalLengthGroupSpace.cpp
+++ b/genex/group/LocalLengthGroupSpace.cpp
@@ -167,14 +167,16 @@ int LocalLengthGroupSpace::loadGroupsOld(ifstream &fin)
   fin >> numberOfGroups;
   for (auto i = 0; i < numberOfGroups; i++)
   {
-    auto grp = new Group(i
+    std::unique_ptr<Group> grp(new Group(i
                          , this->length
                          , this->subTimeSeriesCount
                          , this->dataset
-                         , this->memberMap);
+                         , this->memberMap));
     grp->loadGroupOld(fin);
-    this->groups.push_back(grp);
+    this->groups.push_back(grp.get());
+    grp.release();
   }
+  this->_checkComplete();
   return numberOfGroups;
 }
 
-- 
2.43.0


From ee87d617c27b6c1af12c226c1c42e4dccd6eb728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:20 +0000
Subject: [PATCH 12/32] fix: read errors make loadDataset load only a part of
 the file

An error in the pass that counts the rows was cleared before the second
pass, and a second pass that ended early was accepted.
---
 genex/TimeSeriesSet.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index a4e7586..341f7aa 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -56,6 +56,10 @@ std::pair<int, int> _getMaxRowsMaxColumns(std::ifstream& f, const string& separa
       maxColumn = length;
     }
   }
+  if (f.bad())
+  {
+    throw GenexException("Error while reading file");
+  }
   f.clear();
   f.seekg(0);
   return {lineCount, maxColumn};
@@ -137,7 +141,7 @@ void TimeSeriesSet::loadData(const string& filePath
   }
 
 
-  if (f.bad())
+  if (f.bad() || this->itemCount < maxNumRow)
   {
     f.close();
     this->clearData();
-- 
2.43.0


From a947f1ebdbdd43733280e1d5d6c3c3090e0cda67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:20 +0000
Subject: [PATCH 13/32] fix: saveDataset does not report write errors

---
 genex/TimeSeriesSet.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index 341f7aa..67d6aca 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -171,6 +171,10 @@ void TimeSeriesSet::saveData(const string& filePath, char separator) const
     f << endl;
   }
   f.close();
+  if (!f)
+  {
+    throw GenexException(string("Error while writing ") + filePath);
+  }
 }
 
 void TimeSeriesSet::clearData()
-- 
2.43.0


From 8d497ad2139348cf21dc0b3eaa9184d4c98be1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:41 +0000
Subject: [PATCH 14/32] fix: short rows and negative columns corrupt a loaded
 dataset

Rows with fewer tokens than skipped columns got a negative length and no
name, a negative starting column wrote beyond the data, and loading again
into the same set kept the old lengths.
---
 genex/TimeSeriesSet.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index 67d6aca..ad12653 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -72,6 +72,10 @@ void TimeSeriesSet::loadData(const string& filePath
                             , bool hasNameCol)
 {
   this->clearData();
+  if (startCol < 0)
+  {
+    throw GenexException("Starting column must not be negative");
+  }
 
   std::ifstream f(filePath);
   if (!f.is_open())
@@ -102,7 +106,12 @@ void TimeSeriesSet::loadData(const string& filePath
     if (getline(f, line))
     {
       tokenizer tokens(line, sep);
-      this->lengths.push_back(std::distance(tokens.begin(), tokens.end()) - startCol - hasNameCol);
+      length = std::distance(tokens.begin(), tokens.end()) - startCol - hasNameCol;
+      // Rows without any value are empty time series
+      this->lengths.push_back(std::max(0, length));
+      if (hasNameCol && length < 0) {
+        this->names.push_back("");
+      }
       int col = 0;
       for (tokenizer::iterator tok_iter = tokens.begin();
            tok_iter != tokens.end(); tok_iter++, col++)
@@ -149,7 +158,7 @@ void TimeSeriesSet::loadData(const string& filePath
   }
 
   this->filePath = filePath;
-  this->maxCol = rawMaxCol - startCol - hasNameCol;
+  this->maxCol = std::max(0, rawMaxCol - startCol - hasNameCol);
   f.close();
 }
 
@@ -184,6 +193,8 @@ void TimeSeriesSet::clearData()
   this->itemCount = 0;
   this->maxCol = 0;
   this->names.clear();
+  this->lengths.clear();
+  this->normalized = false;
 }
 
 TimeSeries TimeSeriesSet::getTimeSeries(int index, int start, int end) const
-- 
2.43.0


From 02f2fab0d3585e3e23d2928b2801f60b951ee19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:11 +0000
Subject: [PATCH 15/32] fix: loadDataset leaks or half registers a dataset when
 memory runs out

---
 genex/GenexAPI.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/genex/GenexAPI.cpp b/genex/GenexAPI.cpp
index 638c498..33e4f9f 100644
--- a/genex/GenexAPI.cpp
+++ b/genex/GenexAPI.cpp
@@ -8,6 +8,7 @@
 
 #include <vector>
 #include <iostream>
+#include <memory>
 
 using std::string;
 using std::vector;
@@ -32,20 +33,23 @@ dataset_metadata_t GenexAPI::loadDataset(const string& name
     throw GenexException("Name has already been used");
   }
 
-  auto newSet = new GroupableTimeSeriesSet();
+  std::unique_ptr<GroupableTimeSeriesSet> newSet(new GroupableTimeSeriesSet());
+  newSet->loadData(filePath, maxNumRow, startCol, separators, hasNameCol);
+
+  dataset_metadata_t info;
+  this->_loadedDatasets[name] = newSet.get();
   try {
-    newSet->loadData(filePath, maxNumRow, startCol, separators, hasNameCol);
-  } 
-  catch (GenexException& e)
+    info = this->getDatasetInfo(name);
+  }
+  catch (...)
   {
-    delete newSet;
-    throw e;
+    this->_loadedDatasets.erase(name);
+    throw;
   }
-
-  this->_loadedDatasets[name] = newSet;
+  newSet.release();
   this->_datasetCount++;
 
-  return this->getDatasetInfo(name);
+  return info;
 }
 
 void GenexAPI::saveDataset(const string& name, const string& filePath, char separator)
-- 
2.43.0


From ab521be17f5852995523499ded7c2e81064774db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:11 +0000
Subject: [PATCH 16/32] fix: PAA data outlives the dataset it was made from

Unloading a dataset kept its PAA wrapper, which refers to freed memory
and was used for the next dataset loaded under the same name.
---
 genex/GenexAPI.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/genex/GenexAPI.cpp b/genex/GenexAPI.cpp
index 33e4f9f..b8e4c38 100644
--- a/genex/GenexAPI.cpp
+++ b/genex/GenexAPI.cpp
@@ -66,7 +66,7 @@ void GenexAPI::unloadDataset(const string& name)
   this->_loadedDatasets[name] = nullptr;
   this->_loadedDatasets.erase(name);
 
-  if (this->_paaWrappers.find(name) == this->_paaWrappers.end())
+  if (this->_paaWrappers.find(name) != this->_paaWrappers.end())
   {
     delete this->_paaWrappers[name];
     this->_paaWrappers[name] = nullptr;
@@ -82,6 +82,11 @@ void GenexAPI::unloadAllDataset()
     delete this->_loadedDatasets[pair.first];
   }
   this->_loadedDatasets.clear();
+  for (auto const& pair : this->_paaWrappers)
+  {
+    delete pair.second;
+  }
+  this->_paaWrappers.clear();
   this->_datasetCount = 0;
 }
 
-- 
2.43.0


From e086f43e9b95f2dfb13d3df60c3f2d0082f5b2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:11 +0000
Subject: [PATCH 17/32] fix: PAA preparation reads beyond the dataset

The length of a row was looked up with the maximum length as index, all
rows were taken to be equally long, averages started from an
uninitialised sum, and a failed preparation left unusable PAA data.
---
 genex/GenexAPI.cpp   | 10 +++++-----
 genex/PAAWrapper.cpp | 13 +++++++------
 genex/TimeSeries.cpp |  2 +-
 3 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/genex/GenexAPI.cpp b/genex/GenexAPI.cpp
index b8e4c38..6f28f8d 100644
--- a/genex/GenexAPI.cpp
+++ b/genex/GenexAPI.cpp
@@ -227,15 +227,15 @@ GenexAPI::getKBestMatchesBruteForce(int k, const string& target_name, const stri
 
 void GenexAPI::preparePAA(const string& name, int blockSize) {
   this->_checkDatasetName(name);
-  PAAWrapper* wrapper;
   if (this->_paaWrappers.find(name) != this->_paaWrappers.end()) {
-    wrapper = this->_paaWrappers[name];
+    this->_paaWrappers[name]->generatePAAMatrix(blockSize);
   }
   else {
-    wrapper = new PAAWrapper(*(this->_loadedDatasets[name]));
-    this->_paaWrappers[name] = wrapper;
+    std::unique_ptr<PAAWrapper> wrapper(new PAAWrapper(*(this->_loadedDatasets[name])));
+    wrapper->generatePAAMatrix(blockSize);
+    this->_paaWrappers[name] = wrapper.get();
+    wrapper.release();
   }
-  wrapper->generatePAAMatrix(blockSize);
 }
 
 vector<candidate_time_series_t>
diff --git a/genex/PAAWrapper.cpp b/genex/PAAWrapper.cpp
index 355411e..8ae1e16 100644
--- a/genex/PAAWrapper.cpp
+++ b/genex/PAAWrapper.cpp
@@ -49,15 +49,16 @@ void PAAWrapper::generatePAAMatrix(int blockSize)
     throw GenexException("Block size for PAA must be positive");
   }
  
-  int itemLength = dataset.getItemLength(dataset.getMaxLength());
-  blockSize = min(blockSize, itemLength);
+  blockSize = min(blockSize, std::max(1, dataset.getMaxLength()));
+  vector< vector<TimeSeries> > newMat(dataset.getItemCount());
   for (int i = 0; i < dataset.getItemCount(); i++) {
-    this->paaMat[i].clear();
-    for (int offset = 0; offset < blockSize; offset++) {
+    int itemLength = dataset.getItemLength(i);
+    for (int offset = 0; offset < min(blockSize, itemLength); offset++) {
       TimeSeries paaTS = tsPAA(dataset.getTimeSeries(i, offset, itemLength), blockSize);      
-      this->paaMat[i].push_back(paaTS);
+      newMat[i].push_back(paaTS);
     }
   }
+  this->paaMat.swap(newMat);
   this->blockSize = blockSize;
 }
 
@@ -106,13 +107,13 @@ vector<candidate_time_series_t> PAAWrapper::getKBestMatchesPAA(
 
   auto warpedDistance = getDistanceFromName(distanceName + DTW_SUFFIX);
   data_t bestSoFarDist, currentDist;
-  auto timeSeriesLength = dataset.getItemLength(dataset.getMaxLength());
   auto numberTimeSeries = dataset.getItemCount();
   auto paaQuery = tsPAA(query, this->blockSize);
 
   // iterate through every timeseries
   for (int idx = 0; idx < numberTimeSeries; idx++)
   {
+    auto timeSeriesLength = dataset.getItemLength(idx);
     // iterate through every length of interval
     for (int intervalLength = 2; intervalLength <= timeSeriesLength;
         intervalLength++) 
diff --git a/genex/TimeSeries.cpp b/genex/TimeSeries.cpp
index a672d95..2da351c 100755
--- a/genex/TimeSeries.cpp
+++ b/genex/TimeSeries.cpp
@@ -166,7 +166,7 @@ bool TimeSeries::operator==(const TimeSeries& other) const
 }
 
 data_t TimeSeries::average() {
-  data_t sum;
+  data_t sum = 0;
   for (int i = 0; i < this->length; i++) {
     sum += data[this->start + i];
   }
-- 
2.43.0


From 5dedf3889df1e90e6630c68f7a8238859b6a6efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:17 +0000
Subject: [PATCH 18/32] fix: every distance computation appends to a global
 matching

The matching was built although none was asked for, into a vector shared
by all callers that was reversed each time, so queries became slower with
every query and raced when run in parallel. The search for the path does
not hang on values that are not numbers any more either.
---
 genex/distance/Distance.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index 606b85c..e101708 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -178,7 +178,7 @@ data_t warpedDistance(
 
   int i = m - 1;
   int j = n - 1;
-  while ((i != 0) || (j != 0)) {
+  while (computeMatching && ((i != 0) || (j != 0))) {
     matching.push_back(coord_t {i, j});
     if (i == 0) {
       j--;
@@ -200,13 +200,15 @@ data_t warpedDistance(
       else if (ncost[i - 1][j] == minNeighbor) {
         i--;
       }
-      else if (ncost[i][j - 1] == minNeighbor) {
+      else {
         j--;
       }
     }
   }
-  matching.push_back(coord_t {0, 0});
-  std::reverse(matching.begin(), matching.end());
+  if (computeMatching) {
+    matching.push_back(coord_t {0, 0});
+    std::reverse(matching.begin(), matching.end());
+  }
   for(int i = 1; i < m; i++)
   {
     for(int j = 1; j < n; j++)
-- 
2.43.0


From 5dabb42263c8a17fdd322d5ea2d8d515097eed14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:17 +0000
Subject: [PATCH 19/32] fix: warped distances leak the cells of the first row
 and column

---
 genex/distance/Distance.hpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index e101708..3fcf1fe 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -106,6 +106,20 @@ data_t warpedDistance(
 
   // create cost matrix
   vector< vector< T >> cost(m, vector< T >(n));
+  // Frees all cells on the way out, also when running out of memory
+  struct CostCleaner
+  {
+    DM* metric;
+    vector< vector< T >>& cost;
+    ~CostCleaner()
+    {
+      for (auto& row : cost) {
+        for (auto& cell : row) {
+          metric->clean(cell);
+        }
+      }
+    }
+  } cleaner = {metric, cost};
   vector< vector< data_t >> ncost(m, vector<data_t>(n));
 
   // Preset this in case this cell is never reached due to the warping
@@ -209,14 +223,6 @@ data_t warpedDistance(
     matching.push_back(coord_t {0, 0});
     std::reverse(matching.begin(), matching.end());
   }
-  for(int i = 1; i < m; i++)
-  {
-    for(int j = 1; j < n; j++)
-    {
-      metric->clean(cost[i][j]);
-    }
-  }
-
   return result;
 }
 
-- 
2.43.0


From a40d2c82b2a01c5e2e34b2598e9a80a77d2d1b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:17 +0000
Subject: [PATCH 20/32] fix: warped distance uses a cell outside of the warping
 band

When the neighbouring costs are not comparable, which happens with cosine
and series starting with zeros, the cell above was used even if it was
never computed. For cosine and sorensen that is a null pointer.
---
 genex/distance/Distance.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index 3fcf1fe..28ee50a 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -161,7 +161,8 @@ data_t warpedDistance(
       auto ij1  = (i - r <= j-1 && j-1 <= i + r) ? ncost[i][j-1] : INF;
       auto i1j1 = ncost[i-1][j-1];
       auto i1j  = (j - r <= i-1 && i-1 <= j + r) ? ncost[i-1][j] : INF;
-      T minPrev = cost[i-1][j];
+      // Cells outside of the warping band are never computed
+      T minPrev = (j - r <= i-1 && i-1 <= j + r) ? cost[i-1][j] : cost[i-1][j-1];
       if (i1j1 < ij1 && i1j1 < i1j)
       {
         minPrev = cost[i-1][j-1];
-- 
2.43.0


From 0eb58e7c67cbd6ad2e4862bc0a633e1b0144f099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:17 +0000
Subject: [PATCH 21/32] fix: stale lengths and envelopes after assigning a time
 series

Assignment copied as many values as the old series had and kept its
Keogh envelope. An envelope that could not be allocated was still taken
for valid afterwards.
---
 genex/TimeSeries.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/genex/TimeSeries.cpp b/genex/TimeSeries.cpp
index 2da351c..fec6713 100755
--- a/genex/TimeSeries.cpp
+++ b/genex/TimeSeries.cpp
@@ -66,20 +66,22 @@ TimeSeries::TimeSeries(const TimeSeries& other)
 
 TimeSeries& TimeSeries::operator=(const TimeSeries& other)
 {
-  if (isOwnerOfData) {
-    // If the data is internal, remove it as it will be replaced soon
-    delete[] this->data;
+  if (this == &other) {
+    return *this;
   }
+  data_t* newData = other.data;
   if (other.isOwnerOfData)
   {
     // If the data is internal to the TimeSeries, copy this data
-    this->data = new data_t[length];
-    memcpy(this->data, other.data, length * sizeof(data_t));
+    newData = new data_t[other.length];
+    memcpy(newData, other.data, other.length * sizeof(data_t));
   }
-  else {
-    // If the data is external, only need to copy the referring pointer
-    this->data = other.data;
+  if (isOwnerOfData) {
+    // If the data is internal, remove it as it is replaced now
+    delete[] this->data;
   }
+  this->data = newData;
+  keoghCacheValid = false;
 
   isOwnerOfData = other.isOwnerOfData;
   index = other.index;
@@ -100,6 +102,7 @@ TimeSeries& TimeSeries::operator=(TimeSeries&& other)
   // deleted soon
   data = other.data;
   other.data = nullptr;
+  keoghCacheValid = false;
 
   isOwnerOfData = other.isOwnerOfData;
   index = other.index;
@@ -194,6 +197,7 @@ const data_t* TimeSeries::getKeoghUpper(int warpingBand) const
 
 void TimeSeries::generateKeoghLU(int warpingBand) const
 {
+  keoghCacheValid = false;
   delete[] keoghLower;
   keoghLower = nullptr;
   delete[] keoghUpper;
-- 
2.43.0


From e668ad3d149fa9546d34e5c26638be40fe67c672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:17 +0000
Subject: [PATCH 22/32] fix: queries without enough matches crash or return
 made up results

A query longer than the dataset indexed beyond the group spaces, a query
nothing can be matched with dereferenced a null pointer, and fewer than k
matches were filled up with empty time series at distance zero.
---
 genex/GroupableTimeSeriesSet.cpp |  7 ++++++-
 genex/group/GlobalGroupSpace.cpp | 11 +++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index fa03367..8116777 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -163,13 +163,18 @@ GroupableTimeSeriesSet::getKBestMatches(const TimeSeries& query, int k, int h)
 {
   if (this->groupsAllLengthSet) //not nullptr
   {
+    if (k <= 0) {
+      throw GenexException("K must be positive");
+    }
     if (h < k) {
       throw GenexException("Number of examined time series must be larger than "
                            "or equal to the number of time series to look for");
     }
     auto results = this->groupsAllLengthSet->getKBestMatches(query, h);
     std::sort(results.begin(), results.end());
-    results.resize(k);
+    if (results.size() > k) {
+      results.resize(k);
+    }
     return results;
   }
   throw GenexException("Dataset is not grouped");
diff --git a/genex/group/GlobalGroupSpace.cpp b/genex/group/GlobalGroupSpace.cpp
index 681fac9..350fa9c 100644
--- a/genex/group/GlobalGroupSpace.cpp
+++ b/genex/group/GlobalGroupSpace.cpp
@@ -166,6 +166,9 @@ GlobalGroupSpace::getBestMatch(const TimeSeries& query)
       }
     }
   }
+  if (bestSoFarGroup == nullptr) {
+    throw GenexException("No time series can be matched with the query");
+  }
   return bestSoFarGroup->getBestMatch(query, this->warpedDistance);
 }
 
@@ -268,7 +271,9 @@ vector<int> generateTraverseOrder(int queryLength, int totalLength)
   int high = queryLength + 1;
   bool lowStop = false, highStop = false;
 
-  order.push_back(queryLength);
+  if (queryLength <= totalLength) {
+    order.push_back(queryLength);
+  }
   while (!(lowStop && highStop)) {
     if (low < 2) lowStop = true;
     if (high > totalLength) highStop = true;
@@ -277,7 +282,9 @@ vector<int> generateTraverseOrder(int queryLength, int totalLength)
       // queryLength is always larger than low
       int r = calculateWarpingBandSize(queryLength);
       if (low + r >= queryLength) {
-        order.push_back(low);
+        if (low <= totalLength) {
+          order.push_back(low);
+        }
         low--;
       }
       else {
-- 
2.43.0


From 1d0d890aab655fd98a0878416bcf124bc10dedcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:17 +0000
Subject: [PATCH 23/32] fix: getTimeSeriesLength does not check the index

---
 genex/GenexAPI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genex/GenexAPI.cpp b/genex/GenexAPI.cpp
index 6f28f8d..339713d 100644
--- a/genex/GenexAPI.cpp
+++ b/genex/GenexAPI.cpp
@@ -104,7 +104,7 @@ string GenexAPI::getTimeSeriesName(const string& name, int index)
 int GenexAPI::getTimeSeriesLength(const string& name, int index)
 {
   this->_checkDatasetName(name);
-  return this->_loadedDatasets[name]->getItemLength(index);
+  return this->_loadedDatasets[name]->getTimeSeries(index).getLength();
 }
 
 dataset_metadata_t GenexAPI::getDatasetInfo(const string& name)
-- 
2.43.0


From 87d24ff854cecdfc9f103ae605dccecfba908c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:17 +0000
Subject: [PATCH 24/32] fix: data races between independent sessions

The map of distances was filled on first use without synchronisation, and
a counter shared by all sessions was incremented non-atomically.
---
 genex/TimeSeries.cpp        |  2 +-
 genex/TimeSeries.hpp        |  3 ++-
 genex/distance/Distance.cpp | 15 ++++++++++-----
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/genex/TimeSeries.cpp b/genex/TimeSeries.cpp
index fec6713..19a318e 100755
--- a/genex/TimeSeries.cpp
+++ b/genex/TimeSeries.cpp
@@ -11,7 +11,7 @@
 #include <cstring>
 
 // EXPERIMENT
-int extraTimeSeries = 0;
+std::atomic<int> extraTimeSeries(0);
 
 namespace genex {
 
diff --git a/genex/TimeSeries.hpp b/genex/TimeSeries.hpp
index 542f161..383ff4a 100644
--- a/genex/TimeSeries.hpp
+++ b/genex/TimeSeries.hpp
@@ -1,6 +1,7 @@
 #ifndef TIMESERIES_H
 #define TIMESERIES_H
 
+#include <atomic>
 #include <cmath>
 #include <cstring>
 #include <iostream>
@@ -13,7 +14,7 @@
 #define EPS 1e-9
 
 // EXPERIMENT
-extern int extraTimeSeries;
+extern std::atomic<int> extraTimeSeries;
 
 namespace genex {
 
diff --git a/genex/distance/Distance.cpp b/genex/distance/Distance.cpp
index d977e4d..a5aefb0 100644
--- a/genex/distance/Distance.cpp
+++ b/genex/distance/Distance.cpp
@@ -1,4 +1,5 @@
 #include <map>
+#include <mutex>
 #include <vector>
 #include <iostream>
 #include <algorithm>
@@ -56,23 +57,27 @@ static std::map<string, dist_t> gAllDistanceMap;
 
 void _initializeAllDistanceMap()
 {
-  if (gAllDistanceMap.empty())
+  static std::once_flag initialized;
+  std::call_once(initialized, []
   {
+    decltype(gAllDistanceMap) allDistanceMap;
     for (auto i = 0; i < gAllDistance.size(); i++)
     {
-      gAllDistanceMap[gAllDistanceName[i]] = gAllDistance[i];
+      allDistanceMap[gAllDistanceName[i]] = gAllDistance[i];
     }
-  }
+    gAllDistanceMap.swap(allDistanceMap);
+  });
 }
 
 const dist_t getDistanceFromName(const string& distance_name)
 {
   _initializeAllDistanceMap();
-  if (gAllDistanceMap.find(distance_name) == gAllDistanceMap.end())
+  auto found = gAllDistanceMap.find(distance_name);
+  if (found == gAllDistanceMap.end())
   {
     throw GenexException(string("Cannot find distance with name: ") + distance_name);
   }
-  return gAllDistanceMap[distance_name];
+  return found->second;
 }
 
 const vector<string>& getAllDistanceName()
-- 
2.43.0


From bee7c0bca117a8c58e7a9b33df3a6fd523dddfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:19 +0000
Subject: [PATCH 25/32] fix: normalizing a dataset keeps groups and PAA data of
 the former values

Groups of the former values do not respect the threshold any more and
search with outdated envelopes. The dataset has to be grouped again.
---
 genex/GenexAPI.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/genex/GenexAPI.cpp b/genex/GenexAPI.cpp
index 339713d..ccb346c 100644
--- a/genex/GenexAPI.cpp
+++ b/genex/GenexAPI.cpp
@@ -152,7 +152,16 @@ TimeSeries GenexAPI::getTimeSeries(const string& name, int idx, int start, int e
 std::pair<data_t, data_t> GenexAPI::normalizeDataset(const string& name)
 {
   this->_checkDatasetName(name);
-  return this->_loadedDatasets[name]->normalize();
+  auto minAndMax = this->_loadedDatasets[name]->normalize();
+  // Groups and PAA data were made from the former values
+  this->_loadedDatasets[name]->reset();
+  auto paaWrapper = this->_paaWrappers.find(name);
+  if (paaWrapper != this->_paaWrappers.end())
+  {
+    delete paaWrapper->second;
+    this->_paaWrappers.erase(paaWrapper);
+  }
+  return minAndMax;
 }
 
 int GenexAPI::groupDataset(
-- 
2.43.0


From 772a64054b60c57f9edae437958b02e2cc310875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:39 +0000
Subject: [PATCH 26/32] fix: different parts of one time series compare equal

---
 genex/TimeSeries.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genex/TimeSeries.cpp b/genex/TimeSeries.cpp
index 19a318e..58b5160 100755
--- a/genex/TimeSeries.cpp
+++ b/genex/TimeSeries.cpp
@@ -151,7 +151,7 @@ TimeSeries& TimeSeries::operator+=(const TimeSeries& other)
 
 bool TimeSeries::operator==(const TimeSeries& other) const
 {
-  if (this->data == other.data) {
+  if (this->data == other.data && this->start == other.start && this->length == other.length) {
     return true;
   }
   else if (this->data == nullptr || other.data == nullptr) {
-- 
2.43.0


From b2ceae1a9a89dd69e72db2f0077750ee9b43d15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:39 +0000
Subject: [PATCH 27/32] fix: command line dies when a line cannot be copied and
 ignores arguments of ksim

A failed allocation of the line was not caught, lines from readline were
given back with delete instead of free, and ksim ignored start and end
when ke was given as well.
---
 cli/GenexCLI.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cli/GenexCLI.cpp b/cli/GenexCLI.cpp
index b018cd0..7191cac 100644
--- a/cli/GenexCLI.cpp
+++ b/cli/GenexCLI.cpp
@@ -1,4 +1,5 @@
 #include <chrono>
+#include <cstdlib>
 #include <cstring>
 #include <iostream>
 #include <fstream>
@@ -481,7 +482,7 @@ MAKE_COMMAND(KSim,
     {
       ke = stoi(args[5]);
     }
-    else if (args.size() == 7)
+    else if (args.size() >= 7)
     {
       start = stoi(args[5]);
       end = stoi(args[6]);
@@ -792,7 +793,7 @@ bool wantToQuitByEOF()
   char* raw_line = nullptr;
   do
   {
-    delete raw_line;
+    free(raw_line);
     raw_line = readline("Do you really want to exit ([y]/n)? ");
     if (raw_line == nullptr || strcmp(raw_line, "y") == 0 || strcmp(raw_line, "") == 0)
     {
@@ -828,10 +829,9 @@ int main (int argc, char *argv[])
       {
         add_history(raw_line);
       }
-      string line = string(raw_line);
-      delete raw_line;
       try
       {
+        string line = string(raw_line);
         quit = processLine(line);
       }
       catch (genex::GenexException& e)
@@ -846,6 +846,7 @@ int main (int argc, char *argv[])
       {
         cout << "Error! " << ex.what() << endl;
       }
+      free(raw_line);
       cout << endl;
     }
 
-- 
2.43.0


From e06294a7616d80abffec58f04e908ee7eae7b28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:28:53 +0000
Subject: [PATCH 28/32] fix: queries crash when the queue for the envelope
 cannot be allocated

---
 genex/lib/deque.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/genex/lib/deque.cpp b/genex/lib/deque.cpp
index df2117b..4c4b55a 100644
--- a/genex/lib/deque.cpp
+++ b/genex/lib/deque.cpp
@@ -1,5 +1,6 @@
 #include "deque.h"
 #include <stdlib.h>
+#include <new>
 
 /// Initial the queue at the begining step of envelop calculation
 deque::deque(int capacity)
@@ -7,6 +8,8 @@ deque::deque(int capacity)
     this->capacity = capacity;
     size = 0;
     data = (int *) malloc(sizeof(int)*capacity);
+    if (data == nullptr)
+        throw std::bad_alloc();
     f = 0;
     r = capacity-1;
 }
-- 
2.43.0


From 45e14aa184716d3db46e1dba42c19f12d7500fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:55:42 +0000
Subject: [PATCH 29/32] fix: threshold loses digits in the text export of
 groups

---
 genex/GroupableTimeSeriesSet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index 8116777..3504e50 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -1,5 +1,6 @@
 #include <iostream>
 #include <fstream>
+#include <limits>
 #include <memory>
 
 #include "IO.hpp"
@@ -97,6 +98,7 @@ void GroupableTimeSeriesSet::saveGroupsOld(const string& path, bool groupSizeOnl
   if (fout)
   {
     // Version of the file format, the threshold and the required dataset dimensions
+    fout.precision(std::numeric_limits<data_t>::max_digits10);
     fout << GROUP_FILE_VERSION << " "
          << this->getThreshold() << " "
          << this->getItemCount() << " "
-- 
2.43.0


From d4661574409f3125d6532896adff33d7a71108b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:22 +0000
Subject: [PATCH 30/32] fix: ksimBF ignores start and end when given one
 argument too many

---
 cli/GenexCLI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/GenexCLI.cpp b/cli/GenexCLI.cpp
index 7191cac..2a62d43 100644
--- a/cli/GenexCLI.cpp
+++ b/cli/GenexCLI.cpp
@@ -528,7 +528,7 @@ MAKE_COMMAND(KSim,
       
 MAKE_COMMAND(KSimBF,
   {
-    if (tooFewArgs(args, 4) || tooManyArgs(args, 7))
+    if (tooFewArgs(args, 4) || tooManyArgs(args, 6))
     {
       return false;
     }
-- 
2.43.0


From 1f1adb6f9e03899bfd21fe37321c22caa732a9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:52:45 +0000
Subject: [PATCH 31/32] fix: queries with an empty time series crash or report
 made up distances

---
 genex/PAAWrapper.cpp        | 2 +-
 genex/distance/Distance.hpp | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/genex/PAAWrapper.cpp b/genex/PAAWrapper.cpp
index 8ae1e16..cb053f8 100644
--- a/genex/PAAWrapper.cpp
+++ b/genex/PAAWrapper.cpp
@@ -28,7 +28,7 @@ TimeSeries tsPAA(const TimeSeries& source, int blockSize)
   data_t sum = 0;
   int count = 0;
   int srcLength = source.getLength();
-  int destLength = (srcLength - 1) / blockSize + 1;
+  int destLength = (srcLength + blockSize - 1) / blockSize;
   TimeSeries dest(destLength);
   for (int i = 0; i < srcLength; i++)
   {
diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index 28ee50a..72d06ac 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -89,6 +89,10 @@ data_t warpedDistance(
   bool computeMatching = matching.empty(); 
   auto m = a.getLength();
   auto n = b.getLength();
+  if (m == 0 || n == 0)
+  {
+    throw GenexException("Cannot compute the warped distance of an empty time series");
+  }
   auto r = calculateWarpingBandSize(max(m, n));
   
   static DM metricInstance;
-- 
2.43.0


From 5ea0ef7b5b289195bf1398f9f0a2eb0ef9b36090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:25:06 +0000
Subject: [PATCH 32/32] fix: load values that are too close to zero for full
 precision

Normalizing a dataset with values of very different magnitude can give values
below the smallest normal number. saveData writes them, but std::stod reports
them as out of range, so the saved dataset could not be loaded again.
---
 genex/TimeSeriesSet.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index ad12653..5db26ba 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -4,6 +4,8 @@
 #include <string>
 #include <fstream>
 #include <iostream>
+#include <cmath>
+#include <cstdlib>
 #include <cstring>
 #include <boost/tokenizer.hpp>
 
@@ -40,6 +42,24 @@ string TimeSeriesSet::getTimeSeriesName(int index) const
   return std::to_string(index);
 }
 
+data_t _parseValue(const string& text)
+{
+  try
+  {
+    return (data_t)std::stod(text);
+  }
+  catch (const std::out_of_range& e)
+  {
+    // Values too close to zero for full precision can be part of a saved dataset
+    data_t value = std::strtod(text.c_str(), nullptr);
+    if (std::abs(value) < 1)
+    {
+      return value;
+    }
+    throw;
+  }
+}
+
 std::pair<int, int> _getMaxRowsMaxColumns(std::ifstream& f, const string& separators)
 {
   int lineCount = 0;
@@ -126,7 +146,7 @@ void TimeSeriesSet::loadData(const string& filePath
             }
             else {
               int index = row * (rawMaxCol - startCol - hasNameCol) + (col - startCol - hasNameCol);
-              this->data[index] = (data_t)std::stod(*tok_iter);
+              this->data[index] = _parseValue(*tok_iter);
             }
           }
           catch (const std::invalid_argument& e)
-- 
2.43.0

