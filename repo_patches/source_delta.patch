From a3e191d548fbfea642d836ab1b3ff45d52aba1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:15 +0000
Subject: [PATCH 1/4] fix: Reset maximum entity numbers when clearing
 connection list

Connections::clear() left max_i_ and max_j_ from the previous graph in
place, so a second compress() of the same object could be rejected, or
produce too many rows, because of connections that no longer exist.
---
 opm/utility/graph/AssembledConnections.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/utility/graph/AssembledConnections.cpp b/opm/utility/graph/AssembledConnections.cpp
index 6747b21..4c6bbae 100644
--- a/opm/utility/graph/AssembledConnections.cpp
+++ b/opm/utility/graph/AssembledConnections.cpp
@@ -63,6 +63,9 @@ Opm::AssembledConnections::Connections::clear()
     WeightVector().swap(v_);
     EntityVector().swap(j_);
     EntityVector().swap(i_);
+
+    max_i_ = -1;
+    max_j_ = -1;
 }
 
 bool
-- 
2.43.0


From 15048506d492b0b1ae230353e73eacf246133897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:15 +0000
Subject: [PATCH 2/4] fix: Drop weights of previous graph when compressing
 unweighted connections

CSR::create() left sa_ untouched for unweighted connection lists, whence
connectionWeight() returned the weights of an earlier graph.
---
 opm/utility/graph/AssembledConnections.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/utility/graph/AssembledConnections.cpp b/opm/utility/graph/AssembledConnections.cpp
index 4c6bbae..29f511f 100644
--- a/opm/utility/graph/AssembledConnections.cpp
+++ b/opm/utility/graph/AssembledConnections.cpp
@@ -152,6 +152,9 @@ CSR::create(const Connections& conns, const Offset numrows)
     if (conns.isWeighted()) {
         this->accumulateConnWeights(conns.v());
     }
+    else {
+        this->sa_.clear();
+    }
 
     const auto nRows = this->ia().size() - 1;
     if (nRows < numrows) {
-- 
2.43.0


From ecf94a4861762e4204a3405ccaa554a85c90fa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:15 +0000
Subject: [PATCH 3/4] fix: Restore format flags of output stream

setf(oflags) only adds flags, so the stream was left in scientific
notation after writing a graph.
---
 opm/utility/graph/AssembledConnections.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/utility/graph/AssembledConnections.cpp b/opm/utility/graph/AssembledConnections.cpp
index 29f511f..2056797 100644
--- a/opm/utility/graph/AssembledConnections.cpp
+++ b/opm/utility/graph/AssembledConnections.cpp
@@ -487,7 +487,7 @@ Opm::operator<<(std::ostream& os, const Opm::AssembledConnections& ac)
 
     // Restore original stream settings.
     os.precision(oprec);
-    os.setf(oflags);
+    os.flags(oflags);
 
     return os;
 }
-- 
2.43.0


From d728306a2d9896e73573ec9b5784fb09e611b870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:15 +0000
Subject: [PATCH 4/4] fix: Reject negative cell indices in connectivity graph

The range check only looked at the maximum cell index, so a negative
index was accepted although the error message promises otherwise.
---
 opm/flowdiagnostics/ConnectivityGraph.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/opm/flowdiagnostics/ConnectivityGraph.cpp b/opm/flowdiagnostics/ConnectivityGraph.cpp
index 255f23f..77403f5 100644
--- a/opm/flowdiagnostics/ConnectivityGraph.cpp
+++ b/opm/flowdiagnostics/ConnectivityGraph.cpp
@@ -45,9 +45,12 @@ ConnectivityGraph::ConnectivityGraph(const int        num_cells,
     }
 
     if ((! connCells_.empty()) &&
-        (*std::max_element(connCells_.begin(),
-                           connCells_.end())
-         >= num_cells))
+        ((*std::min_element(connCells_.begin(),
+                            connCells_.end())
+          < 0) ||
+         (*std::max_element(connCells_.begin(),
+                            connCells_.end())
+          >= num_cells)))
     {
         throw std::logic_error("Cell indices must be in range");
     }
-- 
2.43.0

