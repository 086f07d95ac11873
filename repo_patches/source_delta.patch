From 3fa85a77354bc038329caa06b4d612a6238f4443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:23 +0000
Subject: [PATCH 1/9] fix: reject negative cell indices in ConnectivityGraph

Only the upper bound was checked, so a negative index was accepted and
later used as an array index when the flow graph is assembled.
---
 opm/flowdiagnostics/ConnectivityGraph.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/opm/flowdiagnostics/ConnectivityGraph.cpp b/opm/flowdiagnostics/ConnectivityGraph.cpp
index 255f23f..74362e3 100644
--- a/opm/flowdiagnostics/ConnectivityGraph.cpp
+++ b/opm/flowdiagnostics/ConnectivityGraph.cpp
@@ -44,12 +44,13 @@ ConnectivityGraph::ConnectivityGraph(const int        num_cells,
         throw std::logic_error("Neighbourship must be N-by-2");
     }
 
-    if ((! connCells_.empty()) &&
-        (*std::max_element(connCells_.begin(),
-                           connCells_.end())
-         >= num_cells))
-    {
-        throw std::logic_error("Cell indices must be in range");
+    if (! connCells_.empty()) {
+        const auto range = std::minmax_element(connCells_.begin(),
+                                               connCells_.end());
+
+        if ((*range.first < 0) || (*range.second >= num_cells)) {
+            throw std::logic_error("Cell indices must be in range");
+        }
     }
 }
 
-- 
2.43.0


From 0b30428eff3668e55f4ecf8471b807b81b6081af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:23 +0000
Subject: [PATCH 2/9] fix: reject well rates in cells outside the grid

assignInflowFlux() accepted any cell index and the diagnostics then
wrote the rate outside the solver's source array.
---
 opm/flowdiagnostics/Toolbox.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/opm/flowdiagnostics/Toolbox.cpp b/opm/flowdiagnostics/Toolbox.cpp
index 8cc2745..cdc5817 100644
--- a/opm/flowdiagnostics/Toolbox.cpp
+++ b/opm/flowdiagnostics/Toolbox.cpp
@@ -113,6 +113,18 @@ Toolbox::Impl::assignConnectionFlux(const ConnectionValues& flux)
 void
 Toolbox::Impl::assignInflowFlux(const std::map<CellSetID, CellSetValues>& inflow_flux)
 {
+    // Check that all rates are specified in existing cells.
+    for (const auto& inflow_set : inflow_flux) {
+        for (const auto& data : inflow_set.second) {
+            if ((data.first < 0) ||
+                (static_cast<std::size_t>(data.first) >= g_.numCells()))
+            {
+                throw std::logic_error("Inflow flux specified in "
+                                       "cell outside the grid");
+            }
+        }
+    }
+
     only_inflow_flux_.clear();
     only_outflow_flux_.clear();
     inj_flux_by_id_.clear();
-- 
2.43.0


From 33ef6a5de6da7b36387b645f78017e4cff50252a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:23 +0000
Subject: [PATCH 3/9] fix: forget extent of connection list when it is cleared

The largest source and sink of an already compressed graph were kept, so
a later, smaller graph on the same object was rejected or got additional
rows.
---
 opm/utility/graph/AssembledConnections.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/utility/graph/AssembledConnections.cpp b/opm/utility/graph/AssembledConnections.cpp
index 6747b21..4c6bbae 100644
--- a/opm/utility/graph/AssembledConnections.cpp
+++ b/opm/utility/graph/AssembledConnections.cpp
@@ -63,6 +63,9 @@ Opm::AssembledConnections::Connections::clear()
     WeightVector().swap(v_);
     EntityVector().swap(j_);
     EntityVector().swap(i_);
+
+    max_i_ = -1;
+    max_j_ = -1;
 }
 
 bool
-- 
2.43.0


From 0559e25676b6030be41cb80002806d851f9d756d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:23 +0000
Subject: [PATCH 4/9] fix: drop connection weights of previous graph

Compressing an unweighted or empty connection list left the weights of
the previously compressed graph in place.
---
 opm/utility/graph/AssembledConnections.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/utility/graph/AssembledConnections.cpp b/opm/utility/graph/AssembledConnections.cpp
index 4c6bbae..29f511f 100644
--- a/opm/utility/graph/AssembledConnections.cpp
+++ b/opm/utility/graph/AssembledConnections.cpp
@@ -152,6 +152,9 @@ CSR::create(const Connections& conns, const Offset numrows)
     if (conns.isWeighted()) {
         this->accumulateConnWeights(conns.v());
     }
+    else {
+        this->sa_.clear();
+    }
 
     const auto nRows = this->ia().size() - 1;
     if (nRows < numrows) {
-- 
2.43.0


From 5f736db548c61adcbcd6c614ac737978b910d3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:23 +0000
Subject: [PATCH 5/9] fix: restore stream format after writing a flow graph

setf() only adds flags, so the stream stayed in scientific mode, and a
stream in fixed mode wrote hexadecimal floating-point numbers that
cannot be read back.
---
 opm/utility/graph/AssembledConnections.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opm/utility/graph/AssembledConnections.cpp b/opm/utility/graph/AssembledConnections.cpp
index 29f511f..9c875a4 100644
--- a/opm/utility/graph/AssembledConnections.cpp
+++ b/opm/utility/graph/AssembledConnections.cpp
@@ -474,7 +474,8 @@ Opm::operator<<(std::ostream& os, const Opm::AssembledConnections& ac)
 {
     // Set output stream format, store original settings.
     const auto oprec = os.precision(16);
-    const auto oflags = os.setf(std::ios_base::scientific);
+    const auto oflags = os.setf(std::ios_base::scientific,
+                                std::ios_base::floatfield);
 
     // Write connections cell-by-cell.
     const int num_cells = ac.numRows();
@@ -487,7 +488,7 @@ Opm::operator<<(std::ostream& os, const Opm::AssembledConnections& ac)
 
     // Restore original stream settings.
     os.precision(oprec);
-    os.setf(oflags);
+    os.flags(oflags);
 
     return os;
 }
-- 
2.43.0


From 45f35c6d5385591900e86f73fcdf54f868210349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:30 +0000
Subject: [PATCH 6/9] fix: keep the flux field consistent if assigning a new
 one fails

Copy assignment of ConnectionValues updates the table sizes before
copying the values.  If that copy ran out of memory the toolbox was left
with sizes not matching the stored values, and a following computation
read outside the table.
---
 opm/flowdiagnostics/Toolbox.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opm/flowdiagnostics/Toolbox.cpp b/opm/flowdiagnostics/Toolbox.cpp
index cdc5817..c9aa766 100644
--- a/opm/flowdiagnostics/Toolbox.cpp
+++ b/opm/flowdiagnostics/Toolbox.cpp
@@ -106,7 +106,11 @@ Toolbox::Impl::assignConnectionFlux(const ConnectionValues& flux)
                                "flux field");
     }
 
-    flux_ = flux;
+    // Copy first so that the current flux field stays intact if there is
+    // not enough memory for the new one.
+    auto new_flux = flux;
+
+    flux_ = std::move(new_flux);
     conn_built_ = false;
 }
 
-- 
2.43.0


From 5439b420468d48aaee4e336a8c9e790a140cf58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:59 +0000
Subject: [PATCH 7/9] fix: report failure to allocate the topological ordering

The graph routines return NULL when they run out of memory, which the
solver passed on to functions that dereference their argument.
---
 opm/flowdiagnostics/TracerTofSolver.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/opm/flowdiagnostics/TracerTofSolver.cpp b/opm/flowdiagnostics/TracerTofSolver.cpp
index e787d7f..0d2c249 100644
--- a/opm/flowdiagnostics/TracerTofSolver.cpp
+++ b/opm/flowdiagnostics/TracerTofSolver.cpp
@@ -213,6 +213,9 @@ namespace FlowDiagnostics
         struct Deleter { void operator()(TarjanSCCResult* x) { destroy_tarjan_sccresult(x); } };
         std::unique_ptr<TarjanSCCResult, Deleter>
             result(tarjan(num_cells, g_.startPointers().data(), g_.neighbourhood().data()));
+        if (!result) {
+            throw std::runtime_error("Failed to compute topological ordering in TracerTofSolver::computeOrdering()");
+        }
 
         // Must reverse ordering, since Tarjan computes reverse ordering.
         const int ok = tarjan_reverse_sccresult(result.get());
@@ -254,9 +257,15 @@ namespace FlowDiagnostics
         {
             struct WorkspaceDeleter { void operator()(TarjanWorkSpace* x) { destroy_tarjan_workspace(x); } };
             std::unique_ptr<TarjanWorkSpace, WorkspaceDeleter> ws(create_tarjan_workspace(num_cells));
+            if (!ws) {
+                throw std::runtime_error("Failed to create work-space in TracerTofSolver::computeLocalOrdering()");
+            }
             result.reset(tarjan_reachable_sccs(num_cells, g_.startPointers().data(), g_.neighbourhood().data(),
                                                startcells.size(), startcells.data(), ws.get()));
         }
+        if (!result) {
+            throw std::runtime_error("Failed to compute topological ordering in TracerTofSolver::computeLocalOrdering()");
+        }
 
         // Must reverse ordering, since Tarjan computes reverse ordering.
         const int ok = tarjan_reverse_sccresult(result.get());
-- 
2.43.0


From dad46dd3ad7b06fe403d1482b12fd38b1fdb75ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:25 +0000
Subject: [PATCH 8/9] fix: do not keep half a connection when memory runs out

A failed addConnection() left the lists of rows, columns and weights with
different lengths, so that the connection list could neither be completed
nor compressed afterwards.
---
 opm/utility/graph/AssembledConnections.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/opm/utility/graph/AssembledConnections.cpp b/opm/utility/graph/AssembledConnections.cpp
index 9c875a4..9e2cb05 100644
--- a/opm/utility/graph/AssembledConnections.cpp
+++ b/opm/utility/graph/AssembledConnections.cpp
@@ -42,7 +42,14 @@ Opm::AssembledConnections::
 Connections::add(const int i, const int j)
 {
     i_.push_back(i);
-    j_.push_back(j);
+
+    try {
+        j_.push_back(j);
+    }
+    catch (...) {
+        i_.pop_back();
+        throw;
+    }
 
     max_i_ = std::max(max_i_, i_.back());
     max_j_ = std::max(max_j_, j_.back());
@@ -52,9 +59,15 @@ void
 Opm::AssembledConnections::
 Connections::add(const int i, const int j, const double v)
 {
-    this->add(i, j);
-
     v_.push_back(v);
+
+    try {
+        this->add(i, j);
+    }
+    catch (...) {
+        v_.pop_back();
+        throw;
+    }
 }
 
 void
-- 
2.43.0


From db344409af0c9782accf750bc98500bd68a207a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:51 +0000
Subject: [PATCH 9/9] fix: keep the current graph when compressing a new one
 fails

Running out of memory in compress() left the previous graph partly
overwritten, with start pointers not matching the list of neighbours.
---
 opm/utility/graph/AssembledConnections.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opm/utility/graph/AssembledConnections.cpp b/opm/utility/graph/AssembledConnections.cpp
index 9e2cb05..fd7f73b 100644
--- a/opm/utility/graph/AssembledConnections.cpp
+++ b/opm/utility/graph/AssembledConnections.cpp
@@ -438,8 +438,12 @@ Opm::AssembledConnections::compress(const std::size_t numRows)
                                "connection list");
     }
 
-    csr_.create(conns_, numRows);
+    // Build new graph separately so that the current graph stays intact if
+    // there is not enough memory for the new one.
+    auto csr = CSR{};
+    csr.create(conns_, numRows);
 
+    csr_ = std::move(csr);
     conns_.clear();
 }
 
-- 
2.43.0

