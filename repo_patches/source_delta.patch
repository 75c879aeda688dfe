From 0b0c5df7152a128a0557c6619c3dd24627ad755c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 01/47] fix: reject a zero random number when drawing the time
 step

With -ffast-math std::isinf() is always false, so a zero random number
gave an infinite time step.
---
 c++/src/simulationtimer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c++/src/simulationtimer.cpp b/c++/src/simulationtimer.cpp
index 0249397..60969cb 100644
--- a/c++/src/simulationtimer.cpp
+++ b/c++/src/simulationtimer.cpp
@@ -28,13 +28,13 @@ SimulationTimer::SimulationTimer() :
 void SimulationTimer::propagateTime(const double total_rate)
 {
     // Propagate the time of the system.
+    // NOTE: Zero must be rejected on the random number itself, since checking
+    //       the time step with std::isinf is optimized away with -ffast-math.
     double rnd;
-    double dt;
     do
     {
         rnd = randomDouble01();
-        dt  = -std::log(rnd)/total_rate;
     }
-    while (std::isinf(dt));
-    simulation_time_ += dt;
+    while (!(rnd > 0.0));
+    simulation_time_ += -std::log(rnd)/total_rate;
 }
-- 
2.43.0


From c91446b12902f4d1379e0766697dc0a980bc2631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:18 +0000
Subject: [PATCH 02/47] fix: never select a process or site with zero
 probability

A random number of exactly zero made the lower bound searches return the
first entry of the tables, also if it was a process with no available sites
or a site with zero rate.
---
 c++/src/interactions.cpp | 19 ++++++-------------
 c++/src/process.cpp      |  5 +++--
 2 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/c++/src/interactions.cpp b/c++/src/interactions.cpp
index 202ea3a..d03109c 100644
--- a/c++/src/interactions.cpp
+++ b/c++/src/interactions.cpp
@@ -25,15 +25,7 @@
 bool pairComp(const std::pair<double,int> & p1,
               const std::pair<double, int> & p2)
 {
-    // This skips all processes with no available sites.
-    if (p2.second == 0)
-    {
-        return false;
-    }
-    else
-    {
-        return (p1.first < p2.first);
-    }
+    return (p1.first < p2.first);
 }
 
 
@@ -239,12 +231,13 @@ int Interactions::pickProcessIndex() const
     const double rnd = randomDouble01() * totalRate();
     const std::pair<double,int> rnd_pair(rnd,1);
 
-    // Find the lower bound - corresponding to the first element for which
-    // the accumulated rate is not smaller than rnd, and the number
-    // of available processes is larger than zero.
+    // Find the upper bound - corresponding to the first element for which
+    // the accumulated rate is larger than rnd. Processes with no available
+    // sites do not increase the accumulated rate and are never selected,
+    // also if the random number is exactly zero.
     const std::vector<std::pair<double, int> >::const_iterator begin = probability_table_.begin();
     const std::vector<std::pair<double, int> >::const_iterator end   = probability_table_.end();
-    const std::vector<std::pair<double, int> >::const_iterator it1   = std::lower_bound( begin,
+    const std::vector<std::pair<double, int> >::const_iterator it1   = std::upper_bound( begin,
                                                                                          end,
                                                                                          rnd_pair,
                                                                                          pairComp );
diff --git a/c++/src/process.cpp b/c++/src/process.cpp
index 1bb9681..06d1e11 100644
--- a/c++/src/process.cpp
+++ b/c++/src/process.cpp
@@ -163,10 +163,11 @@ int Process::pickSite() const
     // Get a random number between 0.0 and the total rate.
     const double rnd = randomDouble01() * total_rate;
 
-    // Pick the site.
+    // Pick the site - the first one for which the accumulated rate is larger
+    // than rnd, such that a site with a zero rate is never selected.
     const std::vector<double>::const_iterator begin = incremental_rate_table_.begin();
     const std::vector<double>::const_iterator end   = incremental_rate_table_.end();
-    const std::vector<double>::const_iterator it1   = std::lower_bound( begin, end, rnd);
+    const std::vector<double>::const_iterator it1   = std::upper_bound( begin, end, rnd);
 
     // Get the site index.
     const int site_index = it1-begin;
-- 
2.43.0


From dd41d1a704f9c4197eb765ec868cea73b8c36078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:19 +0000
Subject: [PATCH 03/47] fix: recalculate the total rate of a process when a
 site is removed

Subtracting the rate of the removed site accumulated rounding errors, leaving
a non-zero rate on processes without any available sites.
---
 c++/src/customrateprocess.cpp | 12 +++++++-----
 c++/src/process.cpp           |  8 +++++++-
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/c++/src/customrateprocess.cpp b/c++/src/customrateprocess.cpp
index f5d2f07..ba77c72 100644
--- a/c++/src/customrateprocess.cpp
+++ b/c++/src/customrateprocess.cpp
@@ -82,8 +82,7 @@ void CustomRateProcess::removeSite(const int index)
     // Swap and remove.
     std::swap((*it2), (*last_rate));
 
-    // Store the value temporarily.
-    const double site_rate = site_rates_.back();
+    // Remove the last rate.
     site_rates_.pop_back();
 
     // Calculate the position in the site_multiplicity_ vector.
@@ -93,11 +92,14 @@ void CustomRateProcess::removeSite(const int index)
     // Swap and remove.
     std::swap((*it3), (*last_multiplicity));
 
-    // Update the total rate.
-    total_rate_ -= site_rate * site_multiplicity_.back();
-
     site_multiplicity_.pop_back();
 
+    // Recalculate the total rate from the sites that are left. Subtracting from
+    // the previous value would accumulate rounding errors over a simulation.
+    total_rate_ = std::inner_product(site_rates_.begin(),
+                                     site_rates_.end(),
+                                     site_multiplicity_.begin(),
+                                     0.0);
 }
 
 
diff --git a/c++/src/process.cpp b/c++/src/process.cpp
index 06d1e11..8941448 100644
--- a/c++/src/process.cpp
+++ b/c++/src/process.cpp
@@ -12,6 +12,7 @@
 
 #include <algorithm>
 #include <cstdio>
+#include <numeric>
 
 #include "process.h"
 #include "random.h"
@@ -130,9 +131,14 @@ void Process::removeSite(const int index)
 
     // Swap and remove.
     std::swap((*it3), (*last_multiplicity));
-    total_rate_ -= site_multiplicity_.back() * rate_;
     site_multiplicity_.pop_back();
 
+    // Recalculate the total rate from the sites that are left. Subtracting from
+    // the previous value would accumulate rounding errors over a simulation.
+    total_rate_ = rate_ * std::accumulate(site_multiplicity_.begin(),
+                                          site_multiplicity_.end(),
+                                          0.0);
+
 }
 
 
-- 
2.43.0


From 8a56c671e79b9d6236fc8b7cf50a958229c04c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:56 +0000
Subject: [PATCH 04/47] fix: reach all sites of a process also from basis sites
 inside the cell

The range in cells was calculated from the offsets alone, so a site at offset
1.5 from a basis site at 0.5 was never found and its process never matched.
Sites within the cutoff of a custom rate were missed the same way.
---
 c++/src/interactions.cpp | 64 ++++++++++++++++++++++++++++++++++++++++
 c++/src/interactions.h   | 10 +++++++
 c++/src/latticemodel.cpp | 10 +++++--
 c++/src/latticemodel.h   |  3 ++
 4 files changed, 84 insertions(+), 3 deletions(-)

diff --git a/c++/src/interactions.cpp b/c++/src/interactions.cpp
index d03109c..e2fca2e 100644
--- a/c++/src/interactions.cpp
+++ b/c++/src/interactions.cpp
@@ -11,6 +11,8 @@
  */
 
 #include <algorithm>
+#include <cmath>
+#include <cstdlib>
 
 #include "interactions.h"
 #include "random.h"
@@ -93,6 +95,68 @@ int Interactions::maxRange() const
 }
 
 
+// -----------------------------------------------------------------------------
+//
+int Interactions::maxRange(const Configuration & configuration,
+                           const LatticeMap & lattice_map) const
+{
+    // The range of the processes does not take into account where in the cell
+    // the basis sites are placed. A site at a fractional offset can be in a cell
+    // further away than the truncated offset.
+    const double eps = 1.0e-5;
+    int max_range = maxRange();
+
+    // The positions of the basis sites.
+    const std::vector<int> basis_indices = lattice_map.indicesFromCell(0, 0, 0);
+    const std::vector<Coordinate> & coordinates = configuration.coordinates();
+
+    for (size_t i = 0; i < process_pointers_.size(); ++i)
+    {
+        const Process & process = (*process_pointers_[i]);
+        const ProcessBucketMatchList & match_list = process.processMatchList();
+
+        for (size_t j = 0; j < process.basisSites().size(); ++j)
+        {
+            // Skip basis sites that are not present on this lattice.
+            const int basis_site = process.basisSites()[j];
+            if (basis_site < 0 || basis_site >= static_cast<int>(basis_indices.size()))
+            {
+                continue;
+            }
+
+            const Coordinate & center = coordinates[basis_indices[basis_site]];
+
+            // All sites in the local geometry should be within range.
+            for (size_t k = 0; k < match_list.size(); ++k)
+            {
+                const Coordinate site = center + match_list[k].coordinate;
+                for (int l = 0; l < 3; ++l)
+                {
+                    const int cell = static_cast<int>(std::floor(site[l] + eps));
+                    max_range = std::max(max_range, std::abs(cell));
+                }
+            }
+
+            // With custom rates also all sites within the cutoff.
+            if (use_custom_rates_)
+            {
+                for (size_t k = 0; k < basis_indices.size(); ++k)
+                {
+                    const Coordinate & other = coordinates[basis_indices[k]];
+                    for (int l = 0; l < 3; ++l)
+                    {
+                        const double reach = process.cutoff() + std::fabs(other[l] - center[l]);
+                        max_range = std::max(max_range, static_cast<int>(reach + eps));
+                    }
+                }
+            }
+        }
+    }
+
+    return max_range;
+}
+
+
 // -----------------------------------------------------------------------------
 //
 void Interactions::updateProcessMatchLists(const Configuration & configuration,
diff --git a/c++/src/interactions.h b/c++/src/interactions.h
index e6bc987..a368032 100644
--- a/c++/src/interactions.h
+++ b/c++/src/interactions.h
@@ -54,6 +54,16 @@ public:
      */
     int maxRange() const;
 
+    /*! \brief Get the max range of all processes on a given lattice, such that
+     *         all sites in the local geometries and within the custom rates
+     *         cutoffs are included also for basis sites away from the cell origin.
+     *  \param configuration : The configuration holding the lattice coordinates.
+     *  \param lattice_map   : The lattice map of the configuration.
+     *  \return : The max range in shells.
+     */
+    int maxRange(const Configuration & configuration,
+                 const LatticeMap & lattice_map) const;
+
     /*! \brief Query for the custom rates flag.
      *  \return : The custom rates flag, (true) if we use custom rates.
      */
diff --git a/c++/src/latticemodel.cpp b/c++/src/latticemodel.cpp
index 2a2e4e2..a299605 100644
--- a/c++/src/latticemodel.cpp
+++ b/c++/src/latticemodel.cpp
@@ -28,7 +28,8 @@ LatticeModel::LatticeModel(Configuration & configuration,
     simulation_timer_(simulation_timer),
     lattice_map_(lattice_map),
     interactions_(interactions),
-    matcher_(configuration.coordinates().size(), interactions.processes().size())
+    matcher_(configuration.coordinates().size(), interactions.processes().size()),
+    range_(1)
 {
     // Setup the mapping between coordinates and processes.
     calculateInitialMatching();
@@ -42,8 +43,11 @@ LatticeModel::LatticeModel(Configuration & configuration,
 //
 void LatticeModel::calculateInitialMatching()
 {
+    // Find out how far the processes reach on this lattice.
+    range_ = interactions_.maxRange(configuration_, lattice_map_);
+
     // Calculate the match lists.
-    configuration_.initMatchLists(lattice_map_, interactions_.maxRange());
+    configuration_.initMatchLists(lattice_map_, range_);
 
     // Update the interactions matchlists.
     interactions_.clearMatching();
@@ -87,7 +91,7 @@ void LatticeModel::singleStep()
 
     // Run the re-matching of the affected sites and their neighbours.
     const std::vector<int> & indices = \
-        lattice_map_.supersetNeighbourIndices(process.affectedIndices(), interactions_.maxRange());
+        lattice_map_.supersetNeighbourIndices(process.affectedIndices(), range_);
 
     matcher_.calculateMatching(interactions_,
                                configuration_,
diff --git a/c++/src/latticemodel.h b/c++/src/latticemodel.h
index f33a0fc..4cf6312 100644
--- a/c++/src/latticemodel.h
+++ b/c++/src/latticemodel.h
@@ -89,6 +89,9 @@ private:
 
     /// The Matcher to use for calculating matches and update the process lists.
     Matcher matcher_;
+
+    /// The range in shells needed to cover all processes on the lattice.
+    int range_;
 };
 
 
-- 
2.43.0


From 3c8b86fd10c240a2b48fc11dda9c1b4fa1b78747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 05/47] fix: check for the end of the match list before reading
 from it

The loops over sites within the custom rate cutoff read past the end of the
list when all sites were inside the cutoff. The same tolerance as for the
matching is used, such that rounding can not leave out a site of the process.
---
 c++/src/hash.cpp    | 2 +-
 c++/src/matcher.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/src/hash.cpp b/c++/src/hash.cpp
index e3a85b7..78fe6e4 100644
--- a/c++/src/hash.cpp
+++ b/c++/src/hash.cpp
@@ -131,7 +131,7 @@ uint64_t hashCustomRateInput(const int index,
 
     // Add the match types of the config match list to the data to hash.
     ConfigBucketMatchList::const_iterator it1 = config_match_list.begin();
-    while ( (*it1).distance <= cutoff && it1 != config_match_list.end())
+    while ( it1 != config_match_list.end() && (*it1).distance <= cutoff + 1.0e-5 )
     {
         for (int i = 0; i < (*it1).match_types.size(); ++i)
         {
diff --git a/c++/src/matcher.cpp b/c++/src/matcher.cpp
index cfb646f..958e6aa 100644
--- a/c++/src/matcher.cpp
+++ b/c++/src/matcher.cpp
@@ -540,7 +540,7 @@ double Matcher::updateSingleRate(const int index,
     const double cutoff = process.cutoff();
     ConfigBucketMatchList::const_iterator it1 = config_match_list.begin();
     int len = 0;
-    while ( (*it1).distance <= cutoff && it1 != config_match_list.end())
+    while ( it1 != config_match_list.end() && (*it1).distance <= cutoff + 1.0e-5 )
     {
         ++it1;
         ++len;
-- 
2.43.0


From d77dd1abe7171e5bc8a5b0f85300271427a7794e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:46 +0000
Subject: [PATCH 06/47] fix: include the geometry in the key of a cached custom
 rate

Sites with the same types but at different positions, on different basis sites
or close to a non-periodic boundary, shared the same cached rate.
---
 c++/src/hash.cpp    | 32 ++++++++++++++++++++++++++++++++
 c++/src/hash.h      | 12 ++++++++++++
 c++/src/matcher.cpp |  6 ++++--
 3 files changed, 48 insertions(+), 2 deletions(-)

diff --git a/c++/src/hash.cpp b/c++/src/hash.cpp
index 78fe6e4..a046bd1 100644
--- a/c++/src/hash.cpp
+++ b/c++/src/hash.cpp
@@ -18,6 +18,7 @@
 #include "matchlist.h"
 #include "externals/md5.h"
 
+#include <cmath>
 #include <cstdio>
 #include <cstring>
 #include <cinttypes>
@@ -143,3 +144,34 @@ uint64_t hashCustomRateInput(const int index,
     // Hash and return.
     return hash64MD5xor(data_to_hash);
 }
+
+
+// -------------------------------------------------------------------------- //
+//
+uint64_t hashCustomRateGeometry(const int index,
+                                const Process & process,
+                                const Configuration & configuration)
+{
+    // Get cutoff distance from the process.
+    const double cutoff = process.cutoff();
+
+    // This is the source of geometry information.
+    const ConfigBucketMatchList & config_match_list  = configuration.configMatchList(index);
+
+    // Collect the relative coordinates of all sites within the cutoff.
+    std::vector<int> data_to_hash;
+    data_to_hash.push_back(process.processNumber());
+
+    ConfigBucketMatchList::const_iterator it1 = config_match_list.begin();
+    while ( it1 != config_match_list.end() && (*it1).distance <= cutoff + 1.0e-5 )
+    {
+        data_to_hash.push_back(static_cast<int>(std::floor((*it1).x * 1.0e4 + 0.5)));
+        data_to_hash.push_back(static_cast<int>(std::floor((*it1).y * 1.0e4 + 0.5)));
+        data_to_hash.push_back(static_cast<int>(std::floor((*it1).z * 1.0e4 + 0.5)));
+        ++it1;
+    }
+
+    // Hash and return.
+    return hash64MD5xor(data_to_hash);
+}
+
diff --git a/c++/src/hash.h b/c++/src/hash.h
index ad0b5da..6f42505 100644
--- a/c++/src/hash.h
+++ b/c++/src/hash.h
@@ -82,6 +82,18 @@ uint64_t hashCustomRateInput(const int index,
                              const Process & process,
                              const Configuration & configurartion);
 
+/*! \brief Function for generating a 64-bit hash from the local geometry
+ *         sent to the custom rate calculator. The geometry can differ between
+ *         basis sites and close to non-periodic boundaries.
+ *  \param index         : The global site index.
+ *  \param process       : The process that takes place.
+ *  \param configuration : The global configuration of the system.
+ *  \returns: 64-bit hash value.
+ */
+uint64_t hashCustomRateGeometry(const int index,
+                                const Process & process,
+                                const Configuration & configurartion);
+
 
 #endif // __HASH__
 
diff --git a/c++/src/matcher.cpp b/c++/src/matcher.cpp
index 958e6aa..b336ce7 100644
--- a/c++/src/matcher.cpp
+++ b/c++/src/matcher.cpp
@@ -107,7 +107,8 @@ void Matcher::calculateMatching(Interactions & interactions,
             // Calculate the key.
             const Process & process = (*interactions.processes()[add_tasks[i].process]);
             const int index   = add_tasks[i].index;
-            const ratekey key = hashCustomRateInput(index, process, configuration);
+            const ratekey key = hashCustomRateInput(index, process, configuration) ^
+                                hashCustomRateGeometry(index, process, configuration);
 
             // Check if the key has a stored value.
             if (rate_table_.stored(key) != -1)
@@ -130,7 +131,8 @@ void Matcher::calculateMatching(Interactions & interactions,
             // Calculate the key.
             const Process & process = (*interactions.processes()[update_tasks[i].process]);
             const int index   = update_tasks[i].index;
-            const ratekey key = hashCustomRateInput(index, process, configuration);
+            const ratekey key = hashCustomRateInput(index, process, configuration) ^
+                                hashCustomRateGeometry(index, process, configuration);
 
             // Check if the key has a stored value.
             if (rate_table_.stored(key) != -1)
-- 
2.43.0


From 69e4c251b76c539dd995a6287903eaaa30ff7047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:46 +0000
Subject: [PATCH 07/47] fix: let a copy of the interactions hold its own
 processes

The copied process pointers still referred to the processes of the original,
so two models set up from the same interactions corrupted each other's
matching.
---
 c++/src/interactions.cpp | 29 +++++++++++++++++++++++++++++
 c++/src/interactions.h   |  6 ++++++
 2 files changed, 35 insertions(+)

diff --git a/c++/src/interactions.cpp b/c++/src/interactions.cpp
index e2fca2e..bbf2d00 100644
--- a/c++/src/interactions.cpp
+++ b/c++/src/interactions.cpp
@@ -77,6 +77,35 @@ Interactions::Interactions(const std::vector<CustomRateProcess> & processes,
 }
 
 
+// -----------------------------------------------------------------------------
+//
+Interactions::Interactions(const Interactions & other) :
+    processes_(other.processes_),
+    custom_rate_processes_(other.custom_rate_processes_),
+    process_pointers_(other.process_pointers_.size(), NULL),
+    probability_table_(other.probability_table_),
+    implicit_wildcards_(other.implicit_wildcards_),
+    use_custom_rates_(other.use_custom_rates_),
+    rate_calculator_placeholder_(RateCalculator()),
+    rate_calculator_(other.use_custom_rates_ ? other.rate_calculator_ : rate_calculator_placeholder_)
+{
+    // Point the process pointers to our own copies of the processes.
+    for (size_t i = 0; i < process_pointers_.size(); ++i)
+    {
+        if (use_custom_rates_)
+        {
+            process_pointers_[i] = &custom_rate_processes_[i];
+        }
+        else
+        {
+            process_pointers_[i] = &processes_[i];
+        }
+    }
+
+    // DONE
+}
+
+
 // -----------------------------------------------------------------------------
 //
 int Interactions::maxRange() const
diff --git a/c++/src/interactions.h b/c++/src/interactions.h
index a368032..413ae1b 100644
--- a/c++/src/interactions.h
+++ b/c++/src/interactions.h
@@ -49,6 +49,12 @@ public:
                  const bool implicit_wildcards,
                  const RateCalculator & rate_calculator);
 
+    /*! \brief Copy constructor. The copy holds its own processes, such that
+     *         matching one copy does not affect the other.
+     *  \param other : The interactions object to copy.
+     */
+    Interactions(const Interactions & other);
+
     /*! \brief Get the max range of all processes.
      *  \return : The max range in shells.
      */
-- 
2.43.0


From 192a1b4a243f8f102517c9ceccf584a0f2684902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:41 +0000
Subject: [PATCH 08/47] fix: set the size of the shared cell indices before
 writing to it

Constructing a lattice map with fewer basis points made other lattice maps
write and read past the end of the shared data.
---
 c++/src/latticemap.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c++/src/latticemap.cpp b/c++/src/latticemap.cpp
index 65d9abd..cd9228a 100644
--- a/c++/src/latticemap.cpp
+++ b/c++/src/latticemap.cpp
@@ -199,6 +199,10 @@ const std::vector<int> & LatticeMap::indicesFromCell(const int i,
     const int tmp2 = tmp1 * repetitions_[2] + k;
     const int tmp3 = tmp2 * n_basis_;
 
+    // The temporary data is shared between all lattice maps and needs to have
+    // the right size for this one.
+    tmp_cell_indices__.resize(n_basis_);
+
     for (int l = 0; l < n_basis_; ++l)
     {
         tmp_cell_indices__[l] = tmp3 + l;
-- 
2.43.0


From 60c767cb863c9f481f385f3fcf042ee428280cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:41 +0000
Subject: [PATCH 09/47] fix: handle sites without any particles

Reading the first element of an empty bucket site crashed on construction and
read destroyed data when a process emptied a site.
---
 c++/src/configuration.cpp | 12 +++++++++---
 c++/src/matcher.cpp       |  2 +-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/c++/src/configuration.cpp b/c++/src/configuration.cpp
index d9bdfda..bce2b40 100644
--- a/c++/src/configuration.cpp
+++ b/c++/src/configuration.cpp
@@ -23,6 +23,12 @@
 // Temporary data for the match list return.
 static ConfigBucketMatchList tmp_match_list__(0);
 
+// Get the first element at a site, or an empty string if the site is empty.
+static std::string firstElement(const std::vector<std::string> & elements)
+{
+    return elements.empty() ? std::string() : elements[0];
+}
+
 
 // -----------------------------------------------------------------------------
 //
@@ -53,7 +59,7 @@ Configuration::Configuration(const std::vector<std::vector<double> >  & coordina
         atom_id_.push_back(i);
 
         // FIXME
-        atom_id_elements_[i] = elements_[i][0];
+        atom_id_elements_[i] = firstElement(elements_[i]);
     }
 
     // Set the atom id coordinates to the same as the coordinates to start with.
@@ -347,7 +353,7 @@ void Configuration::performBucketProcess(Process & process,
                 //            Now we only take the first occuring type at the site.
                 //            This is expected behavior but incorrect in general and
                 //            works only for one atom per site simulations.
-                atom_id_elements_[atom_id] = elements_[index][0];
+                atom_id_elements_[atom_id] = firstElement(elements_[index]);
             }
 
             // Mark this index as affected.
@@ -397,7 +403,7 @@ void Configuration::performBucketProcess(Process & process,
         // ML: FIXME: This behavior should be deprecated.
         // See above comment.
         // Update the element type of this atom ID.
-        atom_id_elements_[id] = elements_[index][0];
+        atom_id_elements_[id] = firstElement(elements_[index]);
 
     }
 }
diff --git a/c++/src/matcher.cpp b/c++/src/matcher.cpp
index b336ce7..8591463 100644
--- a/c++/src/matcher.cpp
+++ b/c++/src/matcher.cpp
@@ -566,7 +566,7 @@ double Matcher::updateSingleRate(const int index,
         numpy_geo[3*i+2] = coord.z();
 
         const int idx   = config_match_list[i].index;
-        types_before[i] = elements[idx][0];
+        types_before[i] = elements[idx].empty() ? std::string() : elements[idx][0];
         occupations[i]  = types[idx];
     }
 
-- 
2.43.0


From 0a7f49e0a331d8c79950abbd2c73c8f465279268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:53 +0000
Subject: [PATCH 10/47] fix: set up interactions anew for each configuration
 they are used with

The backend of the first configuration was used also for other configurations,
with its type numbering, number of basis points and rate calculator, such that
a process matched and wrote the wrong types in the second model.
---
 .../KMCLib/CoreComponents/KMCInteractions.py  | 31 +++++++++++++------
 .../CoreComponents/KMCLocalConfiguration.py   |  4 ++-
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCInteractions.py b/python/src/KMCLib/CoreComponents/KMCInteractions.py
index 6479c88..8a23ec8 100644
--- a/python/src/KMCLib/CoreComponents/KMCInteractions.py
+++ b/python/src/KMCLib/CoreComponents/KMCInteractions.py
@@ -55,8 +55,8 @@ class KMCInteractions(object):
             raise Error("The 'implicit_wildcard' flag to the KMCInteractions constructor must be given as either True or False")
         self.__implicit_wildcards = implicit_wildcards
 
-        # Set the backend to be generated at first query.
-        self.__backend = None
+        # Set the backends to be generated at first query.
+        self.__backends = []
 
         # Set the rate calculator.
         self.__rate_calculator = None
@@ -156,7 +156,13 @@ be a class (not instantiated) inheriting from the KMCRateCalculatorPlugin. """
 
         :returns: The interactions object in C++
         """
-        if self.__backend is None:
+        # Look for a backend already generated for this configuration.
+        backend = None
+        for (types, size, config, stored_backend, stored_calculator) in self.__backends:
+            if types == dict(possible_types) and size == n_basis and config is configuration:
+                backend = stored_backend
+
+        if backend is None:
 
             # Check the possible_types against the types in the processes.
             for process_number, process in enumerate(self.__processes):
@@ -193,6 +199,9 @@ the KMCRateCalculatorPlugin class itself. """
                 # Generate the process vector.
                 cpp_processes = Backend.StdVectorCustomRateProcess()
             else:
+                # No rate calculator in use.
+                self.__rate_calculator = None
+
                 # Generate the process vector.
                 cpp_processes = Backend.StdVectorProcess()
 
@@ -262,15 +271,19 @@ the KMCRateCalculatorPlugin class itself. """
 
             # Construct the C++ interactions object.
             if self.__rate_calculator is not None:
-                self.__backend = Backend.Interactions(cpp_processes,
-                                                      self.__implicit_wildcards,
-                                                      self.__rate_calculator)
+                backend = Backend.Interactions(cpp_processes,
+                                               self.__implicit_wildcards,
+                                               self.__rate_calculator)
             else:
-                self.__backend = Backend.Interactions(cpp_processes,
-                                                      self.__implicit_wildcards)
+                backend = Backend.Interactions(cpp_processes,
+                                               self.__implicit_wildcards)
+
+            # Store the backend, together with the rate calculator it refers to.
+            self.__backends.append((dict(possible_types), n_basis, configuration,
+                                    backend, self.__rate_calculator))
 
         # Return the stored backend.
-        return self.__backend
+        return backend
 
     def _script(self, variable_name="interactions"):
         """
diff --git a/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py b/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py
index c138598..93a0be3 100644
--- a/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py
@@ -76,6 +76,7 @@ class KMCLocalConfiguration(object):
 
         # Set the backend to None, to generate it at first query.
         self.__backend = None
+        self.__backend_types = None
 
     def coordinates(self):
         """
@@ -102,7 +103,7 @@ class KMCLocalConfiguration(object):
 
         :returns: The interactions object in C++
         """
-        if self.__backend is None:
+        if self.__backend is None or self.__backend_types != dict(possible_types):
 
             # Construct the c++ backend object.
             cpp_types = bucketListToStdVectorStdVectorString(self.__types)
@@ -114,6 +115,7 @@ class KMCLocalConfiguration(object):
             self.__backend = Backend.Configuration(cpp_coords,
                                                    cpp_types,
                                                    cpp_possible_types)
+            self.__backend_types = dict(possible_types)
 
         # Return the backend.
         return self.__backend
-- 
2.43.0


From 2017644f0c9abe3c71dad16f8bc5d28022d3fd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 11/47] fix: move atoms also when their site keeps its type

In a concerted move an atom can be replaced by another one of the same type.
Its id was moved to the new site but its coordinate was left behind.
---
 c++/src/configuration.cpp | 14 ++++++++++++++
 c++/src/matchlistentry.h  |  1 +
 2 files changed, 15 insertions(+)

diff --git a/c++/src/configuration.cpp b/c++/src/configuration.cpp
index bce2b40..97639bb 100644
--- a/c++/src/configuration.cpp
+++ b/c++/src/configuration.cpp
@@ -369,6 +369,20 @@ void Configuration::performBucketProcess(Process & process,
             (*it5) = (*it1).move_coordinate;
             ++it5;
         }
+        // A moved atom that is replaced by another one of the same type does not
+        // change the types at its site, but should still follow its move vector.
+        else if (sum == 0 && (*it1).has_move_coordinate)
+        {
+            const int atom_id = atom_id_[index];
+            atom_id_coordinates_[atom_id] += (*it1).move_coordinate;
+
+            (*it4) = atom_id;
+            ++it4;
+            ++n_moved_;
+
+            (*it5) = (*it1).move_coordinate;
+            ++it5;
+        }
     }
 
     // Perform the moves on all involved atom-IDs.
diff --git a/c++/src/matchlistentry.h b/c++/src/matchlistentry.h
index 807f4f3..8f32e61 100644
--- a/c++/src/matchlistentry.h
+++ b/c++/src/matchlistentry.h
@@ -145,6 +145,7 @@ public:
      */
     void initWildcard(const ConfigBucketMatchListEntry & c)
     {
+        has_move_coordinate = false;
         index = -1;
         distance = c.distance;
         coordinate = Coordinate(c.x, c.y, c.z);
-- 
2.43.0


From d066f6ff6cead884cdd572b560995c1a5fab4a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 12/47] fix: write the lattice trajectory also for a single
 site

Looking at the type of the first site of all but the last failed with an
IndexError when the lattice has only one site.
---
 python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py b/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py
index 6614879..5fb8f09 100644
--- a/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py
+++ b/python/src/KMCLib/Utilities/Trajectory/LatticeTrajectory.py
@@ -153,7 +153,7 @@ class LatticeTrajectory(Trajectory):
                     indent = " "*14
                     row_length = len(types_str)
 
-                    if isinstance(types[:-1][0], str):
+                    if isinstance(types[0], str):
                         for t in types[:-1]:
                             row_length += len(t) + 2
                             types_str += "\"" + t + "\"" + ","
-- 
2.43.0


From 77026cc11ce1f9e0421c7b2db31bdad698774fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 13/47] fix: call the setup function of the breakers before the
 KMC loop

The breaker plugin interface documents a setup call that was never made.
---
 python/src/KMCLib/CoreComponents/KMCLatticeModel.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
index 2a68eee..8d38d12 100644
--- a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
+++ b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
@@ -195,6 +195,12 @@ must be given as string."""
                      self.__cpp_timer.simulationTime(),
                      self.__configuration);
 
+        # Setup the breaker objects.
+        for b in breakers:
+            b.setup(0,
+                    self.__cpp_timer.simulationTime(),
+                    self.__configuration)
+
         # Get the needed parameters.
         n_steps   = control_parameters.numberOfSteps()
         n_dump    = control_parameters.dumpInterval()
-- 
2.43.0


From 9940df1fbbc22caa5f86e73eb3e7a5bf8e78ba0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 14/47] fix: reject zero dump and analysis intervals

They were accepted and stopped the simulation with a ZeroDivisionError after
the first step.
---
 python/src/KMCLib/CoreComponents/KMCControlParameters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/src/KMCLib/CoreComponents/KMCControlParameters.py b/python/src/KMCLib/CoreComponents/KMCControlParameters.py
index 0ca0e30..4078219 100644
--- a/python/src/KMCLib/CoreComponents/KMCControlParameters.py
+++ b/python/src/KMCLib/CoreComponents/KMCControlParameters.py
@@ -87,6 +87,10 @@ class KMCControlParameters(object):
                                                         1,
                                                         "analysis_interval")
 
+        # An interval of zero steps has no meaning.
+        if self.__dump_interval == 0 or self.__analysis_interval == 0:
+            raise Error("The 'dump_interval' and 'analysis_interval' parameters must be greater than zero.")
+
         self.__time_seed = (seed is None)
         self.__seed = checkPositiveInteger(seed,
                                            1,
-- 
2.43.0


From ec2df7d418ee46ddd4fcbe69b38bad7aea97fd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 15/47] fix: check the bucket types and bucket process input

Updates with unknown types or of the wrong length, and types lists not
matching the lattice, crashed the backend. Removing more particles than
matched gave negative occupations.
---
 .../KMCLib/CoreComponents/KMCBucketProcess.py | 26 ++++++++++++++++++-
 .../KMCLib/CoreComponents/KMCConfiguration.py | 11 +++++++-
 python/src/KMCLib/Utilities/CheckUtilities.py |  2 +-
 3 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCBucketProcess.py b/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
index 31911d5..2a046a6 100644
--- a/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
@@ -51,8 +51,14 @@ class KMCBucketProcess(KMCBaseProcess):
         super(KMCBucketProcess, self).__init__(coordinates, basis_sites, rate_constant)
 
         # Check the minimum match.
+        if not isinstance(minimum_match, (list, tuple)):
+            raise Error("The 'minimum_match' input to the KMCBucketProcess constructor must be given as a list.")
+
         self.__minimum_match = [checkAndNormaliseBucketEntry(m) for m in minimum_match]
 
+        if any([n < 0 for entry in self.__minimum_match for (n, t) in entry]):
+            raise Error("The occupations in the 'minimum_match' input to the KMCBucketProcess constructor can not be negative.")
+
         if not len(self.__minimum_match) == len(coordinates):
             raise Error("The types 'match' information to a KMCBucketProcess constructor must be of the same length as the coordinates.")
 
@@ -74,6 +80,11 @@ class KMCBucketProcess(KMCBaseProcess):
                     elif isinstance(ee, tuple):
                         all_types.append(ee[1])
 
+        # The types in the update must be known too.
+        for entry in self.__update:
+            for (n, t) in entry:
+                all_types.append(t)
+
         # Remove doublets and store on the class.
         self._all_present_types = list(set(all_types))
 
@@ -96,7 +107,20 @@ class KMCBucketProcess(KMCBaseProcess):
         :param update_info: The update information to check.
         :returns: The checked update information.
         """
-        # FIXME
+        # Check the length.
+        if not isinstance(update_info, (list, tuple)) or len(update_info) != len(self.__minimum_match):
+            raise Error("The 'update' information to a KMCBucketProcess constructor must be a list of the same length as the coordinates.")
+
+        # Check the format of each entry.
+        update_info = [checkAndNormaliseBucketEntry(u) for u in update_info]
+
+        # Check that particles are only removed if they are guaranteed to be present.
+        for match, update in zip(self.__minimum_match, update_info):
+            present = dict([(t, n) for (n, t) in match])
+            for (n, t) in update:
+                if n < 0 and (t == "*" or present.get(t, 0) + n < 0):
+                    raise Error("The 'update' information to a KMCBucketProcess constructor removes particles not included in the 'minimum_match'.")
+
         return update_info
 
     def _update(self):
diff --git a/python/src/KMCLib/CoreComponents/KMCConfiguration.py b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
index 5dce0ce..af410d4 100644
--- a/python/src/KMCLib/CoreComponents/KMCConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
@@ -213,7 +213,16 @@ class KMCConfiguration(object):
         # "A" - single particle
         # (N,"A") - numbered single particle
         # ["A", (N1,"B")] - a list with a combination of the other two.
-        return [checkAndNormaliseBucketEntry(t) for t in types]
+        types_to_set = [checkAndNormaliseBucketEntry(t) for t in types]
+
+        # Check the length and the occupations.
+        if len(types_to_set) != self.__n_lattice_sites:
+            raise Error("The length of the 'types' parameter must match the number of lattice sites.")
+
+        if any([n < 0 for entry in types_to_set for (n, t) in entry]):
+            raise Error("The occupations given in the 'types' parameter can not be negative.")
+
+        return types_to_set
 
     def types(self):
         """
diff --git a/python/src/KMCLib/Utilities/CheckUtilities.py b/python/src/KMCLib/Utilities/CheckUtilities.py
index d471083..ca40d47 100644
--- a/python/src/KMCLib/Utilities/CheckUtilities.py
+++ b/python/src/KMCLib/Utilities/CheckUtilities.py
@@ -305,7 +305,7 @@ def checkAndNormaliseBucketEntry(t):
             if isinstance(tt, str):
                 normalised_type.append((1,tt))
             elif isinstance(tt, tuple):
-                if not len(tt) == 2 and isinstance(tt[0], int) and isinstance(tt[1], str):
+                if not len(tt) == 2 or not isinstance(tt[0], int) or not isinstance(tt[1], str):
                     raise Error("Bucket type given as a tuple must be of format (int, str).")
                 normalised_type.append(tt)
             else:
-- 
2.43.0


From 683520e09a6a7a472d8e51e3da4cc0a13b9476d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:25 +0000
Subject: [PATCH 16/47] fix: write the numbers in scripts with enough digits to
 read them back

Seven digits are not always enough: a move vector written with a third of a
cell vector did not match the coordinates of its process when read back.
---
 .../CoreComponents/KMCLocalConfiguration.py       | 11 ++++++-----
 python/src/KMCLib/CoreComponents/KMCProcess.py    | 15 ++++++++-------
 python/src/KMCLib/CoreComponents/KMCUnitCell.py   | 15 ++++++++-------
 .../src/KMCLib/Utilities/ConversionUtilities.py   | 15 +++++++++++++++
 4 files changed, 37 insertions(+), 19 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py b/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py
index 93a0be3..1464cbc 100644
--- a/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py
@@ -18,6 +18,7 @@ from KMCLib.Utilities.ConversionUtilities import stringListToStdVectorStdVectorS
 from KMCLib.Utilities.CoordinateUtilities import centerCoordinates
 from KMCLib.Utilities.ConversionUtilities import numpy2DArrayToStdVectorStdVectorDouble
 from KMCLib.Utilities.ConversionUtilities import bucketListToStdVectorStdVectorString
+from KMCLib.Utilities.ConversionUtilities import floatToScriptString
 from KMCLib.Exceptions.Error import Error
 from KMCLib.Backend import Backend
 
@@ -131,8 +132,8 @@ class KMCLocalConfiguration(object):
 
         :returns: A script that can generate this local configuration.
         """
-        # Define the float format string.
-        ff = "%15.6e"
+        # Floats are converted to strings separately.
+        ff = "%s"
 
         # Add the coordinates.
         varname = "coordinates"
@@ -146,12 +147,12 @@ class KMCLocalConfiguration(object):
         # For the first coordinate, if there are more than one coordinate.
         if len(self.__coordinates) > 1:
             c = self.__coordinates[0]
-            coords_string += coord_template%(c[0],c[1],c[2])
+            coords_string += coord_template%tuple([floatToScriptString(x) for x in c])
 
             # And the middle coordinates.
             coord_template = indent + "[" + ff + "," + ff + "," + ff + "],\n"
             for c in self.__coordinates[1:-1]:
-                coords_string += coord_template%(c[0],c[1],c[2])
+                coords_string += coord_template%tuple([floatToScriptString(x) for x in c])
 
         # Add the last coordinate (which is also the first if there is only one coordinate).
         c = self.__coordinates[-1]
@@ -159,7 +160,7 @@ class KMCLocalConfiguration(object):
             coord_template = "[" + ff + "," + ff + "," + ff + "]]\n"
         else:
             coord_template = indent + "[" + ff + "," + ff + "," + ff + "]]\n"
-        coords_string += coord_template%(c[0],c[1],c[2])
+        coords_string += coord_template%tuple([floatToScriptString(x) for x in c])
 
         # Types
         types_string  = "types = " + str(self.__types) + "\n"
diff --git a/python/src/KMCLib/CoreComponents/KMCProcess.py b/python/src/KMCLib/CoreComponents/KMCProcess.py
index ea8b8e8..4c9ee4e 100644
--- a/python/src/KMCLib/CoreComponents/KMCProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCProcess.py
@@ -15,6 +15,7 @@ from KMCLib.Utilities.CheckUtilities import checkSequence
 from KMCLib.Utilities.CheckUtilities import checkSequenceOfFloats
 from KMCLib.Utilities.CheckUtilities import checkSequenceOfPositiveIntegers
 from KMCLib.Utilities.CheckUtilities import checkPositiveFloat
+from KMCLib.Utilities.ConversionUtilities import floatToScriptString
 from KMCLib.CoreComponents.KMCLocalConfiguration import KMCLocalConfiguration
 from KMCLib.CoreComponents.KMCBaseProcess import KMCBaseProcess
 from KMCLib.Exceptions.Error import Error
@@ -367,8 +368,8 @@ coordinates defining where the moved index goes."""
 
         :returns: A script that can generate this process object.
         """
-        # Define the float format string.
-        ff = "%15.6e"
+        # Floats are converted to strings separately.
+        ff = "%s"
 
         # Setup the coordinates string.
         varname = "coordinates"
@@ -381,12 +382,12 @@ coordinates defining where the moved index goes."""
         # For the first coordinate, if there are more than one coordinate.
         if len(self._coordinates) > 1:
             c = self._coordinates[0]
-            coords_string += coord_template%(c[0],c[1],c[2])
+            coords_string += coord_template%tuple([floatToScriptString(x) for x in c])
 
             # And the middle coordinates.
             coord_template = indent + "[" + ff + "," + ff + "," + ff + "],\n"
             for c in self._coordinates[1:-1]:
-                coords_string += coord_template%(c[0],c[1],c[2])
+                coords_string += coord_template%tuple([floatToScriptString(x) for x in c])
 
         # Add the last coordinate (which is also the first if there is only one coordinate).
         c = self._coordinates[-1]
@@ -394,7 +395,7 @@ coordinates defining where the moved index goes."""
             coord_template = "[" + ff + "," + ff + "," + ff + "]]\n"
         else:
             coord_template = indent + "[" + ff + "," + ff + "," + ff + "]]\n"
-        coords_string += coord_template%(c[0],c[1],c[2])
+        coords_string += coord_template%tuple([floatToScriptString(x) for x in c])
 
         # Setup the elements before string.
         elements_before_string = "elements_before = "
@@ -449,7 +450,7 @@ coordinates defining where the moved index goes."""
             vector_template = "[" + ff + "," + ff + "," + ff + "]"
             for i, (index, vector) in enumerate(self._move_vectors):
 
-                move_vectors_string += "( %2i,"%(index) + vector_template%(vector[0], vector[1], vector[2])
+                move_vectors_string += "( %2i,"%(index) + vector_template%tuple([floatToScriptString(x) for x in vector])
 
                 if i < len(self._move_vectors)-1:
                     move_vectors_string += "),\n" + indent
@@ -466,7 +467,7 @@ coordinates defining where the moved index goes."""
 
         # Setup the rate constant string.
         rate_constant_string = "rate_constant   = " + ff
-        rate_constant_string = rate_constant_string%(self.__rate_constant)
+        rate_constant_string = rate_constant_string%(floatToScriptString(self.__rate_constant))
 
         # Get the script together.
         process_string = variable_name + " = KMCProcess(\n" + \
diff --git a/python/src/KMCLib/CoreComponents/KMCUnitCell.py b/python/src/KMCLib/CoreComponents/KMCUnitCell.py
index b4402ec..bbb2e0b 100644
--- a/python/src/KMCLib/CoreComponents/KMCUnitCell.py
+++ b/python/src/KMCLib/CoreComponents/KMCUnitCell.py
@@ -13,6 +13,7 @@ import numpy
 from KMCLib.Exceptions.Error import Error
 from KMCLib.Utilities.CheckUtilities import checkCellVectors
 from KMCLib.Utilities.CheckUtilities import checkCoordinateList
+from KMCLib.Utilities.ConversionUtilities import floatToScriptString
 
 class KMCUnitCell(object):
     """ Class for describing a unitcell. """
@@ -78,8 +79,8 @@ class KMCUnitCell(object):
 
         :returns: A script that can generate this unit cell.
         """
-        # Define the float format string.
-        ff = "%15.6e"
+        # Floats are converted to strings separately.
+        ff = "%s"
 
         # Setup the cell vectors script part.
         indent = " "*16
@@ -87,9 +88,9 @@ class KMCUnitCell(object):
         cell_vector_b_str = indent + "[" + ff + "," + ff + "," + ff + "],\n"
         cell_vector_c_str = indent + "[" + ff + "," + ff + "," + ff + "]]\n"
 
-        cell_vector_a = cell_vector_a_str%(self.__cell_vectors[0][0], self.__cell_vectors[0][1], self.__cell_vectors[0][2])
-        cell_vector_b = cell_vector_b_str%(self.__cell_vectors[1][0], self.__cell_vectors[1][1], self.__cell_vectors[1][2])
-        cell_vector_c = cell_vector_c_str%(self.__cell_vectors[2][0], self.__cell_vectors[2][1], self.__cell_vectors[2][2])
+        cell_vector_a = cell_vector_a_str%tuple([floatToScriptString(v) for v in self.__cell_vectors[0]])
+        cell_vector_b = cell_vector_b_str%tuple([floatToScriptString(v) for v in self.__cell_vectors[1]])
+        cell_vector_c = cell_vector_c_str%tuple([floatToScriptString(v) for v in self.__cell_vectors[2]])
         cell_string = "cell_vectors = [" + cell_vector_a + cell_vector_b + cell_vector_c
 
         # Setup the basis points scipt part.
@@ -99,9 +100,9 @@ class KMCUnitCell(object):
         basis_point_str = "[" + ff + "," + ff + "," + ff + "]"
         for i,point in enumerate(self.__basis_points):
             if (i == 0):
-                basis_string += basis_point_str%(point[0], point[1], point[2])
+                basis_string += basis_point_str%tuple([floatToScriptString(p) for p in point])
             else:
-                basis_string += indent + basis_point_str%(point[0], point[1], point[2])
+                basis_string += indent + basis_point_str%tuple([floatToScriptString(p) for p in point])
 
             if len(self.__basis_points) > i+1:
                 basis_string += ",\n"
diff --git a/python/src/KMCLib/Utilities/ConversionUtilities.py b/python/src/KMCLib/Utilities/ConversionUtilities.py
index 672d438..d0afd96 100644
--- a/python/src/KMCLib/Utilities/ConversionUtilities.py
+++ b/python/src/KMCLib/Utilities/ConversionUtilities.py
@@ -277,4 +277,19 @@ def stdVectorTypeBucketToPython(cpp_vector, cpp_type_map):
     return types
 
 
+def floatToScriptString(value):
+    """
+    Format a floating point number for use in a script. The short format is
+    used if the same number, up to rounding errors, can be read back from it.
+
+    :param value: The number to format.
+
+    :returns: The number as a string.
+    """
+    short_format = "%15.6e"%(value)
+
+    if abs(float(short_format) - value) <= 1.0e-14*abs(value):
+        return short_format
+    else:
+        return "%24.16e"%(value)
 
-- 
2.43.0


From cbd96cd73d3ec6fc3eae7cbc21a8214d220c2fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:49 +0000
Subject: [PATCH 17/47] fix: write the current types, buckets and quoted type
 names to scripts

The script of a configuration held the types it was first set up with, failed
for bucket types, and type names holding quotes gave an invalid script.
---
 python/src/KMCLib/CoreComponents/KMCConfiguration.py | 9 +++++----
 python/src/KMCLib/CoreComponents/KMCProcess.py       | 4 ++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCConfiguration.py b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
index af410d4..bfef7ab 100644
--- a/python/src/KMCLib/CoreComponents/KMCConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
@@ -360,10 +360,11 @@ class KMCConfiguration(object):
         types_string = "types = "
         indent = " "*9
         line = "["
-        nT = len(self.__types)
-        for i,t in enumerate(self.__types):
+        types = self.types()
+        nT = len(types)
+        for i,t in enumerate(types):
             # Add the type.
-            line += "'" + t + "'"
+            line += repr(t) if self.__use_buckets else repr(str(t))
             if i == nT-1:
                 # Stop if we reach the end.
                 line += "]\n"
@@ -387,7 +388,7 @@ class KMCConfiguration(object):
         nT = len(possible_types)
         for i,t in enumerate(possible_types):
             # Add the type.
-            line += "'" + t + "'"
+            line += repr(str(t))
             if i == nT-1:
                 # Stop if we reach the end.
                 line += "]\n"
diff --git a/python/src/KMCLib/CoreComponents/KMCProcess.py b/python/src/KMCLib/CoreComponents/KMCProcess.py
index 4c9ee4e..c3a9933 100644
--- a/python/src/KMCLib/CoreComponents/KMCProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCProcess.py
@@ -404,7 +404,7 @@ coordinates defining where the moved index goes."""
         nT = len(self._elements_before)
         for i,t in enumerate(self._elements_before):
             # Add the type.
-            line += "'" + t + "'"
+            line += repr(str(t))
             if i == nT-1:
                 # Stop if we reach the end.
                 line += "]\n"
@@ -426,7 +426,7 @@ coordinates defining where the moved index goes."""
         nT = len(self._elements_after)
         for i,t in enumerate(self._elements_after):
             # Add the type.
-            line += "'" + t + "'"
+            line += repr(str(t))
             if i == nT-1:
                 # Stop if we reach the end.
                 line += "]\n"
-- 
2.43.0


From 647070c01bf7b718b0d51b6b2ef8a804ca83338b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:49 +0000
Subject: [PATCH 18/47] fix: let bucket processes be written to scripts

Generating the script of interactions with a bucket process failed.
---
 .../KMCLib/CoreComponents/KMCBucketProcess.py | 39 +++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/python/src/KMCLib/CoreComponents/KMCBucketProcess.py b/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
index 2a046a6..4ac310e 100644
--- a/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
@@ -12,6 +12,7 @@ import numpy
 from KMCLib.CoreComponents.KMCBaseProcess import KMCBaseProcess
 from KMCLib.CoreComponents.KMCLocalConfiguration import KMCLocalConfiguration
 from KMCLib.Utilities.CheckUtilities import checkAndNormaliseBucketEntry
+from KMCLib.Utilities.ConversionUtilities import floatToScriptString
 from KMCLib.Exceptions.Error import Error
 from KMCLib.Backend import Backend
 
@@ -147,4 +148,42 @@ class KMCBucketProcess(KMCBaseProcess):
 
         return self.__cpp_update
 
+    def _script(self, variable_name="process"):
+        """
+        Generate a script representation of an instance.
+
+        :param variable_name: A name to use as variable name for
+                              the KMCBucketProcess in the generated script.
+        :type variable_name: str
 
+        :returns: A script that can generate this process object.
+        """
+        # Setup the coordinates string.
+        coordinates_list = ["[" + ",".join([floatToScriptString(x) for x in c]) + "]" for c in self._coordinates]
+        coords_string = "coordinates = [" + (",\n" + " "*15).join(coordinates_list) + "]\n"
+
+        # Setup the match and update strings.
+        match_list = [repr(m) for m in self.__minimum_match]
+        minimum_match_string = "minimum_match   = [" + (",\n" + " "*19).join(match_list) + "]\n"
+
+        update_list = [repr(u) for u in self.__update]
+        update_string = "update          = [" + (",\n" + " "*19).join(update_list) + "]\n"
+
+        # Setup the basis sites and rate constant strings.
+        basis_sites_string = "basis_sites     = [" + ",".join(["%i"%(b) for b in self.basisSites()]) + "]\n"
+        rate_constant_string = "rate_constant   = " + floatToScriptString(self.rateConstant()) + "\n"
+
+        # Get the script together.
+        process_string = variable_name + " = KMCBucketProcess(\n" + \
+            "    coordinates=coordinates,\n" + \
+            "    minimum_match=minimum_match,\n" + \
+            "    update=update,\n" + \
+            "    basis_sites=basis_sites,\n" + \
+            "    rate_constant=rate_constant)\n"
+
+        return coords_string + "\n" + \
+            minimum_match_string + \
+            update_string + \
+            basis_sites_string + \
+            rate_constant_string + "\n" + \
+            process_string + "\n"
-- 
2.43.0


From 84c0f7a3691b1279bb47f7233d5c63552c219044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:33 +0000
Subject: [PATCH 19/47] fix: count the equidistant dumps from the start time of
 the run

---
 python/src/KMCLib/CoreComponents/KMCLatticeModel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
index 8d38d12..8393225 100644
--- a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
+++ b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
@@ -172,7 +172,8 @@ must be given as string."""
             raise Error("No available processes. None of the processes defined as input match any position in the configuration. Change the initial configuration or processes to run KMC.")
 
         # Setup a trajectory object.
-        last_time = self.__cpp_timer.simulationTime()
+        start_time = self.__cpp_timer.simulationTime()
+        last_time = start_time
         if use_trajectory:
             if trajectory_type == 'lattice':
                 trajectory = LatticeTrajectory(trajectory_filename=trajectory_filename,
@@ -230,7 +231,7 @@ must be given as string."""
                 # Check if it is time to dump the previous step to the equidistant trajectory.
                 if ((dump_time is not None) and ((time_after-last_time) >= dump_time)):
                     time_step += 1
-                    sample_time = time_step * dump_time
+                    sample_time = start_time + time_step * dump_time
                     prettyPrint(" KMCLib: %14i steps executed. time: %20.10e"%(step-1, sample_time))
                     last_time = sample_time
 
-- 
2.43.0


From 0af4a43bfa8ca3bec45b2d227b35777e5fbbb444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:05 +0000
Subject: [PATCH 20/47] fix: add a cell only once to neighbourhoods along a
 direction with one periodic repetition

---
 c++/src/latticemap.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/c++/src/latticemap.cpp b/c++/src/latticemap.cpp
index cd9228a..49dfe33 100644
--- a/c++/src/latticemap.cpp
+++ b/c++/src/latticemap.cpp
@@ -72,7 +72,13 @@ std::vector<int> LatticeMap::neighbourIndices(const int index,
     // A counter to know how much we have added.
     int counter = 0;
 
-    for (int i = cell.i - shells; i <= cell.i + shells; ++i)
+    // All periodic images along a direction with only one repetition are the
+    // same cell, which should not be added more than once.
+    const int shells_a = (periodic_[0] && repetitions_[0] == 1) ? 0 : shells;
+    const int shells_b = (periodic_[1] && repetitions_[1] == 1) ? 0 : shells;
+    const int shells_c = (periodic_[2] && repetitions_[2] == 1) ? 0 : shells;
+
+    for (int i = cell.i - shells_a; i <= cell.i + shells_a; ++i)
     {
         int ii = i;
         // Handle periodicity.
@@ -90,7 +96,7 @@ std::vector<int> LatticeMap::neighbourIndices(const int index,
         // Go on only if i is within bounds.
         if (ii >= 0 && ii < repetitions_[0])
         {
-            for (int j = cell.j - shells; j <= cell.j + shells; ++j)
+            for (int j = cell.j - shells_b; j <= cell.j + shells_b; ++j)
             {
                 int jj = j;
                 // Handle periodicity.
@@ -108,7 +114,7 @@ std::vector<int> LatticeMap::neighbourIndices(const int index,
                 // Go on only if j is within bounds.
                 if (jj >= 0 && jj < repetitions_[1])
                 {
-                    for (int k = cell.k - shells; k <= cell.k + shells; ++k)
+                    for (int k = cell.k - shells_c; k <= cell.k + shells_c; ++k)
                     {
                         int kk = k;
                         // Check that k is within bounds.
-- 
2.43.0


From 7564c55a7ab0975a964383386bec600ed0a70cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:16 +0000
Subject: [PATCH 21/47] fix: write the center of a local configuration to its
 script

---
 python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py b/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py
index 1464cbc..7e0c23a 100644
--- a/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py
@@ -66,7 +66,8 @@ class KMCLocalConfiguration(object):
                                         coordinates,
                                         msg="The 'center' index paramter must be one in the coordinate list.")
 
-        # Center the coordinates.
+        # Store the center, and center the coordinates.
+        self.__center = center
         self.__coordinates = centerCoordinates(coordinates, center)
 
         # Check the types.
@@ -168,8 +169,8 @@ class KMCLocalConfiguration(object):
         # Add the configuration.
         config_string = variable_name + """ = KMCLocalConfiguration(
     coordinates=coordinates,
-    types=types)
-"""
+    types=types%s)
+"""%(",\n    center=%i"%(self.__center) if self.__center != 0 else "")
 
         # Add the comment.
         comment_string = """
-- 
2.43.0


From 0a154f319ad520d2ac1575f66289a3f7c60cb483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 22/47] fix: reject empty histories, histograms and bins in the
 analyses

---
 python/src/KMCLib/Analysis/OnTheFlyMSD.py          | 7 +++++++
 python/src/KMCLib/Analysis/TimeStepDistribution.py | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/python/src/KMCLib/Analysis/OnTheFlyMSD.py b/python/src/KMCLib/Analysis/OnTheFlyMSD.py
index d5a8df2..63a8d83 100644
--- a/python/src/KMCLib/Analysis/OnTheFlyMSD.py
+++ b/python/src/KMCLib/Analysis/OnTheFlyMSD.py
@@ -54,6 +54,10 @@ class OnTheFlyMSD(KMCAnalysisPlugin):
         # Check and set the time maximum.
         self.__t_max   = checkPositiveFloat(t_max, 100.0, "t_max")
 
+        # None of them can be zero.
+        if self.__history_steps == 0 or self.__n_bins == 0 or self.__t_max == 0.0:
+            raise Error("The 'history_steps', 'n_bins' and 't_max' parameters must all be larger than zero.")
+
         # Check that the track type.
         if not isinstance(track_type, str):
             raise Error("The 'track_type' parameter must be a string.")
@@ -249,6 +253,9 @@ class OnTheFlyMSD(KMCAnalysisPlugin):
         """
         # Find the cutoff based on where the last convolution
         # is smaller greater than 1 % of its maximum value.
+        if len(self.__history_bin_counters) == 0:
+            return self.__n_bins
+
         limit = 0.01 * max(self.__history_bin_counters[-1])
         for i,c in enumerate(self.__history_bin_counters[-1]):
             if c > limit:
diff --git a/python/src/KMCLib/Analysis/TimeStepDistribution.py b/python/src/KMCLib/Analysis/TimeStepDistribution.py
index 23ac36a..49c572b 100644
--- a/python/src/KMCLib/Analysis/TimeStepDistribution.py
+++ b/python/src/KMCLib/Analysis/TimeStepDistribution.py
@@ -12,6 +12,7 @@ import sys
 
 from KMCLib.PluginInterfaces.KMCAnalysisPlugin import KMCAnalysisPlugin
 from KMCLib.Utilities.CheckUtilities import checkPositiveFloat
+from KMCLib.Exceptions.Error import Error
 from KMCLib.Backend.Backend import MPICommons
 
 class TimeStepDistribution(KMCAnalysisPlugin):
@@ -29,6 +30,8 @@ class TimeStepDistribution(KMCAnalysisPlugin):
         """
         # Check the input parameters.
         self.__binsize = checkPositiveFloat(binsize, 1.0, "binsize")
+        if self.__binsize == 0.0:
+            raise Error("The 'binsize' parameter must be larger than zero.")
 
         # Setup an initial histogram of 10 entries.
         self.__histogram = numpy.zeros(10, dtype=int)
-- 
2.43.0


From 697831d6da398cc208a9fcaf8818f8743f562974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 23/47] fix: copy the input lists that objects keep

Changing a list after it was handed to a constructor changed the object
(cell vectors, repetitions, periodicity, types, basis sites, move vectors
and processes).
---
 python/src/KMCLib/CoreComponents/KMCBaseProcess.py   | 3 ++-
 python/src/KMCLib/CoreComponents/KMCConfiguration.py | 2 +-
 python/src/KMCLib/CoreComponents/KMCInteractions.py  | 3 ++-
 python/src/KMCLib/CoreComponents/KMCLattice.py       | 5 +++--
 python/src/KMCLib/CoreComponents/KMCProcess.py       | 5 +++--
 python/src/KMCLib/Utilities/CheckUtilities.py        | 4 ++--
 6 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCBaseProcess.py b/python/src/KMCLib/CoreComponents/KMCBaseProcess.py
index 3d98817..13f336e 100644
--- a/python/src/KMCLib/CoreComponents/KMCBaseProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCBaseProcess.py
@@ -7,6 +7,7 @@
 # GNU General Public License version 3, see <http://www.gnu.org/licenses/>.
 #
 
+import copy
 import numpy
 
 from KMCLib.Utilities.CoordinateUtilities import centerCoordinates
@@ -54,7 +55,7 @@ class KMCBaseProcess(object):
             msg = "The list of available basis sites for a process may not be empty."
 
         # Passed the  tests.
-        self._basis_sites = basis_sites
+        self._basis_sites = copy.copy(basis_sites)
 
         # Check the rate constant.
         self._rate_constant = checkPositiveFloat(rate_constant,
diff --git a/python/src/KMCLib/CoreComponents/KMCConfiguration.py b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
index bfef7ab..d47540e 100644
--- a/python/src/KMCLib/CoreComponents/KMCConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
@@ -154,7 +154,7 @@ class KMCConfiguration(object):
             raise Error("A default type can only be used in combination with the long types format\nwhen constructing a KMCConfiguration object.")
 
         # Check the types.
-        return checkTypes(types,self.__n_lattice_sites)
+        return list(checkTypes(types,self.__n_lattice_sites))
 
     def __checkAndSetLongTypes(self, types, default_type, possible_types):
         """ """
diff --git a/python/src/KMCLib/CoreComponents/KMCInteractions.py b/python/src/KMCLib/CoreComponents/KMCInteractions.py
index 8a23ec8..6af6b20 100644
--- a/python/src/KMCLib/CoreComponents/KMCInteractions.py
+++ b/python/src/KMCLib/CoreComponents/KMCInteractions.py
@@ -8,6 +8,7 @@
 #
 
 
+import copy
 import numpy
 import inspect
 
@@ -46,7 +47,7 @@ class KMCInteractions(object):
         processes = checkSequenceOf(processes, KMCBaseProcess, msg="The 'processes' input must be a list of KMCProcess or KMCBucketProcess instances.")
 
         # Store the processes.
-        self.__processes = processes
+        self.__processes = copy.copy(processes)
 
         # Check the implicit wildcard flag.
         if implicit_wildcards is None:
diff --git a/python/src/KMCLib/CoreComponents/KMCLattice.py b/python/src/KMCLib/CoreComponents/KMCLattice.py
index 3b7ba9d..6687f36 100644
--- a/python/src/KMCLib/CoreComponents/KMCLattice.py
+++ b/python/src/KMCLib/CoreComponents/KMCLattice.py
@@ -8,6 +8,7 @@
 #
 
 
+import copy
 import numpy
 
 from KMCLib.Backend import Backend
@@ -42,10 +43,10 @@ class KMCLattice(object):
         self.__unit_cell = unit_cell
 
         # Passed the tests, store.
-        self.__repetitions = self.__checkRepetitions(repetitions)
+        self.__repetitions = copy.copy(self.__checkRepetitions(repetitions))
 
         # Check the periodic input.
-        self.__periodic = self.__checkPeriodic(periodic)
+        self.__periodic = copy.copy(self.__checkPeriodic(periodic))
 
         # Generate the lattice sites.
         self.__sites = self.__generateLatticeSites()
diff --git a/python/src/KMCLib/CoreComponents/KMCProcess.py b/python/src/KMCLib/CoreComponents/KMCProcess.py
index c3a9933..71d555d 100644
--- a/python/src/KMCLib/CoreComponents/KMCProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCProcess.py
@@ -7,6 +7,7 @@
 # GNU General Public License version 3, see <http://www.gnu.org/licenses/>.
 #
 
+import copy
 import numpy
 
 from KMCLib.Utilities.CoordinateUtilities import sortCoordinatesDistance
@@ -83,7 +84,7 @@ class KMCProcess(KMCBaseProcess):
         self._elements_after  = elements_after
 
         # Check that the move vectors are compatible with the elements.
-        self._move_vectors = self.__checkValidMoveVectors(move_vectors)
+        self._move_vectors = copy.deepcopy(self.__checkValidMoveVectors(move_vectors))
 
         # Sort the coordinates and co-sort the elements and move vectors.
         self.__sortCoordinatesElementsAndMoveVectors()
@@ -93,7 +94,7 @@ class KMCProcess(KMCBaseProcess):
                                                       msg="The basis_sites must be given as a list of positive integers.")
 
         # Passed the tests.
-        self.__basis_sites = basis_sites
+        self.__basis_sites = copy.copy(basis_sites)
 
         # Check the rate constant.
         self.__rate_constant = checkPositiveFloat(rate_constant,
diff --git a/python/src/KMCLib/Utilities/CheckUtilities.py b/python/src/KMCLib/Utilities/CheckUtilities.py
index ca40d47..0bb5901 100644
--- a/python/src/KMCLib/Utilities/CheckUtilities.py
+++ b/python/src/KMCLib/Utilities/CheckUtilities.py
@@ -73,8 +73,8 @@ def checkCellVectors(cell_vectors):
     if cell_determinant < 0.00001:
         raise Error("The unit cell vectors are linearly dependent with determinant = %f."%(cell_determinant))
 
-    # Done checking.
-    return cell_vectors
+    # Done checking. Return a copy, that does not change with the input.
+    return numpy.array(cell_vectors)
 
 
 def checkCoordinateList(coordinates, varname="coordinates"):
-- 
2.43.0


From 663ceaadbdd364469608ece6ed2c9195a97ad7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:25 +0000
Subject: [PATCH 24/47] fix: pass basis sites given as numpy integers to the
 backend

---
 python/src/KMCLib/CoreComponents/KMCInteractions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCInteractions.py b/python/src/KMCLib/CoreComponents/KMCInteractions.py
index 6af6b20..bf1d87a 100644
--- a/python/src/KMCLib/CoreComponents/KMCInteractions.py
+++ b/python/src/KMCLib/CoreComponents/KMCInteractions.py
@@ -229,7 +229,7 @@ the KMCRateCalculatorPlugin class itself. """
                     basis_list = []
                     for b in process.basisSites():
                         if b < n_basis:
-                            basis_list.append(b)
+                            basis_list.append(int(b))
 
                 # And construct the C++ entry.
                 cpp_basis = Backend.StdVectorInt(basis_list)
-- 
2.43.0


From c39ebe3e4f847ad34d5909c2c673e6f9462bd509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:34 +0000
Subject: [PATCH 25/47] fix: reject wildcards combined with particles in bucket
 processes

The particles were silently ignored in the match, and removing them could
give negative occupations.
---
 python/src/KMCLib/CoreComponents/KMCBucketProcess.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/src/KMCLib/CoreComponents/KMCBucketProcess.py b/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
index 4ac310e..250ce85 100644
--- a/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCBucketProcess.py
@@ -66,6 +66,13 @@ class KMCBucketProcess(KMCBaseProcess):
         # Check the update information.
         self.__update = self.__checkUpdateInfo(update)
 
+        # A wildcard makes a site match anything, and the update leave it as
+        # it is. It can not be combined with particles.
+        for entry in self.__minimum_match + self.__update:
+            for (n, t) in entry:
+                if t == "*" and n != 0 and (n != 1 or any([m != 0 for (m, tt) in entry if tt != "*"])):
+                    raise Error("A wildcard in the 'minimum_match' or 'update' input to the KMCBucketProcess constructor can not be numbered or combined with particles.")
+
         # Construct elements before based on the match and update.
         self._elements_before = self.__minimum_match
 
-- 
2.43.0


From 40433968cbf2867aca1d9159b7e12647c726a019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 26/47] fix: show all particles of sites in models that start
 with one particle per site

With the types given as strings types() returned only the first particle of
each site, and failed for empty sites, when bucket processes changed them.
---
 python/src/KMCLib/CoreComponents/KMCConfiguration.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCConfiguration.py b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
index d47540e..340a968 100644
--- a/python/src/KMCLib/CoreComponents/KMCConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
@@ -231,11 +231,17 @@ class KMCConfiguration(object):
         :returns: The stored types list.
         """
         # Update the types with what ever has been changed in the backend.
-        if self.__use_buckets:
+        elements = self._backend().elements()
+
+        # Sites with no, or more than one, particle can only be represented
+        # with the buckets format.
+        if any([len(e) != 1 for e in elements]):
+            self.__use_buckets = True
 
-            self.__types = [[ee for ee in e] for e in self._backend().elements()]
+        if self.__use_buckets:
+            self.__types = [[ee for ee in e] for e in elements]
         else:
-            self.__types = [e[0] for e in self._backend().elements()]
+            self.__types = [e[0] for e in elements]
 
         # Return the types.
         return self.__types
-- 
2.43.0


From 1f3e02dbb7c91505e286b2baa285db073819da9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:33 +0000
Subject: [PATCH 27/47] fix: let rounding noise in coordinates not change the
 order of match lists

---
 c++/src/matchlistentry.cpp | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/c++/src/matchlistentry.cpp b/c++/src/matchlistentry.cpp
index 2a42b0e..1b01332 100644
--- a/c++/src/matchlistentry.cpp
+++ b/c++/src/matchlistentry.cpp
@@ -81,22 +81,23 @@ bool operator<(const MinimalMatchListEntry & m1,
     if (std::fabs(m2.distance - m1.distance) < epsi__)
     {
         // If the distances are practically the same,
-        // check the coordinate.
-        if ( m1.x < m2.x)
+        // check the coordinate, directions which are practically
+        // the same are decided by the next direction.
+        if ( m1.x < m2.x - epsi__)
         {
             return true;
         }
-        else if (m1.x > m2.x)
+        else if (m1.x > m2.x + epsi__)
         {
             return false;
             }
         else
         {
-            if ( m1.y < m2.y )
+            if ( m1.y < m2.y - epsi__ )
             {
                 return true;
             }
-                else if ( m1.y > m2.y )
+                else if ( m1.y > m2.y + epsi__ )
                 {
                     return false;
                 }
@@ -123,22 +124,23 @@ bool operator<(const ProcessBucketMatchListEntry & m1,
     if (std::fabs(m2.distance - m1.distance) < epsi__)
     {
         // If the distances are practically the same,
-        // check the coordinate.
-        if ( m1.coordinate.x() < m2.x)
+        // check the coordinate, directions which are practically
+        // the same are decided by the next direction.
+        if ( m1.coordinate.x() < m2.x - epsi__)
         {
             return true;
         }
-        else if (m1.coordinate.x() > m2.x)
+        else if (m1.coordinate.x() > m2.x + epsi__)
         {
             return false;
             }
         else
         {
-            if ( m1.coordinate.y() < m2.y )
+            if ( m1.coordinate.y() < m2.y - epsi__ )
             {
                 return true;
             }
-            else if ( m1.coordinate.y() > m2.y )
+            else if ( m1.coordinate.y() > m2.y + epsi__ )
                 {
                     return false;
                 }
@@ -164,22 +166,23 @@ bool operator<(const ProcessBucketMatchListEntry & m1,
     if (std::fabs(m2.distance - m1.distance) < epsi__)
     {
         // If the distances are practically the same,
-        // check the coordinate.
-        if ( m1.coordinate.x() < m2.coordinate.x())
+        // check the coordinate, directions which are practically
+        // the same are decided by the next direction.
+        if ( m1.coordinate.x() < m2.coordinate.x() - epsi__)
         {
             return true;
         }
-        else if (m1.coordinate.x() > m2.coordinate.x())
+        else if (m1.coordinate.x() > m2.coordinate.x() + epsi__)
         {
             return false;
             }
         else
         {
-            if ( m1.coordinate.y() < m2.coordinate.y() )
+            if ( m1.coordinate.y() < m2.coordinate.y() - epsi__ )
             {
                 return true;
             }
-            else if ( m1.coordinate.y() > m2.coordinate.y() )
+            else if ( m1.coordinate.y() > m2.coordinate.y() + epsi__ )
                 {
                     return false;
                 }
-- 
2.43.0


From a8f92f6a6173f4e8e3a785c807278728a4f952d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:56 +0000
Subject: [PATCH 28/47] fix: count a type that is listed twice in
 possible_types once

---
 python/src/KMCLib/CoreComponents/KMCConfiguration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCConfiguration.py b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
index 340a968..8d0278f 100644
--- a/python/src/KMCLib/CoreComponents/KMCConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
@@ -114,8 +114,8 @@ class KMCConfiguration(object):
         if "*" in possible_types:
             raise Error("The wildcard caracter '*' is not a valid type.")
 
-        # Setup the possible types as a dict.
-        possible_types = ["*"] + possible_types
+        # Setup the possible types as a dict, with each type counted once.
+        possible_types = ["*"] + sorted(set(possible_types), key=possible_types.index)
         self.__possible_types = dict(zip(possible_types, range(len(possible_types))))
 
         # Every thing is checked - store the data on the class.
-- 
2.43.0


From c10fdf8f9f12a3a4c260c95663aeee149d752283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:37 +0000
Subject: [PATCH 29/47] fix: keep the id moves of processes that do not fit in
 the lattice inside their match list

---
 c++/src/interactions.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/c++/src/interactions.cpp b/c++/src/interactions.cpp
index bbf2d00..4b76a67 100644
--- a/c++/src/interactions.cpp
+++ b/c++/src/interactions.cpp
@@ -256,6 +256,13 @@ void Interactions::updateProcessMatchLists(const Configuration & configuration,
            }
         }
 
+        // A process that does not fit in the lattice can never match, and has no
+        // mapping for all its coordinates.
+        if (it1 != process_matchlist.end())
+        {
+            continue;
+        }
+
         // With this mapping information we can update the process id moves.
         index_mapping.resize(old_index);
         std::vector<std::pair<int,int> > & id_moves = p.idMoves();
-- 
2.43.0


From 24cae38c094dc9b2cab0f7ce2d6634aae5ca5b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:38 +0000
Subject: [PATCH 30/47] fix: reject floats that are not finite as rate
 constants and intervals

---
 python/src/KMCLib/Utilities/CheckUtilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/KMCLib/Utilities/CheckUtilities.py b/python/src/KMCLib/Utilities/CheckUtilities.py
index 0bb5901..97e4890 100644
--- a/python/src/KMCLib/Utilities/CheckUtilities.py
+++ b/python/src/KMCLib/Utilities/CheckUtilities.py
@@ -280,8 +280,8 @@ def checkPositiveFloat(parameter, default_parameter, parameter_name):
     if not isinstance(parameter, float):
         raise Error(msg)
 
-    # Check value.
-    if parameter < 0.0:
+    # Check value, which must not be nan or infinite.
+    if not (parameter >= 0.0 and numpy.isfinite(parameter)):
         raise Error(msg)
 
     # Checked.
-- 
2.43.0


From 151b1f8089d22146263b23ab1f786dc852cf8909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:38 +0000
Subject: [PATCH 31/47] fix: reject coordinates and cell vectors that are not
 finite

---
 python/src/KMCLib/Utilities/CheckUtilities.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/src/KMCLib/Utilities/CheckUtilities.py b/python/src/KMCLib/Utilities/CheckUtilities.py
index 97e4890..2e7907f 100644
--- a/python/src/KMCLib/Utilities/CheckUtilities.py
+++ b/python/src/KMCLib/Utilities/CheckUtilities.py
@@ -67,6 +67,10 @@ def checkCellVectors(cell_vectors):
     if cell_vectors.dtype != dummy_array.dtype:
         raise Error("The cell_vectors elements must be floating point numbers.")
 
+    # Check the values.
+    if not numpy.all(numpy.isfinite(cell_vectors)):
+        raise Error("The cell_vectors elements must be finite numbers.")
+
     # Check for linear dependencies.
     cell_T = numpy.transpose(cell_vectors)
     cell_determinant = numpy.linalg.det(cell_T)
@@ -105,7 +109,7 @@ def checkCoordinateList(coordinates, varname="coordinates"):
             raise Error("Each entry in the '%s' list must have exactly three elements."%(varname))
 
         # Check that each element is a floating point number.
-        if not all([isinstance(c,float) for c in coord]):
+        if not all([isinstance(c,float) and numpy.isfinite(c) for c in coord]):
             raise Error("All '%s' entries must be given as floating point numbers."%(varname))
 
     # Convert to a numpy array and return.
-- 
2.43.0


From c06010ad1f29ceeb0bcb4c01d17038ea16b7c599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:38 +0000
Subject: [PATCH 32/47] fix: give an Error for an rng_type that is not a string

---
 python/src/KMCLib/CoreComponents/KMCControlParameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCControlParameters.py b/python/src/KMCLib/CoreComponents/KMCControlParameters.py
index 4078219..21035e8 100644
--- a/python/src/KMCLib/CoreComponents/KMCControlParameters.py
+++ b/python/src/KMCLib/CoreComponents/KMCControlParameters.py
@@ -129,7 +129,7 @@ class KMCControlParameters(object):
                      "DEVICE"   : Backend.DEVICE,
                      }
 
-        if not rng_type in rng_dict:
+        if not isinstance(rng_type, str) or not rng_type in rng_dict:
             raise Error("'rng_type' input must be one of the supported types. Check the documentation for the list of supported types. Default is 'MT' (Mersenne-Twister) [std::mt19937].")
 
         return rng_dict[rng_type]
-- 
2.43.0


From 0acf3ec674a3bbe2839b2f5f7e7b2b5ba4ef1162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:38 +0000
Subject: [PATCH 33/47] fix: reject seeds that do not fit in the integers of
 the backend

---
 python/src/KMCLib/CoreComponents/KMCControlParameters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/src/KMCLib/CoreComponents/KMCControlParameters.py b/python/src/KMCLib/CoreComponents/KMCControlParameters.py
index 21035e8..8335ec8 100644
--- a/python/src/KMCLib/CoreComponents/KMCControlParameters.py
+++ b/python/src/KMCLib/CoreComponents/KMCControlParameters.py
@@ -96,6 +96,9 @@ class KMCControlParameters(object):
                                            1,
                                            "seed")
 
+        if self.__seed >= 2**31:
+            raise Error("The 'seed' parameter must be smaller than 2**31.")
+
         if dump_time_interval is not None:
             if not isinstance(dump_time_interval, float):
                 raise Error("The 'dump_time_interval' parameter must be of type float.")
-- 
2.43.0


From d8bfa2e761f2d71b8d89db927e120f6ee09965a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:38 +0000
Subject: [PATCH 34/47] fix: reject nan as dump_time_interval

---
 python/src/KMCLib/CoreComponents/KMCControlParameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCControlParameters.py b/python/src/KMCLib/CoreComponents/KMCControlParameters.py
index 8335ec8..8ab8b74 100644
--- a/python/src/KMCLib/CoreComponents/KMCControlParameters.py
+++ b/python/src/KMCLib/CoreComponents/KMCControlParameters.py
@@ -102,7 +102,7 @@ class KMCControlParameters(object):
         if dump_time_interval is not None:
             if not isinstance(dump_time_interval, float):
                 raise Error("The 'dump_time_interval' parameter must be of type float.")
-            if dump_time_interval <= 0:
+            if not dump_time_interval > 0.0:
                 raise Error("The 'dump_time_interval' parameter must be greater than zero.")
 
         self.__dump_time_interval = dump_time_interval
-- 
2.43.0


From 3cecd9437235afeee463cd81e945a7984498f1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:38 +0000
Subject: [PATCH 35/47] fix: give an Error for long format types with too many
 elements

---
 python/src/KMCLib/CoreComponents/KMCConfiguration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCConfiguration.py b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
index 8d0278f..383597a 100644
--- a/python/src/KMCLib/CoreComponents/KMCConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
@@ -137,7 +137,7 @@ class KMCConfiguration(object):
             return "short"
 
         # Check all elements to see if we have the long format.
-        elif all([isinstance(t, tuple) for t in types]) and all([isinstance(tt, (int, int, int, int, str)[i]) for i,tt in enumerate(types[0])]):
+        elif all([isinstance(t, tuple) for t in types]) and all([isinstance(tt, ct) for tt,ct in zip(types[0], (int, int, int, int, str))]):
             return "long"
 
         # No other option left but to assume the buckets format.
-- 
2.43.0


From 791945b456ff775f433022238a61d5d3a277be95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:38 +0000
Subject: [PATCH 36/47] fix: give an Error for move vectors with a wrong length
 or index

---
 python/src/KMCLib/CoreComponents/KMCProcess.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCProcess.py b/python/src/KMCLib/CoreComponents/KMCProcess.py
index 71d555d..8928c89 100644
--- a/python/src/KMCLib/CoreComponents/KMCProcess.py
+++ b/python/src/KMCLib/CoreComponents/KMCProcess.py
@@ -205,10 +205,12 @@ coordinates defining where the moved index goes."""
 
         # Check the format of each element.
         for t in move_vectors:
-            if not isinstance(t, tuple):
+            if not isinstance(t, tuple) or len(t) != 2:
                 raise Error(msg)
             elif not isinstance(t[0], int):
                 raise Error(msg)
+            elif t[0] < 0 or t[0] >= len(self._coordinates):
+                raise Error("The index of each move vector must be one in the coordinate list.")
             # Check the vector.
             checkSequenceOfFloats(t[1], msg)
             if len(t[1]) != 3:
-- 
2.43.0


From cfb0f4cdcebef09c697307a58e38ac2f0fae0a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:38 +0000
Subject: [PATCH 37/47] fix: give an Error for local configuration types that
 are no sequence and a boolean center

---
 python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py b/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py
index 7e0c23a..a4ae0d2 100644
--- a/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCLocalConfiguration.py
@@ -13,6 +13,7 @@ import numpy
 from KMCLib.Utilities.CheckUtilities import checkCoordinateList
 from KMCLib.Utilities.CheckUtilities import checkIndexWithinBounds
 from KMCLib.Utilities.CheckUtilities import checkTypes
+from KMCLib.Utilities.CheckUtilities import checkSequence
 from KMCLib.Utilities.CheckUtilities import checkAndNormaliseBucketEntry
 from KMCLib.Utilities.ConversionUtilities import stringListToStdVectorStdVectorString
 from KMCLib.Utilities.CoordinateUtilities import centerCoordinates
@@ -58,7 +59,7 @@ class KMCLocalConfiguration(object):
             center = 0
 
         # Check that center is of propper type
-        if not isinstance(center, int):
+        if not isinstance(center, int) or isinstance(center, bool):
             raise Error("Improper center specification.")
 
         # Check the bounds of the center coordinate.
@@ -71,6 +72,7 @@ class KMCLocalConfiguration(object):
         self.__coordinates = centerCoordinates(coordinates, center)
 
         # Check the types.
+        types = checkSequence(types, "The 'types' must be given as a sequence with one entry per coordinate.")
         if len(types) != len(coordinates):
             raise Error("The length of the types must match the coordinates.")
 
-- 
2.43.0


From 0a3a8eb4a0079d2fd3873d25f32d10d91113d717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:38 +0000
Subject: [PATCH 38/47] fix: reject booleans given as positive integers

---
 python/src/KMCLib/Utilities/CheckUtilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/KMCLib/Utilities/CheckUtilities.py b/python/src/KMCLib/Utilities/CheckUtilities.py
index 2e7907f..9177ccb 100644
--- a/python/src/KMCLib/Utilities/CheckUtilities.py
+++ b/python/src/KMCLib/Utilities/CheckUtilities.py
@@ -250,7 +250,7 @@ def checkPositiveInteger(parameter, default_parameter, parameter_name):
     # The error message.
     msg = "The parameter '%s' must be given as a positive integer."%(parameter_name)
     # Check type.
-    if not isinstance(parameter, int):
+    if not isinstance(parameter, int) or isinstance(parameter, bool):
         raise Error(msg)
 
     # Check value.
-- 
2.43.0


From a840201d5b174d45b7c9e66c5c2c16d744cc5ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:38 +0000
Subject: [PATCH 39/47] fix: reject a time interval of zero in the process
 statistics

---
 python/src/KMCLib/Analysis/ProcessStatistics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/KMCLib/Analysis/ProcessStatistics.py b/python/src/KMCLib/Analysis/ProcessStatistics.py
index 3fd3f67..78880ac 100644
--- a/python/src/KMCLib/Analysis/ProcessStatistics.py
+++ b/python/src/KMCLib/Analysis/ProcessStatistics.py
@@ -41,6 +41,8 @@ class ProcessStatistics(KMCAnalysisPlugin):
         msg = "The 'processes' parameter must be given as a list of process numbers."
         self.__processes = checkSequenceOfPositiveIntegers(processes, msg)
         self.__time_interval = checkPositiveFloat(time_interval, 1.0, 'time_interval')
+        if self.__time_interval == 0.0:
+            raise Error("The 'time_interval' parameter to the ProcessStatistics analysis must be greater than zero.")
         if (spatially_resolved is None):
             spatially_resolved = False
         elif not isinstance(spatially_resolved, bool):
-- 
2.43.0


From 85f9d42543fad65879cbdae0e44c9083cf35cf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:38 +0000
Subject: [PATCH 40/47] fix: let a Python rate calculator replace a builtin one

---
 python/src/KMCLib/CoreComponents/KMCInteractions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/src/KMCLib/CoreComponents/KMCInteractions.py b/python/src/KMCLib/CoreComponents/KMCInteractions.py
index bf1d87a..39a9392 100644
--- a/python/src/KMCLib/CoreComponents/KMCInteractions.py
+++ b/python/src/KMCLib/CoreComponents/KMCInteractions.py
@@ -85,6 +85,7 @@ class KMCInteractions(object):
 
         # If the rate calculator given is a string we should use one of the
         # builtin custom calculators.
+        self.__builtin_custom = False
         if isinstance(rate_calculator, str):
 
             # Get the list of custom calculators.
-- 
2.43.0


From 2dbf6331964a4625ff9af10eb1e1a314a99891f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:16 +0000
Subject: [PATCH 41/47] fix: convert the processes excluded from caching by
 builtin rate calculators

---
 c++/wrap/CMakeLists.txt | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c++/wrap/CMakeLists.txt b/c++/wrap/CMakeLists.txt
index 07bc378..094b825 100644
--- a/c++/wrap/CMakeLists.txt
+++ b/c++/wrap/CMakeLists.txt
@@ -27,6 +27,8 @@ file( APPEND ${KMCLib_SOURCE_DIR}/wrap/custom.i "%include " \"std_map.i\" \n)
 file( APPEND ${KMCLib_SOURCE_DIR}/wrap/custom.i "%include " \"std_string.i\" \n)
 file( APPEND ${KMCLib_SOURCE_DIR}/wrap/custom.i "%include " \"std_pair.i\" \n)
 file( APPEND ${KMCLib_SOURCE_DIR}/wrap/custom.i "%include " \"ratecalculator.h\" \n)
+# Convert the process numbers excluded from caching to Python.
+file( APPEND ${KMCLib_SOURCE_DIR}/wrap/custom.i "%template() std::vector<int>;\n")
 file( APPEND ${KMCLib_SOURCE_DIR}/wrap/custom.i "%module Custom"\n)
 file( APPEND ${KMCLib_SOURCE_DIR}/wrap/custom.i "%{"\n )
 
-- 
2.43.0


From 9b10e2214e269461cd0d1112c3d36ca82178de84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:37 +0000
Subject: [PATCH 42/47] fix: compute the multiplicity of large buckets without
 integer overflow

---
 c++/src/matchlist.cpp | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/c++/src/matchlist.cpp b/c++/src/matchlist.cpp
index 20d3ffa..695b41b 100644
--- a/c++/src/matchlist.cpp
+++ b/c++/src/matchlist.cpp
@@ -147,7 +147,7 @@ double multiplicity(const ProcessBucketMatchList & process_match_list,
     ProcessBucketMatchList::const_iterator end = process_match_list.end();
     ConfigBucketMatchList::const_iterator it2  = config_match_list.begin();
 
-    int m = 1;
+    double m = 1.0;
 
     for ( ; it1 != end; ++it1, ++it2 )
     {
@@ -173,23 +173,14 @@ double multiplicity(const ProcessBucketMatchList & process_match_list,
                     if (min != 0)
                     {
                         // Calculate n! / (r!(n-r)!)
-
-                        // Get the numerator.
-                        int local_n = t2[i];
-                        for (int j = t2[i] - 1; j > max; --j)
-                        {
-                            local_n *= j;
-                        }
-
-                        // Calculate the denominator.
-                        int local_r = min;
-                        for (int j = min-1; j > 0; --j)
+                        double ways = 1.0;
+                        for (int j = 1; j <= min; ++j)
                         {
-                            local_r *= j;
+                            ways = ways * (max + j) / j;
                         }
 
-                        // Multiply m by (n! / (r! (n-r)!))
-                        m *= (local_n / local_r);
+                        // Multiply with the ways of the other types.
+                        m *= ways;
                     }
                 }
             }
@@ -197,5 +188,5 @@ double multiplicity(const ProcessBucketMatchList & process_match_list,
     }
 
     // Done.
-    return static_cast<double>(m);
+    return m;
 }
-- 
2.43.0


From 7ef812458ac53a66c1effc6958c64a294276f74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:37 +0000
Subject: [PATCH 43/47] fix: close the lists of an atom id script without
 mapped atoms

---
 python/src/KMCLib/CoreComponents/KMCConfiguration.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/src/KMCLib/CoreComponents/KMCConfiguration.py b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
index 383597a..fd87167 100644
--- a/python/src/KMCLib/CoreComponents/KMCConfiguration.py
+++ b/python/src/KMCLib/CoreComponents/KMCConfiguration.py
@@ -488,6 +488,11 @@ class KMCConfiguration(object):
                 else:
                     elements_script += "%s, "%(t)
 
+        # Without any mapped atoms the lists are empty.
+        if len(atoms) == 0:
+            elements_script    += "]\n\n"
+            coordinates_script += "]\n\n"
+
         # Generate the configuration script.
         config_script ="""# Setup the configuration.
 bulk_configuration = BulkConfiguration(
-- 
2.43.0


From 8d82db5f9aa43a0bcb66b84e1c077bd8cba3d8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:23 +0000
Subject: [PATCH 44/47] fix: reject the name of a helper class as rate
 calculator

---
 python/src/KMCLib/CoreComponents/KMCInteractions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/KMCLib/CoreComponents/KMCInteractions.py b/python/src/KMCLib/CoreComponents/KMCInteractions.py
index 39a9392..3440931 100644
--- a/python/src/KMCLib/CoreComponents/KMCInteractions.py
+++ b/python/src/KMCLib/CoreComponents/KMCInteractions.py
@@ -92,7 +92,8 @@ class KMCInteractions(object):
             calculator_candidates = []
             forbidden = ['RateCalculator',
                          'SimpleDummyBaseClass',
-                         'SwigPyIterator']
+                         'SwigPyIterator',
+                         '_SwigNonDynamicMeta']
             for obj in dir(Custom):
                 attr = getattr(Custom, obj)
 
-- 
2.43.0


From c3fd7b071fb1ce76ea252f22059cbfec96bc4f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:44 +0000
Subject: [PATCH 45/47] fix: exact integer arithmetic for the cell of a site

On lattices with more than about 16 million cells the epsilon used in the
floating point arithmetic got lost and sites ended up in a wrong cell.
---
 c++/src/latticemap.cpp | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/c++/src/latticemap.cpp b/c++/src/latticemap.cpp
index 49dfe33..7feb99c 100644
--- a/c++/src/latticemap.cpp
+++ b/c++/src/latticemap.cpp
@@ -288,20 +288,15 @@ void LatticeMap::indexToCell(const int index,
                              int & cell_j,
                              int & cell_k) const
 {
-    // Given an index, calculate the cell i,j,k.
-    const double eps   = 1.0e-9;
-    const int idx      = index / n_basis_ + 1;
-    const int factor_i = repetitions_[1] * repetitions_[2];
-    const int ii       = static_cast<int>((idx - eps) / factor_i);
-
-    const int ci       = ii * factor_i;
-    const int factor_j = repetitions_[2];
-    const int idx_j    = idx - ci;
-    const int jj       = static_cast<int>((idx_j - eps) / factor_j);
-
-    const int cij      = ci + jj * factor_j;
-    const int idx_k    = idx - cij;
-    const int kk       = static_cast<int>(idx_k - eps);
+    // Given an index, calculate the cell i,j,k. The number of the cell is not
+    // exact together with a small epsilon as a floating point number on a
+    // large lattice, so we use integer division here.
+    const int cell = index / n_basis_;
+    const int tmp  = cell / repetitions_[2];
+
+    const int ii = tmp  / repetitions_[1];
+    const int jj = tmp  % repetitions_[1];
+    const int kk = cell % repetitions_[2];
 
     // Set the result.
     cell_i = ii;
-- 
2.43.0


From c0de15ff7b39611f8e42e8cdc2c7ae2ee5c4d013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:57 +0000
Subject: [PATCH 46/47] fix: a state where all available processes have a zero
 rate crashed the run

With a rate constant of zero, or custom rates of zero, for everything that is
available, no process can be selected and the process was ended by a
segmentation fault. The run now ends as when no process is available. An
infinite total rate, and a draw rounded up to an extremely small total rate,
crashed the same way.
---
 c++/src/interactions.cpp                          | 15 +++++++++++----
 c++/src/process.cpp                               |  9 ++++++++-
 .../src/KMCLib/CoreComponents/KMCLatticeModel.py  |  9 +++++++++
 3 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/c++/src/interactions.cpp b/c++/src/interactions.cpp
index 4b76a67..e22dea7 100644
--- a/c++/src/interactions.cpp
+++ b/c++/src/interactions.cpp
@@ -337,10 +337,17 @@ int Interactions::pickProcessIndex() const
     // also if the random number is exactly zero.
     const std::vector<std::pair<double, int> >::const_iterator begin = probability_table_.begin();
     const std::vector<std::pair<double, int> >::const_iterator end   = probability_table_.end();
-    const std::vector<std::pair<double, int> >::const_iterator it1   = std::upper_bound( begin,
-                                                                                         end,
-                                                                                         rnd_pair,
-                                                                                         pairComp );
+    std::vector<std::pair<double, int> >::const_iterator it1 = std::upper_bound( begin,
+                                                                                 end,
+                                                                                 rnd_pair,
+                                                                                 pairComp );
+
+    // The random number is only rounded up to the total rate if that is extremely
+    // small. Take the last process which increases the accumulated rate.
+    if (it1 == end)
+    {
+        it1 = std::lower_bound(begin, end, probability_table_.back(), pairComp);
+    }
 
     // Find the index in the process list.
     return it1-begin;
diff --git a/c++/src/process.cpp b/c++/src/process.cpp
index 8941448..870924e 100644
--- a/c++/src/process.cpp
+++ b/c++/src/process.cpp
@@ -173,7 +173,14 @@ int Process::pickSite() const
     // than rnd, such that a site with a zero rate is never selected.
     const std::vector<double>::const_iterator begin = incremental_rate_table_.begin();
     const std::vector<double>::const_iterator end   = incremental_rate_table_.end();
-    const std::vector<double>::const_iterator it1   = std::upper_bound( begin, end, rnd);
+    std::vector<double>::const_iterator it1         = std::upper_bound( begin, end, rnd);
+
+    // The random number is only rounded up to the total rate if that is extremely
+    // small. Take the last site which increases the accumulated rate.
+    if (it1 == end)
+    {
+        it1 = std::lower_bound( begin, end, total_rate);
+    }
 
     // Get the site index.
     const int site_index = it1-begin;
diff --git a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
index 8393225..4a4e129 100644
--- a/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
+++ b/python/src/KMCLib/CoreComponents/KMCLatticeModel.py
@@ -8,6 +8,8 @@
 #
 
 
+import numpy
+
 from KMCLib.Backend import Backend
 
 from KMCLib.CoreComponents.KMCConfiguration import KMCConfiguration
@@ -223,6 +225,13 @@ must be given as string."""
                 if nP == 0:
                     raise Error("No more available processes.")
 
+                # Processes with a zero rate can not be selected.
+                total_rate = cpp_model.interactions().totalRate()
+                if total_rate == 0.0:
+                    raise Error("No more available processes. The rates of all available processes are zero.")
+                if not numpy.isfinite(total_rate):
+                    raise Error("The total rate of the available processes is not a finite number.")
+
                 # Take a step.
                 time_before = self.__cpp_timer.simulationTime()
                 cpp_model.propagateTime()
-- 
2.43.0


From 839b0645729d74c4fb0177f138de897cd288d878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:20 +0000
Subject: [PATCH 47/47] fix: negative and non-finite custom rates crashed the
 run

The documentation says that a rate must not be negative, but a negative or NaN
rate was used and ended the process by a segmentation fault. It gives an Error
now, as other invalid input does.
---
 .../KMCRateCalculatorPlugin.py                 | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/python/src/KMCLib/PluginInterfaces/KMCRateCalculatorPlugin.py b/python/src/KMCLib/PluginInterfaces/KMCRateCalculatorPlugin.py
index 410a8b1..96c4029 100644
--- a/python/src/KMCLib/PluginInterfaces/KMCRateCalculatorPlugin.py
+++ b/python/src/KMCLib/PluginInterfaces/KMCRateCalculatorPlugin.py
@@ -61,12 +61,13 @@ class KMCRateCalculatorPlugin(Backend.RateCalculator):
 
         # Call and return the custom rate.
         global_coordinate = (global_x, global_y, global_z)
-        return self.rate(numpy.array(cpp_coords).reshape(coords_len,3),
+        rate = self.rate(numpy.array(cpp_coords).reshape(coords_len,3),
                          stdVectorTypeBucketToPython(occupations, types_map),
                          stdVectorTypeBucketToPython(occupations_after, types_map),
                          rate_constant,
                          process_number,
                          global_coordinate)
+        return self.__checkRate(rate)
 
     def backendRateCallback(self,
                             cpp_coords,
@@ -86,12 +87,25 @@ class KMCRateCalculatorPlugin(Backend.RateCalculator):
         # Call and return the custom rate.
         # PERFORMME: Consider creating the numpy array in C++ if possible.
         global_coordinate = (global_x, global_y, global_z)
-        return self.rate(numpy.array(cpp_coords).reshape(coords_len,3),
+        rate = self.rate(numpy.array(cpp_coords).reshape(coords_len,3),
                          types_before,
                          types_after,
                          rate_constant,
                          process_number,
                          global_coordinate)
+        return self.__checkRate(rate)
+
+    def __checkRate(self, rate):
+        """
+        Check that the custom rate can be used in a simulation.
+
+        :param rate: The rate to check.
+        :returns: The rate, if valid.
+        """
+        # A NaN fails the comparison. Other types are checked in the backend.
+        if isinstance(rate, (int, float)) and not 0.0 <= rate < float("inf"):
+            raise Error("The rate returned from the 'rate' function of a rate calculator must be a finite number which is not negative.")
+        return rate
 
     def initialize(self):
         """
-- 
2.43.0

