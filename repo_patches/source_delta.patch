From d46231ee1c4c782e8d07030f5261c89ec649245f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:36 +0000
Subject: [PATCH 01/32] fix: rebuild the cluster's cumulative distributions
 instead of appending to them

updateProbabilitiesAndTimeConstant() and migrateSitesFrom() recompute the
distributions used to pick the next site. The cumulative vectors were appended
to and never cleared, so picks kept following the distribution of the very
first update and could return sites that had since joined the cluster.
---
 CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index c813414..fec7b8d 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -607,6 +607,7 @@ void Cluster::calculateProbabilityHopToInternalSite_() {
         return x.second>y.second;
       });
 
+  cumulitive_probabilityHopToInternalSite_.clear();
   total = 0.0;
   for(pair<int,double> site_and_prob : probabilityHopToInternalSite_){
     site_and_prob.second+=total;
@@ -659,6 +660,7 @@ void Cluster::calculateProbabilityHopToNeighbors_() {
         return x.second>y.second;
       });
 
+  cumulitive_probabilityHopToNeighbor_.clear();
   total = 0.0;
   for(pair<int,double>  site_and_prob : probabilityHopToNeighbor_){
     site_and_prob.second+=total;
-- 
2.43.0


From 60ada433b206ee9eb260f4a2ea1a9bff382c6caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:02 +0000
Subject: [PATCH 02/32] fix: keep the occupancy of a cluster consistent with
 its sites

Vacating a site of a cluster decremented the cluster's own counter although
occupying a site never incremented it: the count went negative and a cluster
holding walkers reported that it was unoccupied. Derive it from the sites.
---
 .../src/libmythical/topologyfeatures/cluster.cpp    | 13 ++++++++++++-
 .../src/libmythical/topologyfeatures/cluster.hpp    |  1 +
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index fec7b8d..0337e2c 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -32,6 +32,17 @@ void occupyCluster_(TopologyFeature* feature, const int& siteId){
   site.setToOccupiedStatus(); 
 }
 
+// The cluster is occupied if it has been occupied as a whole or if any of the
+// sites it is composed of are occupied
+bool isOccupiedCluster_(TopologyFeature* feature){
+  auto cluster = static_cast<Cluster *>(feature);
+  if(cluster->occupied_>0) return true;
+  for(auto & site : cluster->sitesInCluster_){
+    if(site.second.isOccupied()) return true;
+  }
+  return false;
+}
+
 bool isOccupiedCluster_(TopologyFeature* feature,const int& siteId){
   auto cluster = static_cast<Cluster *>(feature);
   assert(cluster->sitesInCluster_.count(siteId));
@@ -41,7 +52,6 @@ bool isOccupiedCluster_(TopologyFeature* feature,const int& siteId){
 void vacateCluster_(TopologyFeature* feature,const int& siteId){
   auto cluster = static_cast<Cluster *>(feature);
   cluster->sitesInCluster_[siteId].vacate();
-  cluster->vacate();
 }
 
 void removeWalkerCluster_(TopologyFeature * feature,const int & walker_id){
@@ -61,6 +71,7 @@ Cluster::Cluster() : TopologyFeature() {
 
   occupy_siteId_ptr_ = occupyCluster_;
   vacate_siteId_ptr_ = vacateCluster_;
+  isOccupied_ptr_ = isOccupiedCluster_;
   isOccupied_siteId_ptr_ = isOccupiedCluster_;
 
 }
diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp
index d5b4cb0..72d8b8b 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp
@@ -469,6 +469,7 @@ class Cluster : public TopologyFeature {
 
     friend void occupyCluster_(TopologyFeature*,const int&);
     friend void vacateCluster_(TopologyFeature*,const int&);
+    friend bool isOccupiedCluster_(TopologyFeature*);
     friend bool isOccupiedCluster_(TopologyFeature*,const int&);
     friend void removeWalkerCluster_(TopologyFeature *,const int&);
   };
-- 
2.43.0


From 2106696485a7f4e475b5c9600bbc090298d11d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:02 +0000
Subject: [PATCH 03/32] fix: forget the remaining dwell time of a walker
 removed from a cluster

removeWalkerCluster_ was never installed, so a walker removed while on a
cluster left its remaining dwell time behind and the next walker with the same
id inherited it.
---
 CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index 0337e2c..bb31f3d 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -74,6 +74,8 @@ Cluster::Cluster() : TopologyFeature() {
   isOccupied_ptr_ = isOccupiedCluster_;
   isOccupied_siteId_ptr_ = isOccupiedCluster_;
 
+  remove_ptr_ = removeWalkerCluster_;
+
 }
 
 void Cluster::addSite(Site& newSite) {
-- 
2.43.0


From 8c24f3515c689d3f2934df56e88f8405b2401db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:02 +0000
Subject: [PATCH 04/32] fix: count the time spent on every site in a cluster's
 time constant

Sites without a rate off the cluster were left out, so the time constant of
e.g. a three site basin in a chain was two thirds of the correct one. The
normalisation of the internal hop probabilities also divided the wrong map,
which scaled the time constant by the probability of an internal hop.
---
 .../libmythical/topologyfeatures/cluster.cpp  | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index bb31f3d..60b43b5 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -522,8 +522,8 @@ void Cluster::calculateProbabilityHopBetweenInternalSite_() {
   }
 
   // Normalize
-  for(auto site : probabilityHopBetweenInternalSite_){
-    probabilityHopOffInternalSite_[site.first]/=sum_internal;
+  for(auto & site : probabilityHopBetweenInternalSite_){
+    site.second/=sum_internal;
   }
   
 }
@@ -566,18 +566,26 @@ void Cluster::calculateSumOfEscapeRatesFromSitesToInternalSites_() {
   }
   sumOfEscapeRateFromSiteToInternalSite_ = temp;
 }
-// Requires that calculateProbabilityHopOffInternalSites has first been called
+// Requires that the master equation has been solved and that
+// calculateSumOfEscapeRatesFromSitesToTheirNeighbors has first been called
+//
+// A walker spends time on all of the sites in the cluster, including those that
+// have no rates off the cluster, hence the time constant is the average time
+// spent on a site divided by the average probability of then leaving the
+// cluster.
 void Cluster::calculateEscapeTimeConstant_() {
   escape_time_constant_ = 0.0;
   if(getRatesToNeighborsOfCluster_().size()==0){
     escape_time_constant_ = constants::unassigned_value;
   }else{
-    for( auto site_prob : probabilityHopOffInternalSite_ ){
-      auto rate_off = sumOfEscapeRateFromSiteToNeighbor_[site_prob.first];
-      if(rate_off>0){
-        escape_time_constant_ += 1.0/rate_off *site_prob.second ;
-      }
+    double time_on_site = 0.0;
+    double escape_probability = 0.0;
+    for( auto site_prob : probabilityOnSite_ ){
+      auto weight = site_prob.second*sitesInCluster_[site_prob.first].getTimeConstant();
+      time_on_site += weight;
+      escape_probability += weight*sumOfEscapeRateFromSiteToNeighbor_[site_prob.first];
     }
+    escape_time_constant_ = time_on_site/escape_probability;
   }
   time_increment_ = TopologyFeature::escape_time_constant_/resolution_;
 }
-- 
2.43.0


From 2aca3391e8429163fe38d9636c79c2bf538c9df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:48 +0000
Subject: [PATCH 05/32] fix: make cluster visit frequencies independent of
 units and of queries

The share of time spent on a site was not normalised, so the number of visits
reported for a clustered site depended on the unit the rates are given in. Each
query also rounded what had accumulated since the last one, so querying often
lost visits, and a site without internal rates made the query throw. Count the
last, partial, increment of a walker's stay at its average length.
---
 .../libmythical/topologyfeatures/cluster.cpp    | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index 60b43b5..3274aa8 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -255,12 +255,17 @@ int Cluster::getVisitFrequency(const int & siteId){
 
   if(total_visit_freq_!=prev_total_visit_freq_){
     double difference = total_visit_freq_ - prev_total_visit_freq_; 
-    for(auto site_visit : site_visits_){
-      double visits = static_cast<double>(difference)*probabilityOnSite_[site_visit.first]*sitesInCluster_.at(site_visit.first).getTimeConstant();
-      visits = visits/internal_dwell_time_.at(site_visit.first);
-      visits = escape_time_constant_*visits;
-      visits = visits/resolution_;
-      site_visits_[site_visit.first] += round(visits);
+    // Average time spent on a site each time a site in the cluster is visited
+    double time_per_visit = 0.0;
+    for(auto & site_visit : site_visits_){
+      time_per_visit += probabilityOnSite_[site_visit.first]*sitesInCluster_.at(site_visit.first).getTimeConstant();
+    }
+    // Average time that passes each time the cluster is occupied, the last
+    // increment before a walker leaves the cluster is on average a partial one
+    double time_per_occupation = escape_time_constant_*(1.0-exp(-1.0/resolution_));
+    double visits_to_cluster = difference*time_per_occupation/time_per_visit;
+    for(auto & site_visit : site_visits_){
+      site_visit.second += visits_to_cluster*probabilityOnSite_[site_visit.first];
     }
     prev_total_visit_freq_ = total_visit_freq_;
   }
-- 
2.43.0


From b5bddd046a0240b7b95337d3ae472e70926f033d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:48 +0000
Subject: [PATCH 06/32] fix: initialise the time increment and internal time
 constant of a cluster

---
 CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index 3274aa8..6fcb285 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -68,6 +68,8 @@ Cluster::Cluster() : TopologyFeature() {
   prev_total_visit_freq_ = 0;
   convergenceTolerance_ = 0.01;
   convergence_method_ = converge_by_iterations_per_site;
+  time_increment_ = 0.0;
+  internal_time_constant_ = constants::unassigned_value;
 
   occupy_siteId_ptr_ = occupyCluster_;
   vacate_siteId_ptr_ = vacateCluster_;
-- 
2.43.0


From 3a41c2437b8f16d710ef4649a61c4c210ec072c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:48 +0000
Subject: [PATCH 07/32] fix: solve the master equation for rates that exist in
 one direction only

iterate_ looked up the reverse of every rate between two sites of the cluster
and aborted (or read past the end) when there was none.
---
 .../src/libmythical/topologyfeatures/cluster.cpp   | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index 6fcb285..57a1467 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -361,17 +361,17 @@ void Cluster::iterate_() {
   double total = 0.0;
   for (auto site : sitesInCluster_) {
     for (auto neighsite : site.second.getNeighborSiteIds()) {
-      if (siteIsInCluster(neighsite)) {
-        temp_probabilityOnSite[site.first] +=
-          sitesInCluster_[neighsite].getProbabilityOfHoppingToNeighboringSite(site.first) *
-          probabilityOnSite_[neighsite];
-      }
-      temp_probabilityOnSite[site.first] -=
+      double flow =
         sitesInCluster_[site.first].getProbabilityOfHoppingToNeighboringSite(neighsite) *
         probabilityOnSite_[site.first];
+      // The rate in the reverse direction does not need to exist
+      if (siteIsInCluster(neighsite)) {
+        temp_probabilityOnSite[neighsite] += flow;
+      }
+      temp_probabilityOnSite[site.first] -= flow;
     }
-    total += temp_probabilityOnSite[site.first];
   }
+  for (auto site : temp_probabilityOnSite) total += site.second;
 
   // Combine the former probability with the presently calculated probability
   double total2 = 0.0;
-- 
2.43.0


From 39bd52428d681391d4365de74de5bce2d08cd502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:48 +0000
Subject: [PATCH 08/32] fix: use the current rates when a cluster is updated

The documentation of updateProbabilitiesAndTimeConstant says it must be called
after a rate was changed externally, but the probabilities and time constants
cached in the sites were not refreshed, so it mixed old and new rates.
---
 .../src/libmythical/topologyfeatures/cluster.cpp           | 4 ++++
 CoarseGrainSites/src/libmythical/topologyfeatures/site.cpp | 6 ++++++
 CoarseGrainSites/src/libmythical/topologyfeatures/site.hpp | 7 +++++++
 3 files changed, 17 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index 57a1467..bfb5cc6 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -101,6 +101,10 @@ void Cluster::updateProbabilitiesAndTimeConstant() {
 
   unordered_map<int,int> temporary_visit_frequencies = getVisitFrequencies_();
 
+  // The rates are stored externally and may have been changed
+  for (auto & site : sitesInCluster_) {
+    site.second.updateProbabilitiesAndTimeConstant();
+  }
   solveMasterEquation_();
   calculateSumOfEscapeRatesFromSitesToTheirNeighbors_();
   calculateSumOfEscapeRatesFromSitesToInternalSites_();
diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/site.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/site.cpp
index 9c7106e..0263cb0 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/site.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/site.cpp
@@ -65,6 +65,12 @@ void Site::resetNeighRate(const pair<int, double*> neighRate) {
   calculateProbabilityHopToNeighbors_();
 }
 
+void Site::updateProbabilitiesAndTimeConstant() {
+  if(neighRates_.empty()) return;
+  calculateDwellTimeConstant_();
+  calculateProbabilityHopToNeighbors_();
+}
+
 vector<double> Site::getRateToNeighbors() const {
   vector<double> rates;
   for (auto & rate : neighRates_) rates.push_back(*(rate.second));
diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/site.hpp b/CoarseGrainSites/src/libmythical/topologyfeatures/site.hpp
index b1c2d96..099a564 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/site.hpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/site.hpp
@@ -60,6 +60,13 @@ class Site : public TopologyFeature {
    **/
   void resetNeighRate(const std::pair<int, double*> neighRate);
 
+  /**
+   * \brief Update the probabilities and the time constant of the site
+   *
+   * Needed if the value of one of the rates has been changed externally.
+   **/
+  void updateProbabilitiesAndTimeConstant();
+
   /**
    * \brief Is the site a neighbor
    *
-- 
2.43.0


From a103a6e4d0bd15671d65699f13c0c9de76d1233f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:03 +0000
Subject: [PATCH 09/32] fix: mark the site of a new walker as occupied when it
 is part of a cluster

initializeWalkers called occupy() without the site id. For a clustered site
that only touched the cluster, so a second walker could hop onto the site.
---
 CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
index 5c3693d..9e44ad7 100644
--- a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
+++ b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
@@ -165,7 +165,7 @@ namespace mythical {
           "within the rates parameter.";
         throw runtime_error(error_msg);
       }
-      topology_features_[siteId]->occupy();
+      topology_features_[siteId]->occupy(siteId);
 
       auto hopTime = topology_features_[siteId]->getDwellTime(walkers.at(index).first);
       int newId = topology_features_[siteId]->pickNewSiteId(walkers.at(index).first);
-- 
2.43.0


From de50927a2f4b66c339182ae2ac33ca50787bb5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:03 +0000
Subject: [PATCH 10/32] fix: merge clusters as a whole

A basin may contain only some of the sites of a cluster it merges with. The
other sites of the absorbed cluster kept a pointer to the erased cluster, and
the equilibrium condition was not checked for the sites actually merged, so a
cluster without any way out could be formed.
---
 .../include/mythical/coarsegrainsystem.hpp    |  1 +
 .../src/libmythical/coarsegrainsystem.cpp     | 23 +++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/CoarseGrainSites/include/mythical/coarsegrainsystem.hpp b/CoarseGrainSites/include/mythical/coarsegrainsystem.hpp
index 2e7a740..272b5cd 100644
--- a/CoarseGrainSites/include/mythical/coarsegrainsystem.hpp
+++ b/CoarseGrainSites/include/mythical/coarsegrainsystem.hpp
@@ -302,6 +302,7 @@ class CoarseGrainSystem {
 
   bool coarseGrain_(int siteId);
   std::unordered_map<int,int> getClustersOfSites(const std::vector<int> & siteIds);
+  std::vector<int> getSitesToMerge_(const std::unordered_map<int,int> & sites_and_clusters);
   int createCluster_(std::vector<int> siteIds,double internal_time_limit);
   void mergeSitesAndClusters_(std::unordered_map<int,int> sites_and_clusters, int clusterId);
   double getTimeConstantFromSitesToNeighbors_(const std::vector<int> & siteIds) const;
diff --git a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
index 9e44ad7..cce5141 100644
--- a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
+++ b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
@@ -262,6 +262,16 @@ namespace mythical {
         createCluster_(basin_site_ids,internal_time_limit);
         return true;
       }else if(number_clusters!=1){
+        // All of the sites of the clusters found will become part of the merged
+        // cluster, also the ones that do not belong to the basin
+        vector<int> merged_site_ids = getSitesToMerge_(sites_and_clusters);
+        if( merged_site_ids.size()!=basin_site_ids.size() ){
+          internal_time_limit = getInternalTimeLimit_(merged_site_ids);
+          if( !sitesSatisfyEquilibriumCondition_(merged_site_ids, internal_time_limit) ){
+            return false;
+          }
+          sites_and_clusters = getClustersOfSites(merged_site_ids);
+        }
         // Joint clusters and sites to an existing cluster
         int favored_clusterId = getFavoredClusterId(sites_and_clusters);
         mergeSitesAndClusters_(sites_and_clusters,favored_clusterId);
@@ -305,6 +315,19 @@ namespace mythical {
     return sites_and_clusters;
   }
 
+  vector<int> CoarseGrainSystem::getSitesToMerge_(const unordered_map<int,int> & sites_and_clusters){
+    unordered_set<int> siteIds;
+    for(auto site_and_cluster : sites_and_clusters){
+      if(site_and_cluster.second==constants::unassignedId){
+        siteIds.insert(site_and_cluster.first);
+      }else{
+        auto cluster_sites = clusters_->getCluster(site_and_cluster.second).getSiteIdsInCluster();
+        siteIds.insert(cluster_sites.begin(),cluster_sites.end());
+      }
+    }
+    return vector<int>(siteIds.begin(),siteIds.end());
+  }
+
   int CoarseGrainSystem::createCluster_(vector<int> siteIds, double internal_time_limit) {
     LOG("Creating cluster from vector of sites", 1);
 
-- 
2.43.0


From b8d5f380206dd0ead449739b5fdd7204353a6e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:03 +0000
Subject: [PATCH 11/32] fix: respect the time resolution after clusters are
 merged

The resolution chosen for the time constant of the original cluster was kept,
so that the time increment of a merged cluster could exceed the time
resolution of the system.
---
 CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
index cce5141..14eadcd 100644
--- a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
+++ b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
@@ -393,6 +393,10 @@ namespace mythical {
       clusters_->erase(clusterId);
     }
 
+    // The time constant has changed, make sure that the time increment does not
+    // exceed the time resolution
+    Cluster & cluster = clusters_->getCluster(favoredClusterId);
+    cluster.setResolution(max(2.0,cluster.getTimeConstant()/time_resolution_));
   }
 
   double CoarseGrainSystem::getExternalTimeLimit_(const vector<int> & siteIds ){
-- 
2.43.0


From 024a0146d181ac59114e978f231ec5c2660b8626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:03 +0000
Subject: [PATCH 12/32] fix: define getMinCoarseGrainIterationThreshold

It is declared in the public header but was never defined.
---
 CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
index 14eadcd..1d898c0 100644
--- a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
+++ b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
@@ -180,6 +180,10 @@ namespace mythical {
     iteration_threshold_ = threshold_min;
   }
 
+  int CoarseGrainSystem::getMinCoarseGrainIterationThreshold() {
+    return iteration_threshold_min_;
+  }
+
   void CoarseGrainSystem::setRandomSeed(const unsigned long seed) {
     if (topology_features_.size() != 0) {
       throw runtime_error(
-- 
2.43.0


From a315379fdfeda49fcc1bc92be9607a263fe45e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:53 +0000
Subject: [PATCH 13/32] fix: do not add rates when looking them up

getRate returned a null pointer for an unknown neighbour of a known site, and a
failed getRate as well as outgoingRateCount inserted the site asked for, which
then turned up as a source or disappeared from the sinks.
---
 CoarseGrainSites/src/libmythical/rate_container.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/rate_container.cpp b/CoarseGrainSites/src/libmythical/rate_container.cpp
index e0f72c4..7ae06cb 100644
--- a/CoarseGrainSites/src/libmythical/rate_container.cpp
+++ b/CoarseGrainSites/src/libmythical/rate_container.cpp
@@ -31,10 +31,8 @@ namespace mythical {
   }
 
   double * Rate_Container::getRate(int siteId, int neighId) {
-    if(rates_.count(siteId)==0){
-      if(rates_[siteId].count(neighId)==0){
-        throw invalid_argument("Cannot retrieve rate as it has not been added.");
-      }
+    if(rates_.count(siteId)==0 || rates_[siteId].count(neighId)==0){
+      throw invalid_argument("Cannot retrieve rate as it has not been added.");
     }
     return rates_[siteId][neighId];
   }
@@ -46,6 +44,7 @@ namespace mythical {
   }
 
   size_t Rate_Container::outgoingRateCount(int siteId) {
+    if(rates_.count(siteId)==0) return 0;
     return rates_[siteId].size();
   }
 
-- 
2.43.0


From 2a6ee201a356694732ba4bdef1878782add57810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:53 +0000
Subject: [PATCH 14/32] fix: getSmallestClusterId adds unknown sites to the
 container

Reject them as the other methods do.
---
 CoarseGrainSites/src/libmythical/site_container.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CoarseGrainSites/src/libmythical/site_container.cpp b/CoarseGrainSites/src/libmythical/site_container.cpp
index 0866e21..bc975ad 100644
--- a/CoarseGrainSites/src/libmythical/site_container.cpp
+++ b/CoarseGrainSites/src/libmythical/site_container.cpp
@@ -66,7 +66,7 @@ namespace mythical {
     LOG("Getting the favored cluster Id", 1);
     int favoredClusterId = constants::unassignedId;
     for (auto siteId : siteIds) {
-      int clusterId = sites_[siteId].getClusterId();
+      int clusterId = getClusterIdOfSite(siteId);
       if (favoredClusterId == constants::unassignedId) {
         favoredClusterId = clusterId;
       } else if (clusterId != constants::unassignedId &&
-- 
2.43.0


From 506798dd7660ec036d2105334ea0d1d425aded02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:53 +0000
Subject: [PATCH 15/32] fix: wrap coordinates that are more than one period
 below zero

---
 .../charge_transport/cuboid_lattice.cpp        | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 6cc2787..870422b 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -155,24 +155,18 @@ namespace mythical {
 
 
     int Cuboid::getXPeriodic_( const int x ) const noexcept{
-      if(x<0){
-        return x+length_;
-      }
-      return x % length_;
+      const int remainder = x % length_;
+      return remainder < 0 ? remainder + length_ : remainder;
     }
 
     int Cuboid::getYPeriodic_( const int y ) const noexcept{
-      if(y<0){
-        return y+width_;
-      }
-      return y % width_;
+      const int remainder = y % width_;
+      return remainder < 0 ? remainder + width_ : remainder;
     }
 
     int Cuboid::getZPeriodic_( const int z ) const noexcept{
-      if(z<0){
-        return z+height_;
-      }
-      return z % height_;
+      const int remainder = z % height_;
+      return remainder < 0 ? remainder + height_ : remainder;
     }
 
     void Cuboid::setDistributions_() {
-- 
2.43.0


From 39f9310f2ce275d6ba30461649f4c312177c5185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:53 +0000
Subject: [PATCH 16/32] fix: getRandomSite picks y in an XY plane from the z
 range

The check of the plane index could also never fail, so a plane outside of a
periodic lattice was silently wrapped.
---
 .../src/libmythical/charge_transport/cuboid_lattice.cpp   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 870422b..581ce97 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -281,7 +281,7 @@ namespace mythical {
       int y_lattice_pos = plane_index;
       int z_lattice_pos = plane_index;
       if ( plane == Plane::YZ ) {
-        if (x_lattice_pos < 0 && x_lattice_pos >= length_ ) {
+        if (x_lattice_pos < 0 || x_lattice_pos >= length_ ) {
           std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
             "with x pos " + to_string(plane_index) + " when the x"
             "bounds are 0 to " + to_string(length_-1);
@@ -290,7 +290,7 @@ namespace mythical {
         y_lattice_pos = distribution_y_(generator_);
         z_lattice_pos = distribution_z_(generator_);
       } else if ( plane == Plane::XZ ) {
-        if (y_lattice_pos < 0 && y_lattice_pos >= width_ ) {
+        if (y_lattice_pos < 0 || y_lattice_pos >= width_ ) {
           std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
             "with y pos " + to_string(plane_index) + " when the y"
             "bounds are 0 to " + to_string(width_-1);
@@ -299,14 +299,14 @@ namespace mythical {
         x_lattice_pos = distribution_x_(generator_);
         z_lattice_pos = distribution_z_(generator_);
       } else {
-        if (z_lattice_pos < 0 && z_lattice_pos >= height_ ) {
+        if (z_lattice_pos < 0 || z_lattice_pos >= height_ ) {
           std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
             "with z pos " + to_string(plane_index) + " when the z"
             "bounds are 0 to " + to_string(height_-1);
             throw std::invalid_argument(error_msg);
         }
         x_lattice_pos = distribution_x_(generator_);
-        y_lattice_pos = distribution_z_(generator_);
+        y_lattice_pos = distribution_y_(generator_);
       }
       return getIndex(x_lattice_pos,y_lattice_pos,z_lattice_pos);
     }
-- 
2.43.0


From 26636f5eb6e7e5c74550f2b75370575e9c715c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:53 +0000
Subject: [PATCH 17/32] fix: reject negative indices when converting an index
 to a position

---
 .../src/libmythical/charge_transport/cuboid_lattice.cpp   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 581ce97..0719bdb 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -312,7 +312,7 @@ namespace mythical {
     }
 
     std::vector<int> Cuboid::getPosition(int index) const {
-      if ( index >= length_ * width_ * height_ ) {
+      if ( index < 0 || index >= length_ * width_ * height_ ) {
         std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
           "with index " + to_string(index) + " index is out of bounds"
           ", the bounds are between 0 and " + 
@@ -323,7 +323,7 @@ namespace mythical {
     }
 
     int Cuboid::getX(int index) const {
-      if ( index >= length_ * width_ * height_ ) {
+      if ( index < 0 || index >= length_ * width_ * height_ ) {
         std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
           "with index " + to_string(index) + " index is out of bounds"
           ", the bounds are between 0 and " + 
@@ -336,7 +336,7 @@ namespace mythical {
     }
 
     int Cuboid::getY(int index) const {
-      if ( index >= length_ * width_ * height_ ) {
+      if ( index < 0 || index >= length_ * width_ * height_ ) {
         std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
           "with index " + to_string(index) + " index is out of bounds"
           ", the bounds are between 0 and " + 
@@ -349,7 +349,7 @@ namespace mythical {
     }
 
     int Cuboid::getZ(int index) const {
-      if ( index >= length_ * width_ * height_ ) {
+      if ( index < 0 || index >= length_ * width_ * height_ ) {
         std::string error_msg = "Cannot call " + std::string(__FUNCTION__) + ", "
           "with index " + to_string(index) + " index is out of bounds"
           ", the bounds are between 0 and " + 
-- 
2.43.0


From ec738e11b6bbe53ae1a98d5a50571a63adc7597a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:53 +0000
Subject: [PATCH 18/32] fix: avoid integer overflow when calculating distances
 on large lattices

---
 .../src/libmythical/charge_transport/cuboid_lattice.cpp   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 0719bdb..28303ce 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -86,16 +86,16 @@ namespace mythical {
     double Cuboid::getDistance_(const int x1, const int y1, const int z1,
         const int x2, const int y2, const int z2) const noexcept {
 
-      int xdiff = x1-x2;
-      int ydiff = y1-y2;
-      int zdiff = z1-z2;
+      double xdiff = x1-x2;
+      double ydiff = y1-y2;
+      double zdiff = z1-z2;
 
       // Square
       xdiff = xdiff*xdiff;
       ydiff = ydiff*ydiff;
       zdiff = zdiff*zdiff;
       
-      return std::pow(static_cast<double>(xdiff+ydiff+zdiff), 0.5) * inter_site_distance_;
+      return std::pow(xdiff+ydiff+zdiff, 0.5) * inter_site_distance_;
     }
 
     std::vector<std::pair<int,double>> Cuboid::getNeighborDistances_(const std::vector<int> pos_i, const double cutoff) const {
-- 
2.43.0


From 48a4024a7b3abe121dbb2b6d0e7f64777741ba58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:53 +0000
Subject: [PATCH 19/32] fix: getSmallestDistance in periodic lattices

The second position was replaced by a difference but was still compared with
the first position, and y was used in place of z.
---
 .../charge_transport/cuboid_lattice.cpp       | 38 +++++--------------
 1 file changed, 10 insertions(+), 28 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index 28303ce..c376323 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -498,34 +498,16 @@ namespace mythical {
       checkIndex_(index1);
       checkIndex_(index2);
 
-      std::vector<int> pos_1 = getPos_(index1);
-      std::vector<int> pos_2 = getPos_(index2);
-      // Move the second point if a smaller distance can be found
-      const int x1 = pos_1.at(0);
-      const int x2 = pos_2.at(0);
-      if ( x_bound_ == BoundarySetting::Periodic ){
-        const int diff1 = abs(x2 - x1 + length_);
-        const int diff2 = abs(x2 - x1 - length_);
-        const int diff = min(diff1, diff2); 
-        pos_2.at(0) = min(diff,abs(x2 - x1));
-      }
-      const int y1 = pos_1.at(1);
-      const int y2 = pos_2.at(1);
-      if ( y_bound_ == BoundarySetting::Periodic ){
-        const int diff1 = abs(y2 - y1 + width_);
-        const int diff2 = abs(y2 - y1 - width_);
-        const int diff = min(diff1, diff2); 
-        pos_2.at(1) = min(diff,abs(y2 - y1));
-      }
-      const int z1 = pos_1.at(1);
-      const int z2 = pos_2.at(1);
-      if ( z_bound_ == BoundarySetting::Periodic ){
-        const int diff1 = abs(z2 - z1 + height_);
-        const int diff2 = abs(z2 - z1 - height_);
-        const int diff = min(diff1, diff2); 
-        pos_2.at(2) = min(diff,abs(z2 - z1));
-      }
-      return getDistance_(pos_1.at(0), pos_1.at(1), pos_1.at(2), pos_2.at(0), pos_2.at(1), pos_2.at(2));
+      const std::vector<int> pos_1 = getPos_(index1);
+      const std::vector<int> pos_2 = getPos_(index2);
+      int xdiff = abs(pos_2.at(0) - pos_1.at(0));
+      int ydiff = abs(pos_2.at(1) - pos_1.at(1));
+      int zdiff = abs(pos_2.at(2) - pos_1.at(2));
+      // Go the other way around if it is shorter
+      if ( x_bound_ == BoundarySetting::Periodic ) xdiff = min(xdiff, length_ - xdiff);
+      if ( y_bound_ == BoundarySetting::Periodic ) ydiff = min(ydiff, width_ - ydiff);
+      if ( z_bound_ == BoundarySetting::Periodic ) zdiff = min(zdiff, height_ - zdiff);
+      return getDistance_(0, 0, 0, xdiff, ydiff, zdiff);
     }
   } // lattice
 } // mythical 
-- 
2.43.0


From 4a3fdb672d11e0113fadf807175c35fb0fbd5ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:53 +0000
Subject: [PATCH 20/32] fix: neighbors of a site in a lattice

Sites were listed several times if the cutoff reached half the size of a
periodic lattice, with distances that were not the smallest ones. The list for
the whole lattice missed pairs lying diagonally in opposite directions, and
large cutoffs overflowed. Consider only the closest image of each site and use
the same code for all of the methods.
---
 .../charge_transport/cuboid_lattice.cpp       | 141 ++++--------------
 1 file changed, 26 insertions(+), 115 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
index c376323..ee74cec 100644
--- a/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
+++ b/CoarseGrainSites/src/libmythical/charge_transport/cuboid_lattice.cpp
@@ -100,40 +100,45 @@ namespace mythical {
 
     std::vector<std::pair<int,double>> Cuboid::getNeighborDistances_(const std::vector<int> pos_i, const double cutoff) const {
 
-      // Calculate the number of sites that will be within the cutoff 
-      int num_sites = static_cast<int>(std::floor(cutoff/inter_site_distance_));  
+      // Calculate the number of sites that will be within the cutoff, there is
+      // no need to look further than the size of the lattice
+      const double max_sites = static_cast<double>(max(length_, max(width_, height_)));
+      const int num_sites = static_cast<int>(std::floor(min(cutoff/inter_site_distance_, max_sites)));
 
       const int x = pos_i.at(0);
       const int y = pos_i.at(1);
       const int z = pos_i.at(2);
       const int index = getIndex_(x, y, z);
-      const int x_min = pos_i.at(0) - num_sites;
-      const int x_max = pos_i.at(0) + num_sites;
-      const int y_min = pos_i.at(1) - num_sites;
-      const int y_max = pos_i.at(1) + num_sites;
-      const int z_min = pos_i.at(2) - num_sites;
-      const int z_max = pos_i.at(2) + num_sites;
-
-      const int max_num_neigh =2*num_sites*2*num_sites*2*num_sites;
+
+      // In the periodic directions only consider the closest image of each site
+      const bool x_periodic = x_bound_ == BoundarySetting::Periodic;
+      const bool y_periodic = y_bound_ == BoundarySetting::Periodic;
+      const bool z_periodic = z_bound_ == BoundarySetting::Periodic;
+      const int x_min = x - ( x_periodic ? min(num_sites, (length_-1)/2) : num_sites );
+      const int x_max = x + ( x_periodic ? min(num_sites, length_/2) : num_sites );
+      const int y_min = y - ( y_periodic ? min(num_sites, (width_-1)/2) : num_sites );
+      const int y_max = y + ( y_periodic ? min(num_sites, width_/2) : num_sites );
+      const int z_min = z - ( z_periodic ? min(num_sites, (height_-1)/2) : num_sites );
+      const int z_max = z + ( z_periodic ? min(num_sites, height_/2) : num_sites );
+
       std::vector<std::pair<int,double>> neighbors;
-      neighbors.reserve(max_num_neigh);
 
       for ( int x_ind = x_min; x_ind <= x_max; ++x_ind ) {
         int x_lattice_pos = x_ind;
-        if ( x_bound_ == BoundarySetting::Periodic ) {
+        if ( x_periodic ) {
           x_lattice_pos = getXPeriodic_(x_ind);
         }       
         if ( x_lattice_pos >= 0 && x_lattice_pos < length_ ) {
           for ( int y_ind = y_min; y_ind <= y_max; ++y_ind ) {
             int y_lattice_pos = y_ind;
-            if ( y_bound_ == BoundarySetting::Periodic ) {
+            if ( y_periodic ) {
               y_lattice_pos = getYPeriodic_(y_ind);
             }       
             if ( y_lattice_pos >= 0 && y_lattice_pos < width_ ) {
               for ( int z_ind = z_min; z_ind <= z_max; ++z_ind ){
                 int z_lattice_pos = z_ind;
 
-                if ( z_bound_ == BoundarySetting::Periodic ) {
+                if ( z_periodic ) {
                   z_lattice_pos = getZPeriodic_(z_ind);
                 }       
                 if ( z_lattice_pos >= 0 && z_lattice_pos < height_ ) {
@@ -361,56 +366,10 @@ namespace mythical {
 
     std::vector<int> Cuboid::getNeighbors(const int index, const double cutoff) const {
       checkIndex_(index);
-      std::vector<int> pos_i = getPosition(index);
-      // Calculate the number of sites that will be within the cutoff 
-      int num_sites = static_cast<int>(std::floor(cutoff/inter_site_distance_));  
-
-      const int x = pos_i.at(0);
-      const int y = pos_i.at(1);
-      const int z = pos_i.at(2);
-      const int x_min = x - num_sites;
-      const int x_max = x + num_sites;
-      const int y_min = y - num_sites;
-      const int y_max = y + num_sites;
-      const int z_min = z - num_sites;
-      const int z_max = z + num_sites;
-
-      const int max_num_neigh = 2*num_sites*2*num_sites*2*num_sites;
       std::vector<int> neighbors;
-      neighbors.reserve(max_num_neigh);
-
-      for ( int x_ind = x_min; x_ind <= x_max; ++x_ind ) {
-        int x_lattice_pos = x_ind;
-        if ( x_bound_ == BoundarySetting::Periodic ) {
-          x_lattice_pos = getXPeriodic_(x_ind);
-        }       
-        if ( x_lattice_pos >= 0 && x_lattice_pos < length_ ) {
-          for ( int y_ind = y_min; y_ind <= y_max; ++y_ind ) {
-            int y_lattice_pos = y_ind;
-            if ( y_bound_ == BoundarySetting::Periodic ) {
-              y_lattice_pos = getYPeriodic_(y_ind);
-            }       
-            if ( y_lattice_pos >= 0 && y_lattice_pos < width_ ) {
-              for ( int z_ind = z_min; z_ind <= z_max; ++z_ind ){
-                int z_lattice_pos = z_ind;
-
-                if ( z_bound_ == BoundarySetting::Periodic ) {
-                  z_lattice_pos = getZPeriodic_(z_ind);
-                }       
-                if ( z_lattice_pos >= 0 && z_lattice_pos < height_ ) {
-                  double dist = getDistance_(x_ind, y_ind, z_ind, pos_i.at(0), pos_i.at(1), pos_i.at(2));
-                  if ( dist <= cutoff ) {
-                    int neigh_ind = getIndex_(x_lattice_pos, y_lattice_pos, z_lattice_pos);
-                    if( neigh_ind != index ) {
-                      neighbors.push_back(neigh_ind);
-                    }
-                  }
-                }
-              } // for z
-            }
-          } // for y
-        }
-      } // for x
+      for ( const std::pair<int,double> & neighbor : getNeighborDistances_(getPos_(index), cutoff) ) {
+        neighbors.push_back(neighbor.first);
+      }
       return neighbors;
     }
 
@@ -435,62 +394,14 @@ namespace mythical {
 
     std::unordered_map<int, std::unordered_map<int,double>> Cuboid::getNeighborDistances(const double cutoff) const {
 
-      // Calculate the number of sites that will be within the cutoff 
-      int num_sites = static_cast<int>(std::floor(cutoff/inter_site_distance_));  
-      
       int total_num_sites = length_*width_*height_;
-      // So as not to return redundant info, only provide distance if the 
-      // neighbor has a smaller index
       std::unordered_map<int, std::unordered_map<int, double>> neigh_distances;
 
       for ( int index = 0; index < total_num_sites; ++index ) {
-        
-        std::vector<int> pos_i = getPos_(index);
-        const int x = pos_i.at(0);
-        const int y = pos_i.at(1);
-        const int z = pos_i.at(2);
-
-        const int x_min = x - num_sites;
-        const int x_max = x;
-        const int y_min = y - num_sites;
-        const int y_max = y;
-        const int z_min = z - num_sites;
-        const int z_max = z;
-
-        for ( int x_ind = x_min; x_ind <= x_max; ++x_ind ) {
-          int x_lattice_pos = x_ind;
-          if ( x_bound_ == BoundarySetting::Periodic ) {
-            x_lattice_pos = getXPeriodic_(x_ind);
-          }       
-          if ( x_lattice_pos >= 0 && x_lattice_pos < length_ ) {
-            for ( int y_ind = y_min; y_ind <= y_max; ++y_ind ) {
-              int y_lattice_pos = y_ind;
-              if ( y_bound_ == BoundarySetting::Periodic ) {
-                y_lattice_pos = getYPeriodic_(y_ind);
-              }       
-              if ( y_lattice_pos >= 0 && y_lattice_pos < width_ ) {
-                for ( int z_ind = z_min; z_ind <= z_max; ++z_ind ){
-                  int z_lattice_pos = z_ind;
-
-                  if ( z_bound_ == BoundarySetting::Periodic ) {
-                    z_lattice_pos = getZPeriodic_(z_ind);
-                  }       
-                  if ( z_lattice_pos >= 0 && z_lattice_pos < height_ ) {
-                    double dist = getDistance_(x_ind, y_ind, z_ind, pos_i.at(0), pos_i.at(1), pos_i.at(2));
-                    if ( dist <= cutoff ) {
-                      int neigh_index = getIndex_(x_lattice_pos, y_lattice_pos, z_lattice_pos);
-                      if ( neigh_index != index ) {
-                        neigh_distances[neigh_index][index] = dist;
-                        neigh_distances[index][neigh_index] = dist;
-                      }
-                    }
-                  }
-                } // for z
-              }
-            } // for y
-          }
-        } // for x
-      } // index
+        for ( const std::pair<int,double> & neighbor : getNeighborDistances_(getPos_(index), cutoff) ) {
+          neigh_distances[index][neighbor.first] = neighbor.second;
+        }
+      }
       return neigh_distances;
     }
 
-- 
2.43.0


From d0eab7a8530386eafd3bc15af458fabc6ac43162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:02 +0000
Subject: [PATCH 21/32] fix: make basin exploration independent of memory
 addresses

Edges were kept in a set that hashes their addresses. With equal rates the
order in which sites are explored, and hence the trajectory of a walker,
depended on the state of the heap even though the random seed was set.
---
 CoarseGrainSites/src/libmythical/basin_explorer.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/basin_explorer.cpp b/CoarseGrainSites/src/libmythical/basin_explorer.cpp
index 4a07888..49af3e8 100644
--- a/CoarseGrainSites/src/libmythical/basin_explorer.cpp
+++ b/CoarseGrainSites/src/libmythical/basin_explorer.cpp
@@ -1,5 +1,5 @@
 
-#include <unordered_set>
+#include <vector>
 
 #include "basin_explorer.hpp"
 #include "graph_library_adapter.hpp"
@@ -10,7 +10,9 @@ using namespace std;
 
 namespace mythical {
 
-  typedef unordered_set<shared_ptr<Edge>> shared_edge_set;
+  // The edges must be stored in a reproducible order, which is not the case for
+  // a container that hashes their addresses
+  typedef vector<shared_ptr<Edge>> shared_edge_vec;
   typedef vector<weak_ptr<Edge>> weak_edge_vec;
 
   vector<int> BasinExplorer::findBasin(
@@ -19,7 +21,7 @@ namespace mythical {
       int siteId){
     
     auto edges_store = 
-      convertSitesOutgoingRatesToSharedWeightedEdges<shared_edge_set>( sites, siteId);
+      convertSitesOutgoingRatesToSharedWeightedEdges<shared_edge_vec>( sites, siteId);
 
     weak_edge_vec edges_weak(edges_store.begin(),edges_store.end());
 
@@ -45,10 +47,10 @@ namespace mythical {
       auto next_vertex = gv_largest_known.chooseTerminalVertex(next_edge);
 
       gv_largest_known.exploreEdge(next_edge);
-      auto edges_tmp = convertSitesOutgoingRatesToSharedWeightedEdges<shared_edge_set>( sites, next_vertex);
+      auto edges_tmp = convertSitesOutgoingRatesToSharedWeightedEdges<shared_edge_vec>( sites, next_vertex);
       
       weak_edge_vec edges_weak_tmp(edges_tmp.begin(),edges_tmp.end());
-      edges_store.insert(edges_tmp.begin(),edges_tmp.end());
+      edges_store.insert(edges_store.end(),edges_tmp.begin(),edges_tmp.end());
 
       addEdges_(sites,edges_weak_tmp,next_vertex,gv_largest_known);
  
-- 
2.43.0


From e914ba30a8d3f3e393adeb2e998704034f188122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:10 +0000
Subject: [PATCH 22/32] fix: a rejected initializeSystem call leaves sites
 behind and shifts the seed

Sites were added until the first one that already existed, and the random
seed was advanced for the rejected site, so the rest of the simulation was
changed by a call that had thrown.
---
 .../src/libmythical/coarsegrainsystem.cpp            | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
index 1d898c0..a61ac8e 100644
--- a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
+++ b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
@@ -91,6 +91,18 @@ namespace mythical {
           "before you can initialize the system.");
     }
 
+    // Reject sites that already exist before anything is changed
+    for (const pair<const int,unordered_map<int,double>> & site_and_rates : ratesOfAllSites){
+      bool known = sites_->exist(site_and_rates.first);
+      for(const pair<const int,double> & neigh_and_rate : site_and_rates.second){
+        known = known || sites_->exist(neigh_and_rate.first);
+      }
+      if(known){
+        throw invalid_argument("Cannot initialize the system with sites that "
+            "have already been added.");
+      }
+    }
+
     for (auto it = ratesOfAllSites.begin(); it != ratesOfAllSites.end(); ++it) {
       Site site;
       site.setId(it->first);
-- 
2.43.0


From 5ea25b73103517378999a9a10bc0647e29aeff34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:10 +0000
Subject: [PATCH 23/32] fix: a rejected initializeWalkers call places part of
 the walkers

The walkers ahead of an unplaced or misplaced one were put on their sites
before the exception was thrown.
---
 CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
index a61ac8e..1ca4de0 100644
--- a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
+++ b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
@@ -177,6 +177,11 @@ namespace mythical {
           "within the rates parameter.";
         throw runtime_error(error_msg);
       }
+    }
+
+    // Only once all of the walkers are known to be valid
+    for ( size_t index = 0; index<walkers.size(); ++index){
+      int siteId = walkers.at(index).second->getIdOfSiteCurrentlyOccupying();
       topology_features_[siteId]->occupy(siteId);
 
       auto hopTime = topology_features_[siteId]->getDwellTime(walkers.at(index).first);
-- 
2.43.0


From 53bdd9636332bd87c8da81e9a73d4b06bf9961a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:10 +0000
Subject: [PATCH 24/32] fix: walkers on or heading to unknown sites crash hop
 and removeWalkerFromSystem

A null pointer was stored for the unknown site and dereferenced.
---
 CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
index 1ca4de0..ba5b8c6 100644
--- a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
+++ b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
@@ -218,6 +218,10 @@ namespace mythical {
   void CoarseGrainSystem::removeWalkerFromSystem(int walker_id, std::shared_ptr<Walker>& walker) {
     LOG("Walker is being removed from system", 1);
     auto siteId = walker->getIdOfSiteCurrentlyOccupying();
+    if(topology_features_.count(siteId)==0){
+      throw invalid_argument("Cannot remove a walker that is not on a site of "
+          "the system.");
+    }
     topology_features_[siteId]->removeWalker(walker_id,siteId);
   }
 
@@ -232,6 +236,10 @@ namespace mythical {
   void CoarseGrainSystem::hop(int walker_id, std::shared_ptr<Walker> & walker) {
     const int & siteId = walker->getIdOfSiteCurrentlyOccupying();
     const int & siteToHopToId = walker->getPotentialSite();
+    if(topology_features_.count(siteId)==0 || topology_features_.count(siteToHopToId)==0){
+      throw invalid_argument("Cannot hop, the walker must be on a site of the "
+          "system and have one to hop to.");
+    }
     TopologyFeature * feature = topology_features_[siteId];
     TopologyFeature * feature_to_hop_to = topology_features_[siteToHopToId];
 
-- 
2.43.0


From 54bff81cde2bce8c00b790ec05cdf4d04f12108c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:53 +0000
Subject: [PATCH 25/32] fix: visit counts of coarse grained sites overflow an
 int

---
 .../include/mythical/coarsegrainsystem.hpp         |  2 +-
 .../src/libmythical/coarsegrainsystem.cpp          |  4 ++--
 .../src/libmythical/topologyfeatures/cluster.cpp   | 14 +++++++-------
 .../src/libmythical/topologyfeatures/cluster.hpp   |  6 +++---
 4 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/CoarseGrainSites/include/mythical/coarsegrainsystem.hpp b/CoarseGrainSites/include/mythical/coarsegrainsystem.hpp
index 272b5cd..29b3fb6 100644
--- a/CoarseGrainSites/include/mythical/coarsegrainsystem.hpp
+++ b/CoarseGrainSites/include/mythical/coarsegrainsystem.hpp
@@ -154,7 +154,7 @@ class CoarseGrainSystem {
    **/
   int getClusterIdOfSite(const int siteId);
 
-  int getVisitFrequencyOfSite(const int siteId);
+  long getVisitFrequencyOfSite(const int siteId);
 
   /**
    * \brief Determines how often to check for coarse graining
diff --git a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
index ba5b8c6..8c5f7b5 100644
--- a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
+++ b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
@@ -134,13 +134,13 @@ namespace mythical {
     }
   }
 
-  int CoarseGrainSystem::getVisitFrequencyOfSite(const int siteId){
+  long CoarseGrainSystem::getVisitFrequencyOfSite(const int siteId){
     if(sites_->exist(siteId)==false){
       throw invalid_argument("Site is not stored in the coarse grained system you"
           " cannot retrieve it's visit frequency.");
     }
 
-    int visits = sites_->getSite(siteId).getVisitFrequency();
+    long visits = sites_->getSite(siteId).getVisitFrequency();
     if(sites_->partOfCluster(siteId)){
       int cluster_id = sites_->getClusterIdOfSite(siteId);
       visits += clusters_->getCluster(cluster_id).getVisitFrequency(siteId);
diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index bfb5cc6..b98644e 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -99,7 +99,7 @@ void Cluster::addSites(vector<Site>& newSites) {
 
 void Cluster::updateProbabilitiesAndTimeConstant() {
 
-  unordered_map<int,int> temporary_visit_frequencies = getVisitFrequencies_();
+  unordered_map<int,long> temporary_visit_frequencies = getVisitFrequencies_();
 
   // The rates are stored externally and may have been changed
   for (auto & site : sitesInCluster_) {
@@ -124,8 +124,8 @@ void Cluster::updateProbabilitiesAndTimeConstant() {
 
 }
 
-unordered_map<int,int> Cluster::getVisitFrequencies_(){
-  unordered_map<int,int> frequencies;
+unordered_map<int,long> Cluster::getVisitFrequencies_(){
+  unordered_map<int,long> frequencies;
 
   for(auto site :site_visits_){
     frequencies[site.first] = getVisitFrequency(site.first);    
@@ -160,7 +160,7 @@ double Cluster::getProbabilityOfOccupyingInternalSite(const int siteId) {
 
 void Cluster::migrateSitesFrom(Cluster& cluster) {
 
-  unordered_map<int,int> visits;
+  unordered_map<int,long> visits;
   for (auto& site : cluster.sitesInCluster_) {
     site.second.setClusterId(getId());
     visits[site.first] = cluster.getVisitFrequency(site.first);
@@ -239,7 +239,7 @@ double Cluster::getDwellTime(const int & walker_id) {
   return dwell_time;
 }
 
-void Cluster::setVisitFrequency(int frequency,const int & siteId){
+void Cluster::setVisitFrequency(long frequency,const int & siteId){
   assert(site_visits_.count(siteId) && "Be sure to call occupy site to register"
       " a visit");
   assert(escape_time_constant_!=constants::unassigned_value && "Cannot set the "
@@ -252,7 +252,7 @@ void Cluster::setVisitFrequency(int frequency,const int & siteId){
   site_visits_[siteId] = visits;
 }
 
-int Cluster::getVisitFrequency(const int & siteId){
+long Cluster::getVisitFrequency(const int & siteId){
   assert(site_visits_.count(siteId));
   assert(escape_time_constant_!=constants::unassigned_value && "Cannot get the "
       "visit frequency as the escape_time_constant is not defined. Be sure "
@@ -277,7 +277,7 @@ int Cluster::getVisitFrequency(const int & siteId){
   }
 
   double visit_count = (site_visits_[siteId]); 
-  return static_cast<int>(round(visit_count)); 
+  return static_cast<long>(round(visit_count)); 
 }
 
 std::ostream& operator<<(std::ostream& os,
diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp
index 72d8b8b..ec49457 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp
@@ -261,8 +261,8 @@ class Cluster : public TopologyFeature {
 
   double getFastestRateOffCluster();
 
-  void setVisitFrequency(int frequency,const int & siteId);
-  int getVisitFrequency(const int & siteId);
+  void setVisitFrequency(long frequency,const int & siteId);
+  long getVisitFrequency(const int & siteId);
 
   /**
    * \brief Prints the contents of the cluster
@@ -365,7 +365,7 @@ class Cluster : public TopologyFeature {
 
   //void incrementVisits_();
 
-  std::unordered_map<int,int> getVisitFrequencies_();
+  std::unordered_map<int,long> getVisitFrequencies_();
 
   /// Will solve the Master Equation
   void solveMasterEquation_();
-- 
2.43.0


From 8ec8884a3a8ca2c7bd658d2444f064b723ae4ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:48 +0000
Subject: [PATCH 26/32] fix: clusters joined by slow rates are far from
 equilibrium

---
 .../src/libmythical/coarsegrainsystem.cpp     |  2 +-
 .../libmythical/topologyfeatures/cluster.cpp  | 73 ++++++++++++++++---
 .../libmythical/topologyfeatures/cluster.hpp  |  2 +
 3 files changed, 66 insertions(+), 11 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
index 8c5f7b5..99507e8 100644
--- a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
+++ b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
@@ -362,7 +362,7 @@ namespace mythical {
 
     Cluster cluster;
     cluster.setConvergenceMethod(Cluster::Method::converge_by_tolerance);
-    cluster.setConvergenceTolerance(0.001);
+    cluster.setConvergenceTolerance(1e-12);
     vector<Site> sites;
     for (auto siteId : siteIds){
       sites.push_back(sites_->getSite(siteId));
diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index b98644e..48e5b12 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -395,6 +395,45 @@ void Cluster::iterate_() {
   }
 }
 
+// Squares the matrix, stores the average of its rows as the probabilities of
+// being on the sites and returns how far a row is from the average at most
+double Cluster::doubleIterations_(vector<vector<double>>& hops,
+                                  const vector<int>& siteIds) {
+  size_t size = hops.size();
+  vector<vector<double>> squared(size, vector<double>(size, 0.0));
+  vector<double> average(size, 0.0);
+  double total = 0.0;
+  for (size_t i = 0; i < size; ++i) {
+    for (size_t k = 0; k < size; ++k) {
+      for (size_t j = 0; j < size; ++j) squared[i][j] += hops[i][k] * hops[k][j];
+    }
+    for (size_t j = 0; j < size; ++j) {
+      average[j] += squared[i][j];
+      total += squared[i][j];
+    }
+  }
+  for (size_t j = 0; j < size; ++j) {
+    average[j] /= total;
+    probabilityOnSite_[siteIds[j]] = average[j];
+  }
+
+  double error = 0.0;
+  for (auto & row : squared) {
+    double sum = 0.0;
+    double distance = 0.0;
+    for (double value : row) sum += value;
+    if (sum == 0.0) continue;
+    for (size_t j = 0; j < size; ++j) {
+      distance += pow(row[j] / sum - average[j], 2.0);
+      // Walkers are lost with every hop off the cluster
+      row[j] /= total;
+    }
+    error = max(error, pow(distance, 1.0 / 2.0));
+  }
+  hops.swap(squared);
+  return error;
+}
+
 void Cluster::solveMasterEquation_() {
 
   initializeProbabilityOnSites_();
@@ -412,17 +451,31 @@ void Cluster::solveMasterEquation_() {
       iterate_();
     }
   } else {
-    double error = convergenceTolerance_ * 1.1;
-
-    while (error > convergenceTolerance_) {
-      auto oldSiteProbs = probabilityOnSite_;
-      iterate_();
-      error = 0.0;
-      for (auto site : oldSiteProbs) {
-        auto diff = oldSiteProbs[site.first] - probabilityOnSite_[site.first];
-        error += pow(diff, 2.0);
+    // The steps of the iteration are no measure of the error, if the sites are
+    // connected by slow rates the steps are tiny from the very beginning. Hence
+    // the number of iterations is doubled, by squaring the matrix of a single
+    // iteration, until the site a walker started on makes no difference.
+    vector<int> siteIds = getSiteIdsInCluster();
+    size_t size = siteIds.size();
+    unordered_map<int, size_t> index;
+    for (size_t i = 0; i < size; ++i) index[siteIds[i]] = i;
+
+    vector<vector<double>> hops(size, vector<double>(size, 0.0));
+    for (size_t i = 0; i < size; ++i) {
+      Site & site = sitesInCluster_[siteIds[i]];
+      hops[i][i] += 0.5;
+      for (auto neighsite : site.getNeighborSiteIds()) {
+        if (siteIsInCluster(neighsite)) {
+          hops[i][index[neighsite]] +=
+            0.5 * site.getProbabilityOfHoppingToNeighboringSite(neighsite);
+        }
       }
-      error = pow(error, 1.0 / 2.0);
+    }
+
+    double error = convergenceTolerance_ * 1.1;
+    const int max_doublings = 60;
+    for (int i = 0; i < max_doublings && error > convergenceTolerance_; ++i) {
+      error = doubleIterations_(hops, siteIds);
     }
   }
   calculateProbabilityHopToInternalSite_();
diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp
index ec49457..d62814b 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp
@@ -434,6 +434,8 @@ class Cluster : public TopologyFeature {
         getRatesBetweenInternalSites_();
 
     void iterate_();
+    double doubleIterations_(std::vector<std::vector<double>>& hops,
+                             const std::vector<int>& siteIds);
 
     void calculateProbabilityHopToNeighbors_();
     void calculateProbabilityHopToInternalSite_();
-- 
2.43.0


From be682dc890dac31def8ff1dee8f812e5ebb9a98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:21 +0000
Subject: [PATCH 27/32] fix: hop counter and coarse graining threshold overflow
 an int

---
 CoarseGrainSites/include/mythical/coarsegrainsystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CoarseGrainSites/include/mythical/coarsegrainsystem.hpp b/CoarseGrainSites/include/mythical/coarsegrainsystem.hpp
index 29b3fb6..5993feb 100644
--- a/CoarseGrainSites/include/mythical/coarsegrainsystem.hpp
+++ b/CoarseGrainSites/include/mythical/coarsegrainsystem.hpp
@@ -241,10 +241,10 @@ class CoarseGrainSystem {
 
   /// Keeps track of the number of iterations. Is reset after passing the
   /// iteration threshold. 
-  int iteration_;
+  long iteration_;
 
   /// How many interactions occur before coarse graining is tested
-  int iteration_threshold_;
+  long iteration_threshold_;
 
   /// The iteration threshold is reset to the min value if a cluster is found
   int iteration_threshold_min_;
-- 
2.43.0


From c9669e95b8d98e8c351660020f62334174e8aa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:56 +0000
Subject: [PATCH 28/32] fix: visit counts overflow an int

---
 .../src/libmythical/topologyfeatures/cluster.hpp       |  2 +-
 .../libmythical/topologyfeatures/topology_feature.hpp  | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp
index d62814b..543a54c 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.hpp
@@ -275,7 +275,7 @@ class Cluster : public TopologyFeature {
    * Local Cluster Variables
    ************************************************************************/
   /// Previous number of cluster visits
-  int prev_total_visit_freq_;
+  long prev_total_visit_freq_;
 
   /// Relates to how coarse grained the dwell time will be
   double resolution_;
diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/topology_feature.hpp b/CoarseGrainSites/src/libmythical/topologyfeatures/topology_feature.hpp
index 144cd0f..d98992d 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/topology_feature.hpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/topology_feature.hpp
@@ -28,7 +28,7 @@ class TopologyFeature : public virtual Identity {
    * \brief Keeps track of the total number of time the feature has been
    * visited by a particle
    **/
-  int total_visit_freq_;
+  long total_visit_freq_;
 
   /**
    * \brief Keeps track of whether a feature is currently occupied
@@ -183,14 +183,14 @@ class TopologyFeature : public virtual Identity {
   virtual int pickNewSiteId(const int & walker_id) = 0;
   virtual int pickNewSiteId() { return -1;}
 
-  virtual void setVisitFrequency(const int & frequency) 
+  virtual void setVisitFrequency(const long & frequency) 
   { total_visit_freq_ = frequency;}
-  virtual void setVisitFrequency(const int & frequency, int) 
+  virtual void setVisitFrequency(const long & frequency, int) 
   { total_visit_freq_ = frequency;}
 
-  virtual int getVisitFrequency() 
+  virtual long getVisitFrequency() 
   { return total_visit_freq_; }
-  virtual int getVisitFrequency(int) 
+  virtual long getVisitFrequency(int) 
   { return total_visit_freq_; }
 
 
-- 
2.43.0


From 0ebbbc26c5f8799c3793c1f240cd6864457561a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:49 +0000
Subject: [PATCH 29/32] fix: sites listed without rates are not found to be
 sinks

A rate map may list a site that has no rates, as the one of
Site_Container::getRates does for drains. Such a site was taken for one with
outgoing rates as long as it was part of the first map to be added, and hence
was never returned by getSinkSiteIds.
---
 CoarseGrainSites/src/libmythical/rate_container.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CoarseGrainSites/src/libmythical/rate_container.cpp b/CoarseGrainSites/src/libmythical/rate_container.cpp
index 7ae06cb..72c6a68 100644
--- a/CoarseGrainSites/src/libmythical/rate_container.cpp
+++ b/CoarseGrainSites/src/libmythical/rate_container.cpp
@@ -83,7 +83,9 @@ namespace mythical {
 
   unordered_set<int> Rate_Container::getSiteIdsWithOutgoingRates_(){
     unordered_set<int> siteIds;
-    for( auto site : rates_ ) siteIds.insert(site.first);
+    for( auto site : rates_ ) {
+      if(!site.second.empty()) siteIds.insert(site.first);
+    }
     return siteIds;
   }
 
-- 
2.43.0


From 97c537cf40b96abef8e3cdd3e575813176cfd82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:19 +0000
Subject: [PATCH 30/32] fix: a rejected bulk addition adds a part of the
 entries

Adding several rates, sites or clusters of which one exists throws, but by then
the ones before it had been added to the container.
---
 CoarseGrainSites/src/libmythical/cluster_container.cpp | 9 +++++++++
 CoarseGrainSites/src/libmythical/rate_container.cpp    | 9 +++++++++
 CoarseGrainSites/src/libmythical/site_container.cpp    | 7 +++++++
 3 files changed, 25 insertions(+)

diff --git a/CoarseGrainSites/src/libmythical/cluster_container.cpp b/CoarseGrainSites/src/libmythical/cluster_container.cpp
index 431cbc5..bdc6d67 100644
--- a/CoarseGrainSites/src/libmythical/cluster_container.cpp
+++ b/CoarseGrainSites/src/libmythical/cluster_container.cpp
@@ -1,5 +1,6 @@
 
 #include <unordered_map>
+#include <unordered_set>
 
 #include "cluster_container.hpp"
 
@@ -16,6 +17,14 @@ namespace mythical {
   }
 
   void Cluster_Container::addClusters(vector<Cluster>& clusters){
+    // Reject clusters that already exist before anything is added
+    unordered_set<int> clusterIds;
+    for( auto & cluster : clusters){
+      if(exist(cluster.getId()) || !clusterIds.insert(cluster.getId()).second){
+        throw invalid_argument("Cannot add cluster as it is already stored in the"
+            " container.");
+      }
+    }
     for( auto & cluster : clusters){
       addCluster(cluster);
     }
diff --git a/CoarseGrainSites/src/libmythical/rate_container.cpp b/CoarseGrainSites/src/libmythical/rate_container.cpp
index 72c6a68..c8de4b6 100644
--- a/CoarseGrainSites/src/libmythical/rate_container.cpp
+++ b/CoarseGrainSites/src/libmythical/rate_container.cpp
@@ -21,6 +21,15 @@ namespace mythical {
     if(rates_.size()==0){
       rates_ = rates;
     }else{
+      // Reject rates that already exist before anything is added
+      for( auto site : rates ){
+        if(rates_.count(site.first)==0) continue;
+        for ( auto neigh : site.second ){
+          if(rates_[site.first].count(neigh.first)){
+            throw invalid_argument("Error the rate has already been added.");
+          }
+        }
+      }
       for( auto site : rates ){
         for ( auto neigh : site.second ){
           addRate(site.first,neigh.first,neigh.second); 
diff --git a/CoarseGrainSites/src/libmythical/site_container.cpp b/CoarseGrainSites/src/libmythical/site_container.cpp
index bc975ad..2e99f6c 100644
--- a/CoarseGrainSites/src/libmythical/site_container.cpp
+++ b/CoarseGrainSites/src/libmythical/site_container.cpp
@@ -13,6 +13,13 @@ namespace mythical {
   }
 
   void Site_Container::addSites(vector<Site>& sites){
+    // Reject sites that already exist before anything is added
+    unordered_set<int> siteIds;
+    for ( Site & site : sites ){
+      if(sites_.count(site.getId()) || !siteIds.insert(site.getId()).second){
+        throw invalid_argument("Cannot add site it has already been added.");
+      }
+    }
     for ( Site & site : sites ){
       addSite(site);
     }
-- 
2.43.0


From 5ae0cceff1e7181727dfce1562ae27d890b2e463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:38 +0000
Subject: [PATCH 31/32] fix: clusters created in several threads get the same
 id

---
 .../src/libmythical/topologyfeatures/cluster.cpp         | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
index 48e5b12..10cc57e 100644
--- a/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
+++ b/CoarseGrainSites/src/libmythical/topologyfeatures/cluster.cpp
@@ -1,5 +1,6 @@
 
 #include <algorithm>
+#include <atomic>
 #include <chrono>
 #include <cmath>
 #include <random>
@@ -17,8 +18,9 @@ namespace mythical {
  * Constants
  ****************************************************************************/
 
-/// Cluster Id counter is used to ensure that each new cluster has a unique id
-static int clusterIdCounter = 0;
+/// Cluster Id counter is used to ensure that each new cluster has a unique id,
+/// also when clusters are created by several threads
+static atomic<int> clusterIdCounter(0);
 
 /****************************************************************************
  * Public Facing Functions
@@ -60,8 +62,7 @@ void removeWalkerCluster_(TopologyFeature * feature,const int & walker_id){
 }
 
 Cluster::Cluster() : TopologyFeature() {
-  setId(clusterIdCounter);
-  clusterIdCounter++;
+  setId(clusterIdCounter++);
   iterations_ = 3;
   resolution_ = 20.0;
   total_visit_freq_ = 0;
-- 
2.43.0


From 714677fdf572f41baa1b6815b26009dd3e99be00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:29 +0000
Subject: [PATCH 32/32] fix: trajectories depend on the ids of clusters that
 merge

The ids are counted through the whole process, the order in an unordered_set
depends on their values. Three clusters joined at once were added to the fourth
in an order that changed with the number of clusters made before.
---
 CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
index 99507e8..3f22df4 100644
--- a/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
+++ b/CoarseGrainSites/src/libmythical/coarsegrainsystem.cpp
@@ -402,7 +402,8 @@ namespace mythical {
 
     LOG("Merging sites to cluster", 1);
     vector<Site> isolated_sites;
-    unordered_set<int> cluster_ids;
+    // In the order of the ids, they are merged one after the other
+    set<int> cluster_ids;
 
     for (auto site_and_cluster : sites_and_clusters) { 
       if(site_and_cluster.second != favoredClusterId){ 
-- 
2.43.0

