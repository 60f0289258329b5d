From 201a803ba4218e98f915ddc08e1a521f18e66be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 01/35] fix: populate resolution levels that are added when a
 matching map grows

Levels inserted on growth were left empty, so they (and the levels above)
did not bound the cells mapped before the growth.
---
 src/core/maps/rescalable_caching_grid_map.h |  3 +
 src/core/scan_matchers/m3rsm_engine.h       | 61 +++++++++++++++------
 2 files changed, 48 insertions(+), 16 deletions(-)

diff --git a/src/core/maps/rescalable_caching_grid_map.h b/src/core/maps/rescalable_caching_grid_map.h
index a723ff8..5994205 100644
--- a/src/core/maps/rescalable_caching_grid_map.h
+++ b/src/core/maps/rescalable_caching_grid_map.h
@@ -149,6 +149,8 @@ protected:
   // coraser areas update policy
   virtual void pre_area_update(const AreaId &area_id) {}
   virtual void post_area_update(const AreaId &area_id) {}
+  // is called when a new scale is added because of map growth
+  virtual void post_scale_addition(unsigned /*scale_id*/) const {}
 
   const GridMap& map(unsigned scale_id) const {
     return *(*_map_cache)[scale_id];
@@ -190,6 +192,7 @@ protected:
       auto map_params = GridMapParams{pc_w, pc_h, pc_scale};
       auto map = std::make_unique<BackGridMap>(cell_prototype(), map_params);
       _map_cache->insert((_map_cache->rbegin() + 1).base(), std::move(map));
+      post_scale_addition(_map_cache->size() - 2);
     }
   }
 
diff --git a/src/core/scan_matchers/m3rsm_engine.h b/src/core/scan_matchers/m3rsm_engine.h
index b4bb537..dd53997 100644
--- a/src/core/scan_matchers/m3rsm_engine.h
+++ b/src/core/scan_matchers/m3rsm_engine.h
@@ -105,26 +105,55 @@ protected:
     for (unsigned coarser_scale_id = scale_id() + 1;
          coarser_scale_id <= coarsest_scale_id(); ++coarser_scale_id) {
       auto& coarser_map = map(coarser_scale_id);
-      bool coarser_area_is_updated = false;
-      using GRRectangle = GridRasterizedRectangle;
-      auto cm_coords = GRRectangle{coarser_map, modified_space, false};
-      while (cm_coords.has_next()) {
-        auto coord = cm_coords.next();
-        auto &coarser_area = coarser_map[coord];
-        auto coarser_impact = estimate_spe_obstacle_impact(coarser_area);
-        // TODO: move "propagate max" to the strategy if required.
-        auto coarser_update_is_not_required =
-          !coarser_area.is_unknown() &&
-          less_or_equal(impact, coarser_impact);
-        if (coarser_update_is_not_required) { continue; }
-
-        coarser_map.reset(coord, modified_area);
-        coarser_area_is_updated = true;
+      if (!propagate_area(modified_area, modified_space,
+                          impact, coarser_map)) {
+        break;
       }
-      if (!coarser_area_is_updated) { break; }
     }
   }
 
+  // The areas mapped before the growth have to be represented
+  // on the added scale (and bounded by coarser ones).
+  void post_scale_addition(unsigned added_scale_id) const override {
+    const auto &finer_map = map(added_scale_id - 1);
+    auto &added_map = const_cast<GridMap&>(map(added_scale_id));
+    auto &coarsest_map = const_cast<GridMap&>(map(added_scale_id + 1));
+    auto raw_crd = DiscretePoint2D{0, 0};
+    for (raw_crd.x = 0; raw_crd.x < finer_map.width(); ++raw_crd.x) {
+      for (raw_crd.y = 0; raw_crd.y < finer_map.height(); ++raw_crd.y) {
+        auto area_id = finer_map.internal2external(raw_crd);
+        const auto &area = finer_map[area_id];
+        if (area.is_unknown()) { continue; }
+        auto space = finer_map.world_cell_bounds(area_id);
+        auto impact = estimate_spe_obstacle_impact(area);
+        propagate_area(area, space, impact, added_map);
+        propagate_area(area, space, impact, coarsest_map);
+      }
+    }
+  }
+
+  // returns true if at least one area of the coarser map has been updated
+  bool propagate_area(const GridCell &area, const Rectangle &space,
+                      double impact, GridMap &coarser_map) const {
+    bool coarser_area_is_updated = false;
+    using GRRectangle = GridRasterizedRectangle;
+    auto cm_coords = GRRectangle{coarser_map, space, false};
+    while (cm_coords.has_next()) {
+      auto coord = cm_coords.next();
+      auto &coarser_area = static_cast<const GridMap&>(coarser_map)[coord];
+      auto coarser_impact = estimate_spe_obstacle_impact(coarser_area);
+      // TODO: move "propagate max" to the strategy if required.
+      auto coarser_update_is_not_required =
+        !coarser_area.is_unknown() &&
+        less_or_equal(impact, coarser_impact);
+      if (coarser_update_is_not_required) { continue; }
+
+      coarser_map.reset(coord, area);
+      coarser_area_is_updated = true;
+    }
+    return coarser_area_is_updated;
+  }
+
 private:
   std::shared_ptr<ObservationImpactEstimator> _oie;
   double _prev_fine_impact;
-- 
2.43.0


From 0f2d10752803aa5effd6bcb53d603b102934402e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:58 +0000
Subject: [PATCH 02/35] fix: keep the occupancy of a totally ignorant TBM cell
 a number

The conversion divided by the zero mass of the known hypotheses.
---
 src/core/maps/tbm_grid_cells.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/maps/tbm_grid_cells.h b/src/core/maps/tbm_grid_cells.h
index 73d22e6..aeffef4 100644
--- a/src/core/maps/tbm_grid_cells.h
+++ b/src/core/maps/tbm_grid_cells.h
@@ -88,6 +88,8 @@ protected:
   // TBM -> Occ is consistent with AOO -> TBM
   Occupancy tbm2occ(const TBM& tbm) const override {
     double qual = tbm.occupied() + tbm.empty();
+    // total ignorance (e.g. zero-quality or totally contradicting evidence)
+    if (qual == 0.0) { return Occupancy{0.5, 0.0}; }
     double p_occu = tbm.occupied() / qual;
     return Occupancy { p_occu, qual };
   }
-- 
2.43.0


From c8bbe538c55c396674d41e022dded628cbab8a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:16 +0000
Subject: [PATCH 03/35] fix: brute-force enumerators start from the pose of the
 matching being done

reset() kept the base pose of the first matching, so every later matching
searched around the pose of the first one.
---
 src/core/scan_matchers/brute_force_scan_matcher.h | 1 +
 src/core/scan_matchers/pose_enumerators.h         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/core/scan_matchers/brute_force_scan_matcher.h b/src/core/scan_matchers/brute_force_scan_matcher.h
index a43ae5c..aa506f1 100644
--- a/src/core/scan_matchers/brute_force_scan_matcher.h
+++ b/src/core/scan_matchers/brute_force_scan_matcher.h
@@ -34,6 +34,7 @@ public:
   }
 
   void reset() override {
+    _base_pose_is_set = false;
     _x = _from_x;
     _y = _from_y;
     _t = _from_t;
diff --git a/src/core/scan_matchers/pose_enumerators.h b/src/core/scan_matchers/pose_enumerators.h
index 9e914b7..214d40c 100644
--- a/src/core/scan_matchers/pose_enumerators.h
+++ b/src/core/scan_matchers/pose_enumerators.h
@@ -42,6 +42,7 @@ public:
   }
 
   void reset() override {
+    _base_pose_is_set = false;
     _dir = _from_dir;
     _dst = _from_dst;
   }
-- 
2.43.0


From c79ba323ab5d7c54ba6fae76f3eb68fc030bc728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:16 +0000
Subject: [PATCH 04/35] fix: a direction that rounds to 180 degrees falls into
 a bucket of the angle histogram

estimate_ox_based_angle could return exactly M_PI for an almost horizontal
pair of points, which hist_index asserts against (and is out of range).
---
 src/core/features/angle_histogram.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/core/features/angle_histogram.h b/src/core/features/angle_histogram.h
index 51d2152..0dccee4 100644
--- a/src/core/features/angle_histogram.h
+++ b/src/core/features/angle_histogram.h
@@ -84,15 +84,14 @@ public:
       angle = M_PI - angle;
     }
 
-    return angle;
+    return angle < M_PI ? angle : 0; // 180 is equivalent to 0
   }
 
 protected:
   std::size_t hist_index(double angle) const {
     assert(0 <= angle && angle < M_PI);
     auto hist_i = std::size_t(std::floor(angle / angle_step()));
-    assert(hist_i < _hist.size());
-    return hist_i;
+    return std::min(hist_i, _hist.size() - 1); // rounding next to 180
   }
 
 private:
-- 
2.43.0


From da7b2a5814957dfbfaef599173bc56524bcd3149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:16 +0000
Subject: [PATCH 05/35] fix: hill climbing with frame alignment probes along
 the aligned frame

FailedRoundsLimitedPoseEnumerator dropped the frame rotation it was given, so
use_frame_alignement had no effect.
---
 src/core/scan_matchers/hill_climbing_scan_matcher.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/scan_matchers/hill_climbing_scan_matcher.h b/src/core/scan_matchers/hill_climbing_scan_matcher.h
index f5795bc..fe83c56 100644
--- a/src/core/scan_matchers/hill_climbing_scan_matcher.h
+++ b/src/core/scan_matchers/hill_climbing_scan_matcher.h
@@ -76,7 +76,8 @@ public:
                                     double frame_rotation = 0)
     : _max_failed_rounds{max_failed_rounds}
     , _base_translation_delta{translation_delta}
-    , _base_rotation_delta{rotation_delta} {
+    , _base_rotation_delta{rotation_delta}
+    , _frame_rotation{frame_rotation} {
     reset();
   }
 
@@ -111,12 +112,13 @@ public:
 
 private:
   void reset_round(double translation_delta, double rotation_delta) {
-    _round_pe = {_translation_delta, _rotation_delta};
+    _round_pe = {_translation_delta, _rotation_delta, _frame_rotation};
     _round_failed = true;
   }
 private:
   unsigned _max_failed_rounds;
   double _base_translation_delta, _base_rotation_delta;
+  double _frame_rotation;
 
   unsigned _failed_rounds;
   double _translation_delta, _rotation_delta;
@@ -157,6 +159,7 @@ private:
     auto hist = AngleHistogram{20};
     hist.reset(scan);
     double frame_rot = hist.major_direction();
+    if (std::isnan(frame_rot)) { frame_rot = 0; } // no directions in the scan
 
     auto pe = std::make_shared<HCPE>(_max_lookup_failed_attempts,
         _translation_delta, _rotation_delta, frame_rot);
-- 
2.43.0


From 3aaf02a62985b755ddd96eaf9d9aaefd730e67e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:22 +0000
Subject: [PATCH 06/35] fix: every gmapping particle maps on a map of its own

All the particles (initial ones and the duplicates made by resampling) shared
the grid map of the properties, so each of them matched against and extended
the maps of the others.
---
 src/slams/gmapping/gmapping_world.h | 47 ++++++++++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/src/slams/gmapping/gmapping_world.h b/src/slams/gmapping/gmapping_world.h
index 89080f3..fe15431 100644
--- a/src/slams/gmapping/gmapping_world.h
+++ b/src/slams/gmapping/gmapping_world.h
@@ -46,7 +46,7 @@ public:
                 const GMappingParams &gparams)
     // FIXME: [Performance] The adder does extra computations
     //        related to blurring that are not actually used
-    : SingleStateHypothesisLaserScanGridWorld{shw_params}
+    : SingleStateHypothesisLaserScanGridWorld{with_own_map(shw_params)}
     , _raw_odom_pose{0, 0, 0}
     , _rnd_engine(std::random_device{}())
     , _pose_guess_rv{gparams.pose_guess_rv}
@@ -54,6 +54,34 @@ public:
     reset_scan_matching_delta();
   }
 
+  GmappingWorld(const GmappingWorld &that)
+    : Particle{that}, SingleStateHypothesisLaserScanGridWorld{that}
+    , _raw_odom_pose{that._raw_odom_pose}
+    , _is_master{that._is_master}, _scan_is_first{that._scan_is_first}
+    , _rnd_engine{that._rnd_engine}
+    , _pose_guess_rv{that._pose_guess_rv}
+    , _next_sm_delta_rv{that._next_sm_delta_rv}
+    , _delta_since_last_sm{that._delta_since_last_sm}
+    , _next_sm_delta{that._next_sm_delta} {
+    own_map();
+  }
+
+  GmappingWorld& operator=(const GmappingWorld &that) {
+    if (this == &that) { return *this; }
+    Particle::operator=(that);
+    SingleStateHypothesisLaserScanGridWorld::operator=(that);
+    _raw_odom_pose = that._raw_odom_pose;
+    _is_master = that._is_master;
+    _scan_is_first = that._scan_is_first;
+    _rnd_engine = that._rnd_engine;
+    _pose_guess_rv = that._pose_guess_rv;
+    _next_sm_delta_rv = that._next_sm_delta_rv;
+    _delta_since_last_sm = that._delta_since_last_sm;
+    _next_sm_delta = that._next_sm_delta;
+    own_map();
+    return *this;
+  }
+
   void update_robot_pose(const RobotPoseDelta& delta) override {
     auto d_th = (pose() - _raw_odom_pose).theta;
     auto s = std::sin(d_th), c = std::cos(d_th);
@@ -113,6 +141,23 @@ public:
 
 private:
 
+  // The world maps on its own copy of a given map.
+  static std::shared_ptr<GridMap> copy_map(const std::shared_ptr<GridMap> &map) {
+    auto tiled_map = std::dynamic_pointer_cast<MapType>(map);
+    return tiled_map ? std::make_shared<MapType>(*tiled_map) : map;
+  }
+
+  static SingleStateHypothesisLSGWProperties
+  with_own_map(SingleStateHypothesisLSGWProperties props) {
+    props.grid_map = copy_map(props.grid_map);
+    return props;
+  }
+
+  void own_map() {
+    _map = copy_map(_map);
+    _props.grid_map = _map;
+  }
+
   void reset_scan_matching_delta() {
     _delta_since_last_sm.reset();
     _next_sm_delta = _next_sm_delta_rv.sample(_rnd_engine);
-- 
2.43.0


From f3faa4eefd960995e5c04ef57a7f566ec561951d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:22 +0000
Subject: [PATCH 07/35] fix: particle weights stay a distribution

Zero weights of all particles (e.g. every particle's first scan, matched
against an empty map) or an unknown scan probability turned all weights into
non-numbers, which disabled resampling for good.
---
 src/core/particle_filter.h          | 6 +++++-
 src/slams/gmapping/gmapping_world.h | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/core/particle_filter.h b/src/core/particle_filter.h
index e85c73a..3d57939 100644
--- a/src/core/particle_filter.h
+++ b/src/core/particle_filter.h
@@ -108,7 +108,11 @@ public: // methods
   void normalize_weights() {
     double total_weight = 0;
     for (auto &p : _particles) { total_weight += p->weight(); }
-    for (auto &p : _particles) { p->set_weight(p->weight() / total_weight); }
+    for (auto &p : _particles) {
+      // NB: no particle is preferable if all of them are impossible
+      p->set_weight(total_weight == 0 ? 1.0 / _particles.size()
+                                      : p->weight() / total_weight);
+    }
   }
 
   const ParticleT& heaviest_particle() const {
diff --git a/src/slams/gmapping/gmapping_world.h b/src/slams/gmapping/gmapping_world.h
index fe15431..b41f3d9 100644
--- a/src/slams/gmapping/gmapping_world.h
+++ b/src/slams/gmapping/gmapping_world.h
@@ -117,6 +117,12 @@ public:
                                                     map(), pose_delta);
     LaserScanGridWorld::update_robot_pose(pose_delta);
 
+    // NB: there is nothing to weigh the particle with if its map is empty
+    //     (the first scan) or the scan probability is unknown.
+    if (!_scan_is_first && !std::isnan(scan_prob)) {
+      Particle::set_weight(scan_prob * Particle::weight());
+    }
+
     // TODO: scan_prob threshold to params
     if (0.0 < scan_prob || _scan_is_first) {
       // map update accordig to original gmapping code (ref?)
@@ -124,7 +130,6 @@ public:
       _scan_is_first = false;
     }
 
-    Particle::set_weight(scan_prob * Particle::weight());
     reset_scan_matching_delta();
   }
 
-- 
2.43.0


From 3348229ddb075ca7dc736a0b5d5327ed9a9cacd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 08/35] fix: a duplicated gmapping particle draws its own noise

A duplicate copied the random engine of its source (and the zero noise of the
master), so both took the very same guesses ever after.
---
 src/slams/gmapping/gmapping_world.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/slams/gmapping/gmapping_world.h b/src/slams/gmapping/gmapping_world.h
index b41f3d9..fa9137b 100644
--- a/src/slams/gmapping/gmapping_world.h
+++ b/src/slams/gmapping/gmapping_world.h
@@ -50,7 +50,8 @@ public:
     , _raw_odom_pose{0, 0, 0}
     , _rnd_engine(std::random_device{}())
     , _pose_guess_rv{gparams.pose_guess_rv}
-    , _next_sm_delta_rv{gparams.next_sm_delta_rv} {
+    , _next_sm_delta_rv{gparams.next_sm_delta_rv}
+    , _params{gparams} {
     reset_scan_matching_delta();
   }
 
@@ -61,6 +62,7 @@ public:
     , _rnd_engine{that._rnd_engine}
     , _pose_guess_rv{that._pose_guess_rv}
     , _next_sm_delta_rv{that._next_sm_delta_rv}
+    , _params{that._params}
     , _delta_since_last_sm{that._delta_since_last_sm}
     , _next_sm_delta{that._next_sm_delta} {
     own_map();
@@ -76,6 +78,7 @@ public:
     _rnd_engine = that._rnd_engine;
     _pose_guess_rv = that._pose_guess_rv;
     _next_sm_delta_rv = that._next_sm_delta_rv;
+    _params = that._params;
     _delta_since_last_sm = that._delta_since_last_sm;
     _next_sm_delta = that._next_sm_delta;
     own_map();
@@ -142,7 +145,13 @@ public:
       GRV1D{0, 0}, GRV1D{0, 0}, GRV1D{0, 0}};
   }
   bool is_master() { return _is_master; }
-  void sample() override { _is_master = false; }
+  void sample() override {
+    _is_master = false;
+    // a duplicate of another particle (e.g. the master) has its own noise
+    _rnd_engine.seed(std::random_device{}());
+    _pose_guess_rv = _params.pose_guess_rv;
+    _next_sm_delta_rv = _params.next_sm_delta_rv;
+  }
 
 private:
 
@@ -174,6 +183,7 @@ private:
   bool _scan_is_first = true;
   RandomEngine _rnd_engine;
   RobotPoseDeltaRV<RandomEngine> _pose_guess_rv, _next_sm_delta_rv;
+  GMappingParams _params;
   RobotPoseDelta _delta_since_last_sm, _next_sm_delta;
 };
 
-- 
2.43.0


From b19fa651d0145cd149a4675fbbaecc17dafcd19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 09/35] fix: gmapping point probability follows the map and the
 point

The last probability was reused for the next point of the same cell, although
it depends on the exact point, on the map asked and on the map's updates.
---
 src/slams/gmapping/gmapping_occupancy_observation_pe.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/slams/gmapping/gmapping_occupancy_observation_pe.h b/src/slams/gmapping/gmapping_occupancy_observation_pe.h
index 08f3fe4..01af179 100644
--- a/src/slams/gmapping/gmapping_occupancy_observation_pe.h
+++ b/src/slams/gmapping/gmapping_occupancy_observation_pe.h
@@ -13,15 +13,12 @@ class GmappingOccupancyObservationPE
 public:
   GmappingOccupancyObservationPE(double fullness_th, unsigned window_size)
     : OccupancyObservationProbabilityEstimator{std::make_shared<MockOIE>()}
-    , Fullness_Th{fullness_th}, Window_Sz{int(window_size)}, _cached_prob{-1} {}
+    , Fullness_Th{fullness_th}, Window_Sz{int(window_size)} {}
   double probability(const AreaOccupancyObservation &aoo,
                      const LightWeightRectangle &,
                      const GridMap &map) const override {
     assert(aoo.is_occupied);
     auto sp_coord = map.world_to_cell(aoo.obstacle);
-    if (sp_coord == _cached_coord && _cached_prob != -1) {
-      return _cached_prob;
-    }
 
     double best_prob = 0;
     for (int d_x = -Window_Sz; d_x <= Window_Sz; ++d_x) {
@@ -33,15 +30,12 @@ public:
       }
     }
 
-    _cached_coord = sp_coord;
-    return _cached_prob = best_prob;
+    return best_prob;
   }
 
 private:
   const double Fullness_Th;
   const int Window_Sz;
-  mutable DiscretePoint2D _cached_coord;
-  mutable double _cached_prob;
 };
 
 
-- 
2.43.0


From 508032ba85c7605e38a66144e2103cc635481941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 10/35] fix: a beam through a cell corner keeps its offset in
 world_to_cells

---
 src/core/maps/regular_squares_grid.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/maps/regular_squares_grid.h b/src/core/maps/regular_squares_grid.h
index 9485a9d..7a682e9 100644
--- a/src/core/maps/regular_squares_grid.h
+++ b/src/core/maps/regular_squares_grid.h
@@ -85,10 +85,10 @@ public:
       double abs_err_diff = std::abs(e_y) - std::abs(e_x);
       if (are_equal(abs_err_diff, 0)) {
         // through cell diagonal or coord grid's line aligned
-        if      (pnt.x == end.x) { pnt.y += inc_y; }
-        else if (pnt.y == end.y) { pnt.x += inc_x; }
-        else { pnt.x += inc_x; pnt.y += inc_y; }
-        e = 0;
+        // NB: the offset of the segment has to follow the step actually made
+        if      (pnt.x == end.x) { pnt.y += inc_y; e = e_y; }
+        else if (pnt.y == end.y) { pnt.x += inc_x; e = e_x; }
+        else { pnt.x += inc_x; pnt.y += inc_y; e = e_x + e_y - e; }
       } else if (0 < abs_err_diff) {
         pnt.x += inc_x;
         e = e_x;
-- 
2.43.0


From 4583c06d88731e76733127091d4e2dcd9d1af2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:24 +0000
Subject: [PATCH 11/35] fix: corner crossings are told apart at any cell size
 in world_to_cells

---
 src/core/maps/regular_squares_grid.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/maps/regular_squares_grid.h b/src/core/maps/regular_squares_grid.h
index 7a682e9..30e3544 100644
--- a/src/core/maps/regular_squares_grid.h
+++ b/src/core/maps/regular_squares_grid.h
@@ -73,6 +73,8 @@ public:
     auto e = mid_cell_seg_y - mid_cell.y * d_x; // e = actual_e * d_x
     auto e_x_inc = inc_x * m_per_cell * d_y; // slope * d_x
     auto e_y_inc = -inc_y * m_per_cell * d_x; // - d_x
+    // NB: the errors scale with both the cell size and the segment length
+    const double e_eps = 1e-7 * (std::abs(e_x_inc) + std::abs(e_y_inc));
 
     while (1) {
       cells.push_back(pnt);
@@ -83,7 +85,7 @@ public:
 
       double e_x = e + e_x_inc, e_y = e + e_y_inc;
       double abs_err_diff = std::abs(e_y) - std::abs(e_x);
-      if (are_equal(abs_err_diff, 0)) {
+      if (are_equal(abs_err_diff, 0.0, e_eps)) {
         // through cell diagonal or coord grid's line aligned
         // NB: the offset of the segment has to follow the step actually made
         if      (pnt.x == end.x) { pnt.y += inc_y; e = e_y; }
-- 
2.43.0


From f1271858d9211e2e8fec8b2d88243653b8c704cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:02 +0000
Subject: [PATCH 12/35] fix: rectangles that cross each other have an
 intersection

---
 src/core/geometry_primitives.h | 51 ++++------------------------------
 1 file changed, 6 insertions(+), 45 deletions(-)

diff --git a/src/core/geometry_primitives.h b/src/core/geometry_primitives.h
index 3249b7a..9c00279 100644
--- a/src/core/geometry_primitives.h
+++ b/src/core/geometry_primitives.h
@@ -250,7 +250,12 @@ public:
   }
 
   auto intersect(const LightWeightRectangle &that) const {
-    return intersect_internal(that, false);
+    auto ileft = std::max(left(), that.left()),
+         iright = std::min(right(), that.right()),
+         ibot = std::max(bot(), that.bot()),
+         itop = std::min(top(), that.top());
+    if (iright < ileft || itop < ibot) { return LightWeightRectangle{}; }
+    return LightWeightRectangle{ibot, itop, ileft, iright};
   }
 
   auto overlap(const LightWeightRectangle &that) const {
@@ -265,50 +270,6 @@ public:
     return *this == that ? 1.0 : 0.0;
   }
 
-private:
-
-  LightWeightRectangle intersect_internal(const LightWeightRectangle &that,
-                                          bool reversed = false) const {
-    // NB: a naive implementation; straightforward and correct (I hope so).
-    // IDEA: shrink -this- to intersection rectangle.
-
-    // FIXME: @see unit tests
-    unsigned contained_corners_nm = 0;
-    auto cleft = left(), cright = right(), ctop = top(), cbot = bot();
-
-    #define PROCESS_CORNER(horz_id, vert_id)                    \
-      if (contains(that.horz_id(), that.vert_id())) {           \
-        ++contained_corners_nm;                                 \
-        c##horz_id = that.horz_id();                            \
-        c##vert_id = that.vert_id();                            \
-      }
-
-    PROCESS_CORNER(left, bot);
-    PROCESS_CORNER(right, bot);
-    PROCESS_CORNER(left, top);
-    PROCESS_CORNER(right, top);
-
-    #undef PROCESS_CORNER
-
-    // handle corner cases based on a number of contained corners (pun intended)
-    switch (contained_corners_nm) {
-    case 0:
-      /*
-       * Either doesn't overlap or the overlap must be detected
-       * by this-in-that corners analysis (reversed).
-       */
-      // FIXME: awkward stuff
-      return reversed ? LightWeightRectangle{}
-                      : that.intersect_internal(*this, true);
-    case 1: case 2: case 4:
-      break;
-    case 3: default:
-      assert(0 && "Unexpected inclusions number");
-    }
-
-    return LightWeightRectangle{cbot, ctop, cleft, cright};
-  }
-
 private: // fields
   double _bot, _top, _left, _right;
 };
-- 
2.43.0


From 6de642dc471496a1ef10ddad1aa7df475b28b7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:00 +0000
Subject: [PATCH 13/35] fix: a beam along an edge is shifted by a share of the
 cell it is estimated for

The shift was computed once per process from the first cell; a zero-length
beam on an edge aborted.
---
 src/core/maps/area_occupancy_estimator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/maps/area_occupancy_estimator.h b/src/core/maps/area_occupancy_estimator.h
index 0667d30..1fed1eb 100644
--- a/src/core/maps/area_occupancy_estimator.h
+++ b/src/core/maps/area_occupancy_estimator.h
@@ -68,8 +68,8 @@ private: // methods
   Segment2D ensure_segment_not_on_edge(const Segment2D& s,
                                        const Rectangle &cell) const {
     // NB: Invariant: beg/end movement should not effect intersections
-    static const double Shift_Amount = _low_qual * cell.side();
-    if (!cell.has_on_edge_line(s)) { return s; }
+    const double Shift_Amount = _low_qual * cell.side();
+    if (s.is_point() || !cell.has_on_edge_line(s)) { return s; }
 
     Point2D shift;
     if (s.is_horiz()) {
-- 
2.43.0


From 6a03cbc60d500371f956659ab156afbccc4e66f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 14/35] fix: the area beyond an obstacle is told from the area
 before it anywhere in the world

---
 src/core/maps/area_occupancy_estimator.h | 28 ++++++++++++++----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/core/maps/area_occupancy_estimator.h b/src/core/maps/area_occupancy_estimator.h
index 1fed1eb..60e50e0 100644
--- a/src/core/maps/area_occupancy_estimator.h
+++ b/src/core/maps/area_occupancy_estimator.h
@@ -192,19 +192,25 @@ private: // methods
         }
       }
     } else {
-      // chunk is a trapezoid
-      // corner choise doesn't matter, so pick bottom-left one.
-      corner_x = bnds.left(), corner_y = bnds.bot();
-      double base_sum = 0;
+      // chunk is a trapezoid on the left (bottom) edge of the cell;
+      // pick its corner on the longest base, so it is not on the line
+      double base_sum = 0, max_base = 0;
       for (auto &inter : inters) {
-        if (inter.is_horiz()) {
-          base_sum += std::abs(inter.x - corner_x);
-        } else {
-          base_sum += std::abs(inter.y - corner_y);
-        }
+        double base = inter.is_horiz() ? std::abs(inter.x - bnds.left()) :
+                                         std::abs(inter.y - bnds.bot());
+        base_sum += base;
+        if (base < max_base) { continue; }
+        max_base = base;
+        corner_x = inter.is_horiz() ? bnds.left() : inter.x;
+        corner_y = inter.is_horiz() ? inter.y : bnds.bot();
       }
       // NOTE: cell is supposed to be a square
       area = 0.5 * (bnds.top() - bnds.bot()) * base_sum;
+      if (are_equal(base_sum, 0)) {
+        // the line coincides with the edge, so the chunk is the entire cell
+        corner_x = bnds.right(), corner_y = bnds.top();
+        area = bnds.area();
+      }
     }
     assert(0 <= area && area <= bnds.area() && "BUG: AOE area estimation");
     if (is_occ &&
@@ -218,8 +224,8 @@ private: // methods
   bool are_on_the_same_side(const Point2D &line_p1, const Point2D &line_p2,
                             const Point2D &p1, const Point2D &p2) {
     double dx = line_p2.x - line_p1.x, dy = line_p2.y - line_p1.y;
-    return 0 < (dy*p1.y - dx*p1.x + dy*p1.x - dx*p1.y) *
-               (dy*p2.y - dx*p2.x + dy*p2.x - dx*p2.y);
+    return 0 < (dx*(p1.y - line_p1.y) - dy*(p1.x - line_p1.x)) *
+               (dx*(p2.y - line_p1.y) - dy*(p2.x - line_p1.x));
   }
 
   Occupancy estimate_occupancy(double chunk_area, double total_area,
-- 
2.43.0


From a46626259963183a10f64f97ba5402a23cda6f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 15/35] fix: a scan shorter than its margins is not read out of
 bounds

---
 src/core/maps/grid_map_scan_adders.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/maps/grid_map_scan_adders.h b/src/core/maps/grid_map_scan_adders.h
index a912655..a24da10 100644
--- a/src/core/maps/grid_map_scan_adders.h
+++ b/src/core/maps/grid_map_scan_adders.h
@@ -62,8 +62,9 @@ public:
     _omqe->reset(scan);
 
     const auto &points = scan.points();
-    size_t last_pt_i = points.size() - scan_margin - 1;
-    for (size_t pt_i = scan_margin; pt_i <= last_pt_i; ++pt_i) {
+    // NB: margins may cover the entire scan
+    for (size_t pt_i = scan_margin; pt_i + scan_margin < points.size();
+         ++pt_i) {
       const auto &sp = points[pt_i];
       // move to world frame assume sensor is in robots' (0,0)
       const auto &wp = sp.move_origin(rp, scan.trig_provider);
-- 
2.43.0


From 0e0f38d0ed6bd35d9098c4234c1fd83b97a6bd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 16/35] fix: an unknown scan probability is recognized as
 unknown

---
 src/core/scan_matchers/grid_scan_matcher.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/scan_matchers/grid_scan_matcher.h b/src/core/scan_matchers/grid_scan_matcher.h
index aa36420..f3fa6df 100644
--- a/src/core/scan_matchers/grid_scan_matcher.h
+++ b/src/core/scan_matchers/grid_scan_matcher.h
@@ -1,6 +1,7 @@
 #ifndef SLAM_CTOR_CORE_GRID_SCAN_MATCHER_H
 #define SLAM_CTOR_CORE_GRID_SCAN_MATCHER_H
 
+#include <cmath>
 #include <vector>
 #include <memory>
 #include <algorithm>
@@ -98,7 +99,7 @@ public:
   }
 
   static bool is_prob_unknown(double probability) {
-    return probability == unknown_probability();
+    return std::isnan(probability); // NB: a NaN never equals itself
   }
 
   OOPE occupancy_observation_probability_estimator() const { return _oope; }
-- 
2.43.0


From 85c432a921911338349464e18d2a5dd42139d738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:43 +0000
Subject: [PATCH 17/35] fix: a scan without usable points is left unmatched by
 multi-resolution matching

---
 src/core/scan_matchers/bf_multi_res_scan_matcher.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/core/scan_matchers/bf_multi_res_scan_matcher.h b/src/core/scan_matchers/bf_multi_res_scan_matcher.h
index 0e8ae4c..fe29cbd 100644
--- a/src/core/scan_matchers/bf_multi_res_scan_matcher.h
+++ b/src/core/scan_matchers/bf_multi_res_scan_matcher.h
@@ -43,7 +43,17 @@ public:
                                       raw_scan.scan, rescalable_map, true);
     while (1) {
       auto best_match = _engine.next_best_match(_transl_step);
-      assert(best_match.is_valid());
+      if (!best_match.is_valid()) {
+        // the scan can't be scored (e.g. it doesn't have usable points)
+        const auto unknown_prob =
+          ScanProbabilityEstimator::unknown_probability();
+        result_pose_delta.reset();
+        do_for_each_observer([&](ObsPtr obs) {
+            obs->on_matching_end(result_pose_delta, raw_scan.scan,
+                                 unknown_prob);
+        });
+        return unknown_prob;
+      }
       if (best_match.is_finest()) {
         result_pose_delta = {best_match.translation_drift.center(),
                              best_match.rotation};
-- 
2.43.0


From a75b603bac8f9ef893675e373370b48806971999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:31 +0000
Subject: [PATCH 18/35] fix: a scan written as text keeps the full value of its
 points

---
 src/core/states/sensor_data.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/states/sensor_data.h b/src/core/states/sensor_data.h
index c35c101..4c98eb5 100644
--- a/src/core/states/sensor_data.h
+++ b/src/core/states/sensor_data.h
@@ -3,6 +3,7 @@
 
 #include <cassert>
 #include <cmath>
+#include <limits>
 #include <memory>
 #include <vector>
 #include <iostream>
@@ -176,11 +177,14 @@ private:
 };
 
 std::ostream& operator<<(std::ostream &osm, const LaserScan2D &scan) {
+  // enough digits to read the same values back
+  auto precision = osm.precision(std::numeric_limits<double>::max_digits10);
   osm << scan.points().size() << std::endl;
   for (const auto &sp : scan.points()) {
     osm << sp.range() << " " << sp.angle() << " "
         << sp.is_occupied() << std::endl;
   }
+  osm.precision(precision);
   return osm;
 }
 
-- 
2.43.0


From 7ac7a9aed059978a8557783a413455c548359093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:48 +0000
Subject: [PATCH 19/35] fix: a scanner inside an obstacle sees it where the
 scanner is

---
 src/utils/data_generation/laser_scan_generator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/data_generation/laser_scan_generator.h b/src/utils/data_generation/laser_scan_generator.h
index f9c0732..d9d3f9f 100644
--- a/src/utils/data_generation/laser_scan_generator.h
+++ b/src/utils/data_generation/laser_scan_generator.h
@@ -64,6 +64,8 @@ public:
         assert(2 == inters.size() && "BUG! LS Gen: obstacle is not pierced");
         auto obst_pnt = Point2D{(inters[0].x + inters[1].x) / 2,
                                 (inters[0].y + inters[1].y) / 2};
+        // NB: the robot may be in front of the middle of its own area
+        if (area_id == robot_coord) { obst_pnt = robot_point; }
         auto range = std::sqrt(robot_point.dist_sq(obst_pnt));
         auto scan_point = ScanPoint2D::make_polar(range, a, true);
         scan.points().push_back(scan_point);
-- 
2.43.0


From 51bbfa7bc036224d68dae0021ea94e09775d6875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:58 +0000
Subject: [PATCH 20/35] fix: the width and height of the configured map are not
 swapped

---
 src/utils/init_occupancy_mapping.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/init_occupancy_mapping.h b/src/utils/init_occupancy_mapping.h
index 2a8b1a8..59e412c 100644
--- a/src/utils/init_occupancy_mapping.h
+++ b/src/utils/init_occupancy_mapping.h
@@ -31,8 +31,8 @@ auto init_pose_quality_estimators(const PropertiesProvider &props) {
 
 auto init_grid_map_params(const PropertiesProvider &props) {
   static const std::string Map_NS = "slam/map/";
-  auto w = props.get_dbl(Map_NS + "height_in_meters", 10);
-  auto h = props.get_dbl(Map_NS + "width_in_meters", 10);
+  auto w = props.get_dbl(Map_NS + "width_in_meters", 10);
+  auto h = props.get_dbl(Map_NS + "height_in_meters", 10);
   auto scale = props.get_dbl(Map_NS + "meters_per_cell", 0.1);
   return GridMapParams{static_cast<int>(std::ceil(w / scale)),
                        static_cast<int>(std::ceil(h / scale)),
-- 
2.43.0


From dce8283ac48e07c4bfda4e7d5f372a910d08f81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:58 +0000
Subject: [PATCH 21/35] fix: the configured observation quality estimator is
 used

---
 src/utils/init_occupancy_mapping.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/init_occupancy_mapping.h b/src/utils/init_occupancy_mapping.h
index 59e412c..976c068 100644
--- a/src/utils/init_occupancy_mapping.h
+++ b/src/utils/init_occupancy_mapping.h
@@ -65,7 +65,7 @@ std::shared_ptr<ObservationMappingQualityEstimator> init_omqe(
     const PropertiesProvider &props) {
 
   static const auto MAPPING_NS = std::string{"slam/mapping/"};
-  static const auto OMQE_NS = MAPPING_NS + "observation_quality_estimator/type";
+  static const auto OMQE_NS = MAPPING_NS + "observation_quality_estimator/";
   // TODO: replace with <undefined> after config refactoring
   auto type = props.get_str(OMQE_NS + "type", "idle");
   std::cout << "Used OMQE: " << type << std::endl;
-- 
2.43.0


From 98d82dbcd1ca366d5892b33b90243e9e1b1aed63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:58 +0000
Subject: [PATCH 22/35] fix: the configured window of the gmapping estimator is
 used

---
 src/slams/gmapping/init_gmapping.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/slams/gmapping/init_gmapping.h b/src/slams/gmapping/init_gmapping.h
index 7b17882..718114a 100644
--- a/src/slams/gmapping/init_gmapping.h
+++ b/src/slams/gmapping/init_gmapping.h
@@ -39,7 +39,7 @@ auto init_gmapping_prob_estimator(const PropertiesProvider &props) {
 
   using CustomOOPE = GmappingOccupancyObservationPE;
   auto fullness_th = props.get_dbl(OOPE_Pfx + "custom/fullness_threshold", 0.1);
-  auto window_size = props.get_uint(OOPE_Pfx + "cutrom/window_size", 1);
+  auto window_size = props.get_uint(OOPE_Pfx + "custom/window_size", 1);
   auto oope = std::make_shared<CustomOOPE>(fullness_th, window_size);
   return init_spe(props, oope);
 }
-- 
2.43.0


From e44c2bd26f58472be8c73c30ca535108396ce371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:58 +0000
Subject: [PATCH 23/35] fix: the shipped limits of the multi-resolution matcher
 are read

---
 config/common/bf_m3rsm.properties | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/config/common/bf_m3rsm.properties b/config/common/bf_m3rsm.properties
index 264a906..117c208 100644
--- a/config/common/bf_m3rsm.properties
+++ b/config/common/bf_m3rsm.properties
@@ -6,6 +6,6 @@ slam/scmtch/oope/type=max
 slam/scmtch/BF_M3RSM/accuracy/rotation=0.0017
 slam/scmtch/BF_M3RSM/accuracy/translation=0.05
 # 5 degrees
-slam/scmtch/BF_M3RSM/limit/rotation=0.087
-slam/scmtch/BF_M3RSM/limit/x_translation=1
-slam/scmtch/BF_M3RSM/limit/y_translation=1
\ No newline at end of file
+slam/scmtch/BF_M3RSM/limits/rotation=0.087
+slam/scmtch/BF_M3RSM/limits/x_translation=1
+slam/scmtch/BF_M3RSM/limits/y_translation=1
\ No newline at end of file
-- 
2.43.0


From 7d0c2cac8fbbbbe98b2e87088195e481988d9dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:05 +0000
Subject: [PATCH 24/35] fix: the shipped GMapping settings name the scan
 probability estimator

Without it every run configured by gmapping_base.properties was refused
('Unknown Scan Probability Estimator type'). The values are those of
launch/gmapping_mit_run.launch.
---
 config/slams/gmapping_base.properties | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/config/slams/gmapping_base.properties b/config/slams/gmapping_base.properties
index 6ebb80e..d37c0ed 100644
--- a/config/slams/gmapping_base.properties
+++ b/config/slams/gmapping_base.properties
@@ -13,3 +13,13 @@ slam/particles/sm_delta_lim/xy/min=0.6
 slam/particles/sm_delta_lim/xy/max=0.8
 slam/particles/sm_delta_lim/theta/min=0.3
 slam/particles/sm_delta_lim/theta/max=0.4
+
+# +--------------+
+# | Localization |
+# +--------------+
+slam/scmtch/spe/type=wmpp
+slam/scmtch/spe/wmpp/weighting/type=even
+slam/scmtch/spe/wmpp/sp_skip_rate=3
+slam/scmtch/oope/type=custom
+slam/scmtch/oope/custom/fullness_threshold=0.1
+slam/scmtch/oope/custom/window_size=1
-- 
2.43.0


From 1253c55267838c517136209738f704e8b231d4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:05 +0000
Subject: [PATCH 25/35] fix: the shipped experimental vinySLAM settings name
 the occupied area model

Without it the configuration was refused ('Unknown occupied area type').
The values are those of viny_slam_base.properties.
---
 config/slams/viny_slam_experimental.properties | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/config/slams/viny_slam_experimental.properties b/config/slams/viny_slam_experimental.properties
index a8ed7a7..a5b81f6 100644
--- a/config/slams/viny_slam_experimental.properties
+++ b/config/slams/viny_slam_experimental.properties
@@ -12,6 +12,10 @@ slam/occupancy_estimator/base_occupied/qual=0.04
 slam/occupancy_estimator/base_empty/prob=0.01
 slam/occupancy_estimator/base_empty/qual=0.003
 
+slam/mapping/grid/area/type=tbm_consistent
+slam/mapping/corrected_pose_quality=0.9
+slam/mapping/raw_pose_quality=0.6
+
 # == Occupancy Map setup
 
 slam/mapping/grid/type=unbounded_plain
-- 
2.43.0


From 6b41f1c549a39aaaa60f5e523b32a82d20f446d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:35 +0000
Subject: [PATCH 26/35] fix: keep the observations number of a mean probability
 cell in its saved state

A loaded cell restarted the running mean from scratch, so the first
observation after loading replaced everything mapped before.
---
 src/core/maps/naive_grid_cells.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/core/maps/naive_grid_cells.h b/src/core/maps/naive_grid_cells.h
index 3f6f395..32345a3 100644
--- a/src/core/maps/naive_grid_cells.h
+++ b/src/core/maps/naive_grid_cells.h
@@ -39,6 +39,19 @@ public:
     GridCell::on_update();
   }
 
+  std::vector<char> serialize() const override {
+    Serializer s(GridCell::serialize());
+    s << _n;
+    return s.result();
+  }
+
+  std::size_t deserialize(const std::vector<char>& data,
+                          std::size_t pos = 0) override {
+    Deserializer d(data, GridCell::deserialize(data, pos));
+    d >> _n;
+    return d.pos();
+  }
+
 private:
   double _n;
 };
-- 
2.43.0


From 84ae982ff91d6a85078a5f412eab602d87682700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:35 +0000
Subject: [PATCH 27/35] fix: keep the hit counters and the obstacle of a
 gmapping cell in its saved state

A loaded cell forgot where its obstacle is and how often it was observed.
---
 src/slams/gmapping/gmapping_grid_cell.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/slams/gmapping/gmapping_grid_cell.h b/src/slams/gmapping/gmapping_grid_cell.h
index 7ee57a9..acff67a 100644
--- a/src/slams/gmapping/gmapping_grid_cell.h
+++ b/src/slams/gmapping/gmapping_grid_cell.h
@@ -37,6 +37,19 @@ public:
     return 1.0 - similarity;
   }
 
+  std::vector<char> serialize() const override {
+    Serializer s(GridCell::serialize());
+    s << _hits << _tries << obst.x << obst.y;
+    return s.result();
+  }
+
+  std::size_t deserialize(const std::vector<char>& data,
+                          std::size_t pos = 0) override {
+    Deserializer d(data, GridCell::deserialize(data, pos));
+    d >> _hits >> _tries >> obst.x >> obst.y;
+    return d.pos();
+  }
+
 private:
   int _hits, _tries;
   Point2D obst;
-- 
2.43.0


From 449bd27673624299e3b9dc9569b705639cb3d21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:39 +0000
Subject: [PATCH 28/35] fix: a reading that is not a number gives no scan point

---
 src/ros/laser_scan_observer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ros/laser_scan_observer.h b/src/ros/laser_scan_observer.h
index 08c4742..062f571 100644
--- a/src/ros/laser_scan_observer.h
+++ b/src/ros/laser_scan_observer.h
@@ -1,6 +1,7 @@
 #ifndef SLAM_CTOR_ROS_LASER_SCAN_OBSERVER_H_INCLUDED
 #define SLAM_CTOR_ROS_LASER_SCAN_OBSERVER_H_INCLUDED
 
+#include <cmath>
 #include <utility>
 #include <memory>
 #include <sensor_msgs/LaserScan.h>
@@ -51,7 +52,7 @@ public: //methods
       sp_angle += msg->angle_increment;
 
       // filter points by range/angle
-      if (sp_range < msg->range_min) {
+      if (std::isnan(sp_range) || sp_range < msg->range_min) {
         continue;
       } else if (msg->range_max <= sp_range) {
         sp_is_occupied = false;
-- 
2.43.0


From 1bec12ba85fb741582cd612d92c12d8b219e0592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:27 +0000
Subject: [PATCH 29/35] fix: a bag may start with scans that precede its
 transforms

---
 src/ros/bag_topic_with_transform.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ros/bag_topic_with_transform.h b/src/ros/bag_topic_with_transform.h
index c723612..e8ece26 100644
--- a/src/ros/bag_topic_with_transform.h
+++ b/src/ros/bag_topic_with_transform.h
@@ -96,6 +96,12 @@ private:
     tf::StampedTransform transform;
     try {
       _tf_cache.lookupTransform(_target_frame, frame_id, time, transform);
+    } catch (const tf::LookupException &) {
+      // ok, wait for tf transforms (a frame is not known yet)
+      return false;
+    } catch (const tf::ConnectivityException &) {
+      // ok, wait for tf transforms (the frames are not connected yet)
+      return false;
     } catch (const tf::ExtrapolationException &e) {
       auto reason = std::string{e.what()};
       if (reason.find("extrapolation into the future") != std::string::npos) {
-- 
2.43.0


From d7ce0105787dacd86d0a10e6c4624cc1c4344e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:06 +0000
Subject: [PATCH 30/35] fix: scans cached behind a dropped one are not lost
 when a bag ends

---
 src/ros/bag_topic_with_transform.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ros/bag_topic_with_transform.h b/src/ros/bag_topic_with_transform.h
index e8ece26..181318e 100644
--- a/src/ros/bag_topic_with_transform.h
+++ b/src/ros/bag_topic_with_transform.h
@@ -65,7 +65,13 @@ public:
       if (has_synced_msg()) { return true; }
     }
 
-    return has_synced_msg();
+    // the bag is over, but the messages cached behind a dropped one may be ok
+    auto cached_nm = _msg_cache.size() + 1;
+    while (_msg_cache.size() < cached_nm) {
+      cached_nm = _msg_cache.size();
+      if (has_synced_msg()) { return true; }
+    }
+    return false;
   }
 
   const auto &msg() const { return _msg;}
-- 
2.43.0


From 0504c92af8edcbb8aecc9891a7513935bbe670ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:05 +0000
Subject: [PATCH 31/35] fix: the nanoseconds of a dumped trajectory are the
 fraction of its seconds

---
 src/ros/robot_pose_observers.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ros/robot_pose_observers.h b/src/ros/robot_pose_observers.h
index cac6124..058271c 100644
--- a/src/ros/robot_pose_observers.h
+++ b/src/ros/robot_pose_observers.h
@@ -2,6 +2,7 @@
 #define SLAM_CTOR_ROS_ROBOT_POSE_OBSERVERS_H
 
 #include <fstream>
+#include <iomanip>
 #include <ros/ros.h>
 #include <tf/transform_broadcaster.h>
 
@@ -75,7 +76,8 @@ public:
 
   void log_robot_pose(const ros::Time &time,  const RobotPose &pose) {
     auto q = tf::createQuaternionFromRPY(0, 0, pose.theta);
-    _fstream << time.sec << '.' << time.nsec
+    _fstream << time.sec << '.'
+             << std::setfill('0') << std::setw(9) << time.nsec
              << ' ' << pose.x << ' ' << pose.y << ' ' << '0'
              << ' ' << q.x() << ' ' << q.y() << ' ' << q.z() << ' ' << q.w()
              << '\n';
-- 
2.43.0


From 18d0cef6e4cc52c8073d244d2217e3fba0356623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:47 +0000
Subject: [PATCH 32/35] fix: an asynchronous pose correction publisher stops
 its thread

---
 src/ros/pose_correction_tf_publisher.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ros/pose_correction_tf_publisher.h b/src/ros/pose_correction_tf_publisher.h
index 799bda5..207bac4 100644
--- a/src/ros/pose_correction_tf_publisher.h
+++ b/src/ros/pose_correction_tf_publisher.h
@@ -1,6 +1,7 @@
 #ifndef SLAM_CTOR_CORE_POSE_CORRECTION_TF_PUBLISHER_H
 #define SLAM_CTOR_CORE_POSE_CORRECTION_TF_PUBLISHER_H
 
+#include <atomic>
 #include <thread>
 #include <mutex>
 #include <utility>
@@ -28,6 +29,11 @@ public: //methods
     _transform_publisher = std::move(std::thread{loop_f, this});
   }
 
+  ~PoseCorrectionTfPublisher() {
+    _is_stopped = true;
+    if (_transform_publisher.joinable()) { _transform_publisher.join(); }
+  }
+
   virtual void handle_transformed_msg(
     const boost::shared_ptr<ObservationType>,
     const tf::StampedTransform& t) override {
@@ -51,7 +57,7 @@ private: //methods
 
   void publishing_loop() {
     ros::Rate rate(1.0 / 0.05);
-    while (ros::ok()) {
+    while (ros::ok() && !_is_stopped) {
       publish_map_to_odom();
       rate.sleep();
     }
@@ -70,6 +76,7 @@ private: // fields
   tf::Transform _last_odom2base;
   tf::Transform _map2odom;
   std::mutex _map2odom_mutex;
+  std::atomic<bool> _is_stopped{false};
   std::thread _transform_publisher;
 };
 
-- 
2.43.0


From 97fb772cfa02e40edbd120c22858af67a56f5f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:30 +0000
Subject: [PATCH 33/35] fix: sm_runner leaves thinning the scan to the matcher

The tool filtered the scan and gave the result to the matcher, which filters
what it is given too: with a skip rate of k only every k*k-th point was used.
---
 src/utils/sm_runner.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/utils/sm_runner.cpp b/src/utils/sm_runner.cpp
index 7f68dd6..86f0457 100644
--- a/src/utils/sm_runner.cpp
+++ b/src/utils/sm_runner.cpp
@@ -73,13 +73,12 @@ int main(int argc, char **argv) {
 
   // 1) Setup
   auto pose = setup_pose2D(argv[Pose_File_I]);
-  auto raw_scan = setup_laser_scan2D(argv[Scan_File_I]);
+  auto scan = setup_laser_scan2D(argv[Scan_File_I]);
   auto map = setup_map(props, argv[Map_File_I]);
   assert(map->validate());
 
   // 2)
   auto sm = init_scan_matcher(props);
-  auto scan = sm->filter_scan(raw_scan, pose, *map);
   auto pose_delta = RobotPoseDelta{0, 0, 0};
 
   auto tr_scan = TransformedLaserScan{{}, scan, 1 /* qualtiy */};
-- 
2.43.0


From b7b98ef5ccb5516a6c73e56d250abc68158ae480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:01 +0000
Subject: [PATCH 34/35] fix: the search space explorer draws its scan with a
 quality estimator

---
 src/utils/pose2D_search_space_evaluator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/pose2D_search_space_evaluator.cpp b/src/utils/pose2D_search_space_evaluator.cpp
index c384036..09abfc2 100644
--- a/src/utils/pose2D_search_space_evaluator.cpp
+++ b/src/utils/pose2D_search_space_evaluator.cpp
@@ -146,6 +146,7 @@ void dump_scan(const LaserScan2D &scan, const RobotPose &pose) {
     .set_occupancy_estimator(
       std::make_shared<ConstOccupancyEstimator>(Occupancy{1.0, 1.0},
                                                 Occupancy{0.0, 1.0}))
+    .set_observation_quality_estimator(std::make_shared<IdleOMQE>())
     .build();
   scan_adder->append_scan(map, pose, scan, 1.0);
   GridMapToPgmDumber{"scan"}.on_map_update(map);
-- 
2.43.0


From 061d3065216b346789382d04cfd52f43de52b8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:58 +0000
Subject: [PATCH 35/35] fix: a whole multiple is one also when its ratio is
 rounded down

is_multiple_of(0.3, 0.1) was false: the ratio is 2.9999999999999996 and was cut to 2.
---
 src/core/math_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math_utils.h b/src/core/math_utils.h
index 5d78e8c..7ad35f2 100644
--- a/src/core/math_utils.h
+++ b/src/core/math_utils.h
@@ -27,7 +27,7 @@ constexpr inline bool less(double a, double b) {
 constexpr inline bool is_multiple_of(double value, double factor) {
   // TODO: verify numerical safety/bounds
   double ratio = value / factor;
-  return are_equal(ratio, std::trunc(ratio));
+  return are_equal(ratio, std::round(ratio));
 }
 
 inline double bound_value(double left, double v, double right) {
-- 
2.43.0

