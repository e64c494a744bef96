From d351d5401b5f10f6e8eaebb1a9aaf132cd21e1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:27 +0000
Subject: [PATCH 01/12] fix: keep all movements red when a traffic light has no
 phases

Stepping a traffic light that has no phases indexed an empty list and panicked.
With no phase to apply, no movement is active, so every movement stays red.
---
 src/light.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/light.rs b/src/light.rs
index a79a064..a8f0333 100644
--- a/src/light.rs
+++ b/src/light.rs
@@ -142,7 +142,7 @@ impl TrafficLight {
 
     /// Applies the current traffic light phase to each movement.
     fn apply_phase(&mut self) {
-        let Phase { mask, .. } = self.phases[self.phase];
+        let mask = self.phases.get(self.phase).map_or(0, |phase| phase.mask);
         for (idx, movement) in self.movements.iter_mut().enumerate() {
             movement.active = (mask >> idx) & 1 != 0;
         }
-- 
2.43.0


From 5c2da5ae9bf77146d80fc662630f7d10c7b0db43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:27 +0000
Subject: [PATCH 02/12] fix: let a vehicle exit when its destination is set
 along its current path

Setting the destination clears the permission to exit, which was only restored
when the chosen path differed from the current one. A vehicle whose destination
was its current link, or was set to the same link again, stopped at the end of
the destination link for ever.
---
 src/vehicle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vehicle.rs b/src/vehicle.rs
index c45277c..d0be0b0 100644
--- a/src/vehicle.rs
+++ b/src/vehicle.rs
@@ -413,7 +413,7 @@ impl Vehicle {
             .paths()
             .iter()
             .min_by_key(|path| self.evaluate_path(path, links))
-            .filter(|path| !path.links.iter().eq(&self.route))
+            .filter(|path| path.can_exit != self.can_exit || !path.links.iter().eq(&self.route))
     }
 
     /// Evaluates the desirability of being on a given path,
-- 
2.43.0


From c63aec4291fc8a2998dd0a1019e54ba12dcbe676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:52 +0000
Subject: [PATCH 03/12] fix: list routes that end with a lane change in
 all_routes

A destination reached by changing lanes on the last group of links was left out,
although vehicles can be routed to it. Routes of an unconnected link were listed
twice. Search over connections and permitted lane changes together instead.
---
 src/simulation.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/simulation.rs b/src/simulation.rs
index c46a55f..0355e06 100644
--- a/src/simulation.rs
+++ b/src/simulation.rs
@@ -98,17 +98,13 @@ impl Simulation {
             .values()
             .filter(|link| link.links_in().is_empty());
         srcs.map(|link| link.id()).flat_map(move |src| {
-            let f = self.links[src].reachable_lanes().iter().copied();
-            let s = pathfinding::directed::dfs::dfs_reach(src, move |id| {
-                let lanes = self.links[*id].reachable_lanes();
-                lanes.iter().flat_map(move |link_id| {
-                    let link = &self.links[*link_id];
-                    link.links_out().iter().copied()
-                })
-            });
-            f.chain(s)
-                .filter(|id| self.links[*id].links_out().is_empty())
-                .map(move |dst| (src, dst))
+            pathfinding::directed::dfs::dfs_reach(src, move |id| {
+                let link = &self.links[*id];
+                let links_out = link.links_out().iter().copied();
+                links_out.chain(link.lane_changes().iter().copied())
+            })
+            .filter(|id| self.links[*id].links_out().is_empty())
+            .map(move |dst| (src, dst))
         })
     }
 
-- 
2.43.0


From 43a475fef81ed4e4ddc30a6cdb2b01341aa1a7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:52 +0000
Subject: [PATCH 04/12] fix: leave the give way queue when the vehicle's path
 changes

A vehicle that had queued for one link kept its place when it was rerouted to
another link or changed lanes. It could then pass a stop sign without stopping,
ahead of vehicles that had been waiting longer.
---
 src/vehicle.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vehicle.rs b/src/vehicle.rs
index d0be0b0..31acce4 100644
--- a/src/vehicle.rs
+++ b/src/vehicle.rs
@@ -385,6 +385,7 @@ impl Vehicle {
         self.route = vec![link_id];
         self.pathfind.set_origin(link_id, links);
         self.entered = 1;
+        self.queued = None;
         self.pos = pos;
         self.lane_change = lane_change;
         self.can_exit = false;
@@ -442,6 +443,11 @@ impl Vehicle {
             .take_while(|(a, b)| a == b)
             .count();
 
+        // Give up the place in the queue if the next unentered link has changed
+        if matched <= self.entered {
+            self.queued = None;
+        }
+
         self.route.clear();
         self.route.extend_from_slice(&path.links);
         self.entered = usize::min(self.entered, matched);
-- 
2.43.0


From 57ffb30e41438077ddf18b1d33abd62a791edfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:52 +0000
Subject: [PATCH 05/12] fix: look up the right lane projection in a link group

The projections of a link onto the other links of its group skip the link itself,
which the index did not account for. Lane choices used the position on a different
lane whenever the target lane was to the right of the current one.
---
 src/group.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/group.rs b/src/group.rs
index 642a2ad..77a50a2 100644
--- a/src/group.rs
+++ b/src/group.rs
@@ -92,7 +92,9 @@ impl LinkGroup {
         let src_idx = self.find_link(src).expect("Link is not in group.");
         let dst_idx = self.find_link(dst).expect("Link is not in group.");
         let n = self.links.len() - 1;
-        &self.projections[(n * src_idx) + dst_idx]
+        // There is no projection from a link onto itself
+        let offset = if dst_idx > src_idx { 1 } else { 0 };
+        &self.projections[(n * src_idx) + dst_idx - offset]
     }
 
     /// Gets the index of the `link` in this link group.
-- 
2.43.0


From 4b5d077c3c30bb1cc18f2262bb0f5cdd61bcb305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:14 +0000
Subject: [PATCH 06/12] fix: do not route vehicles back around a loop they
 should leave

When the route to the destination passes through a ring, such as a roundabout, a
link on the route can lead back to an earlier one. All such paths had the same
cost, so depending on the order of the connections a vehicle circled for ever.
Only follow links that are further along the route.
---
 src/vehicle/pathfinding.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/vehicle/pathfinding.rs b/src/vehicle/pathfinding.rs
index cd18bbb..35aba4c 100644
--- a/src/vehicle/pathfinding.rs
+++ b/src/vehicle/pathfinding.rs
@@ -14,6 +14,8 @@ pub(crate) struct PathfindingModel {
     dst: LinkId,
     /// A matrix used to determine the desirability of each link.
     matrix: SparseSecondaryMap<LinkId, LaneDists>,
+    /// How far along the route each link in the matrix is.
+    stages: SparseSecondaryMap<LinkId, usize>,
     /// The current set of available paths.
     paths: Vec<Path>,
 }
@@ -77,7 +79,10 @@ impl PathfindingModel {
         let mut matrix = SparseSecondaryMap::new();
         matrix.insert(self.dst, LaneDists::exit());
 
-        for link_id in route.iter().rev() {
+        let mut stages = SparseSecondaryMap::new();
+        stages.extend(route.iter().copied().zip(0..));
+
+        for (stage, link_id) in route.iter().enumerate().rev() {
             let group = links[*link_id].group();
             let group_links = group
                 .map(|g| g.link_ids())
@@ -86,6 +91,7 @@ impl PathfindingModel {
             // Propagate backwards
             for link_id in group_links {
                 let link = &links[*link_id];
+                stages.entry(*link_id).unwrap().or_insert(stage);
                 let dists = link
                     .links_out()
                     .iter()
@@ -114,6 +120,7 @@ impl PathfindingModel {
         }
 
         self.matrix = matrix;
+        self.stages = stages;
     }
 
     fn make_paths(&mut self, links: &LinkSet) {
@@ -151,6 +158,10 @@ impl PathfindingModel {
             let last_idx = path.len();
             path.push(LinkId::null());
             for succ in links[link_id].links_out() {
+                if self.stages.get(*succ) <= self.stages.get(link_id) {
+                    // Don't go back around a loop
+                    continue;
+                }
                 path[last_idx] = *succ;
                 found |= self.make_paths_inner(links, path, dist);
             }
-- 
2.43.0


From bb8abf32fb885d5d9d45c6344594671febb697bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:39 +0000
Subject: [PATCH 07/12] fix: measure the gap for giving way from the stop line

The vehicle passed to the gap check is already positioned relative to the stop
line. The length of the approach was added a second time, so a vehicle at the
end of a long approach refused gaps that were ample.
---
 src/link.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/link.rs b/src/link.rs
index 6198207..6236cb9 100644
--- a/src/link.rs
+++ b/src/link.rs
@@ -269,7 +269,7 @@ impl Link {
                             if links[link_id].can_enter(
                                 links,
                                 vehicles,
-                                &vehicle.offset(self.length()),
+                                &vehicle.offset(0.0),
                                 frame,
                                 priority,
                             ) {
-- 
2.43.0


From 60bfd05107244bb2b3f3b01b4884d332f2284eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:23:49 +0000
Subject: [PATCH 08/12] fix: give up the place in a queue when its line has
 been passed

---
 src/vehicle.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vehicle.rs b/src/vehicle.rs
index 31acce4..4dd7d47 100644
--- a/src/vehicle.rs
+++ b/src/vehicle.rs
@@ -361,6 +361,10 @@ impl Vehicle {
                 if let Some(link_id) = self.route.first() {
                     self.pathfind.set_origin(*link_id, links);
                 }
+                if self.entered <= 1 {
+                    // A place in a queue is of no use beyond the line it was taken at
+                    self.queued = None;
+                }
                 self.entered = usize::max(self.entered - 1, 1);
                 self.pos -= length;
                 if let Some(lc) = self.lane_change.as_mut() {
-- 
2.43.0


From 6e9b18b8ba3727e9c6a6f2b3cdb8b8266bc744c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:44:51 +0000
Subject: [PATCH 09/12] fix: keep planning the route during a lane change

---
 src/vehicle.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/vehicle.rs b/src/vehicle.rs
index 4dd7d47..53676dc 100644
--- a/src/vehicle.rs
+++ b/src/vehicle.rs
@@ -409,14 +409,13 @@ impl Vehicle {
     /// Evaluates the available paths and chooses the best, which may involve a lane change.
     /// If the path the vehicle is currently on is the best, then `None` is returned.
     pub(crate) fn choose_path(&self, links: &LinkSet) -> Option<&Path> {
-        if self.lane_change.is_some() {
-            // Don't lane change while already lane changing
-            return None;
-        }
+        // Don't lane change while already lane changing
+        let changing = self.lane_change.is_some();
 
         self.pathfind
             .paths()
             .iter()
+            .filter(|path| !changing || path.links.first() == self.route.first())
             .min_by_key(|path| self.evaluate_path(path, links))
             .filter(|path| path.can_exit != self.can_exit || !path.links.iter().eq(&self.route))
     }
-- 
2.43.0


From 8effc4f9ef03bd9c1e3f7097c58a1656633cf660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:40:30 +0000
Subject: [PATCH 10/12] fix: prefer routes with fewer lane changes when they
 take equally long

---
 src/vehicle/pathfinding.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vehicle/pathfinding.rs b/src/vehicle/pathfinding.rs
index 35aba4c..a7e6105 100644
--- a/src/vehicle/pathfinding.rs
+++ b/src/vehicle/pathfinding.rs
@@ -183,9 +183,12 @@ impl PathfindingModel {
 
 fn successors(link_id: LinkId, links: &LinkSet) -> impl Iterator<Item = (LinkId, usize)> + '_ {
     let lanes = links[link_id].reachable_lanes();
-    lanes.iter().flat_map(move |link_id| {
+    let own = lanes.iter().position(|id| *id == link_id).unwrap_or(0);
+    lanes.iter().enumerate().flat_map(move |(idx, link_id)| {
         let link = &links[*link_id];
-        link.links_out().iter().map(move |id| (*id, link.cost()))
+        // Avoid lane changes that make no difference
+        let cost = link.cost() + idx.abs_diff(own);
+        link.links_out().iter().map(move |id| (*id, cost))
     })
 }
 
-- 
2.43.0


From f49a7ad299cf675cd6315b2517de619ad40a2c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:46:25 +0000
Subject: [PATCH 11/12] fix: plan lane changes across groups of more than four
 lanes

---
 src/vehicle/pathfinding.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/vehicle/pathfinding.rs b/src/vehicle/pathfinding.rs
index a7e6105..7b8e7b0 100644
--- a/src/vehicle/pathfinding.rs
+++ b/src/vehicle/pathfinding.rs
@@ -192,16 +192,19 @@ fn successors(link_id: LinkId, links: &LinkSet) -> impl Iterator<Item = (LinkId,
     })
 }
 
+/// The most lanes a link group can have.
+const MAX_LANES: usize = 16;
+
 #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
-pub(crate) struct LaneDists([u32; 4]);
+pub(crate) struct LaneDists([u32; MAX_LANES]);
 
 impl LaneDists {
     pub fn dead(dist: f64) -> Self {
-        Self([Self::make_dist(dist); 4])
+        Self([Self::make_dist(dist); MAX_LANES])
     }
 
     pub fn exit() -> Self {
-        Self([u32::MAX; 4])
+        Self([u32::MAX; MAX_LANES])
     }
 
     /// Add an amount to all distances.
@@ -211,12 +214,12 @@ impl LaneDists {
 
     /// Offsets all distances by one lane.
     pub fn shift(&self) -> Self {
-        Self([0, self.0[0], self.0[1], self.0[2]])
+        Self(std::array::from_fn(|i| i.checked_sub(1).map_or(0, |i| self.0[i])))
     }
 
     /// Combines two `LaneDist`s.
     pub fn combine(&self, other: &Self) -> Self {
-        Self([0, 1, 2, 3].map(|i| u32::max(self.0[i], other.0[i])))
+        Self(std::array::from_fn(|i| u32::max(self.0[i], other.0[i])))
     }
 
     /// Computes the cost of being on this link at the given `pos`.
-- 
2.43.0


From e559ff5423f3e78d7080ea0898ce739d81d12e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:53:29 +0000
Subject: [PATCH 12/12] fix: plan the route far enough ahead from the end of a
 long link

---
 src/vehicle/pathfinding.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vehicle/pathfinding.rs b/src/vehicle/pathfinding.rs
index 7b8e7b0..6c59e0e 100644
--- a/src/vehicle/pathfinding.rs
+++ b/src/vehicle/pathfinding.rs
@@ -152,7 +152,9 @@ impl PathfindingModel {
 
         let mut found = false;
 
-        if !path.is_full() && dist < PLAN_DIST {
+        // Plan ahead from the end of the current link
+        let ahead = dist - links[path[0]].length();
+        if !path.is_full() && ahead < PLAN_DIST {
             let link = &links[link_id];
             let dist = dist + link.length();
             let last_idx = path.len();
-- 
2.43.0

