From 9ea7a58a1a148490ff603e2a40ce8c7031113734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:22 +0000
Subject: [PATCH 01/25] fix: do not hold the new point's neighbour lock while
 linking its neighbours back

Two threads inserting points that select each other as neighbours each held a
read lock on their own point while asking for a write lock on the other one.
---
 src/hnsw.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index d23eb58..944c9d0 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -1221,7 +1221,10 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
         );
         let level = new_point.p_id.0;
         for l in (0..level + 1).rev() {
-            for q in &new_point.neighbours.read()[l as usize] {
+            // copy the list so that no lock on new_point is held while taking a write lock on q_point:
+            // two points inserted concurrently can be neighbours of each other.
+            let new_point_neighbours = new_point.neighbours.read()[l as usize].clone();
+            for q in &new_point_neighbours {
                 if new_point.p_id != q.point_ref.p_id {
                     // as new point is in global table, do not loop and deadlock!!
                     let q_point = &q.point_ref;
-- 
2.43.0


From d74ef8d455d4648ab4a2c6e6382b8f43bddf5008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:53 +0000
Subject: [PATCH 02/25] fix: link every point inserted concurrently with the
 first one

Only the insertion that installs the entry point may return without linking its
point. The check on the point rank and the separate read and write of the entry
point let several concurrent first insertions return early, leaving points
unreachable and the entry point at a too low level.
---
 src/hnsw.rs | 48 +++++++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index 944c9d0..299f5a6 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -526,6 +526,23 @@ impl<'b, T: Clone + Send + Sync> PointIndexation<'b, T> {
         (Arc::clone(&new_point), nb_point)
     } // end of insert
 
+    /// returns the current entry point if there is one, otherwise sets new_point as entry point and returns None.
+    fn get_or_init_entry_point(&self, new_point: &Arc<Point<'b, T>>) -> Option<Arc<Point<'b, T>>> {
+        if let Some(arc_point) = self.entry_point.read().as_ref() {
+            return Some(Arc::clone(arc_point));
+        }
+        // test again with the write lock, another thread can have set the entry point.
+        let mut entry_point_ref = self.entry_point.write();
+        match entry_point_ref.as_ref() {
+            Some(arc_point) => Some(Arc::clone(arc_point)),
+            None => {
+                debug!("Hnsw  , inserting  entry point {:?} ", new_point.p_id);
+                *entry_point_ref = Some(Arc::clone(new_point));
+                None
+            }
+        }
+    } // end of get_or_init_entry_point
+
     /// check if entry_point is modified
     fn check_entry_point(&self, new_point: &Arc<Point<'b, T>>) {
         //
@@ -1057,34 +1074,27 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
         let (data, origin_id) = data_with_id;
         let keep_pruned = self.keep_pruned;
         // insert in indexation and get point_id adn generate a new entry_point if necessary
-        let (new_point, point_rank) = self
+        let (new_point, _) = self
             .layer_indexed_points
             .generate_new_point(data, origin_id);
         trace!("Hnsw insert generated new point {:?} ", new_point.p_id);
         // now real work begins
         // allocate a binary heap
         let level = new_point.p_id.0;
-        let mut enter_point_copy = None;
-        let mut max_level_observed = 0;
-        // entry point has been set in
-        {
-            // I open a read lock on an option
-            if let Some(arc_point) = self.layer_indexed_points.entry_point.read().as_ref() {
-                enter_point_copy = Some(Arc::clone(arc_point));
-                if point_rank == 1 {
-                    debug!(
-                        "Hnsw  stored first point , direct return  {:?} ",
-                        new_point.p_id
-                    );
-                    return;
-                }
-                max_level_observed = enter_point_copy.as_ref().unwrap().p_id.0;
-            }
-        }
+        // if there is no entry point yet, new_point becomes the entry point and has nothing to be linked to.
+        // Only one of the threads inserting concurrently in an empty structure can be in this case, the others
+        // must go on and link their point.
+        let mut enter_point_copy = self
+            .layer_indexed_points
+            .get_or_init_entry_point(&new_point);
         if enter_point_copy.is_none() {
-            self.layer_indexed_points.check_entry_point(&new_point);
+            debug!(
+                "Hnsw  stored first point , direct return  {:?} ",
+                new_point.p_id
+            );
             return;
         }
+        let max_level_observed = enter_point_copy.as_ref().unwrap().p_id.0;
         let mut dist_to_entry = self
             .dist_f
             .eval(data, enter_point_copy.as_ref().unwrap().data.get_v());
-- 
2.43.0


From 7476c543fa61cd0864d606fdacdc76b9a75cd313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 03/25] fix: iteration on points must not take its own read
 lock again nor need an entry point

A second read lock taken while a writer waits deadlocks with a concurrent insertion,
and iterating (or flattening) an empty structure panicked.
---
 src/hnsw.rs | 35 ++++++++++++-----------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index 299f5a6..3afecc2 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -641,7 +641,7 @@ impl<'b, T: Clone + Send + Sync> PointIndexation<'b, T> {
 /// The iteration begins at level 0 (most populated level) and goes upward in levels.
 /// The iterator takes a ReadGuard on the PointIndexation structure
 pub struct IterPoint<'a, 'b, T: Clone + Send + Sync + 'b> {
-    point_indexation: &'a PointIndexation<'b, T>,
+    _point_indexation: &'a PointIndexation<'b, T>,
     pi_guard: RwLockReadGuard<'a, Vec<Layer<'b, T>>>,
     layer: i64,
     slot_in_layer: i64,
@@ -651,7 +651,7 @@ impl<'a, 'b, T: Clone + Send + Sync> IterPoint<'a, 'b, T> {
     pub fn new(point_indexation: &'a PointIndexation<'b, T>) -> Self {
         let pi_guard: RwLockReadGuard<Vec<Layer<'b, T>>> = point_indexation.points_by_layer.read();
         IterPoint {
-            point_indexation,
+            _point_indexation: point_indexation,
             pi_guard,
             layer: -1,
             slot_in_layer: -1,
@@ -668,31 +668,20 @@ impl<'b, T: Clone + Send + Sync> Iterator for IterPoint<'_, 'b, T> {
             self.layer = 0;
             self.slot_in_layer = 0;
         }
-        if (self.slot_in_layer as usize) < self.pi_guard[self.layer as usize].len() {
+        // go to next non empty layer if necessary. The guard taken at construction gives access to all layers,
+        // it must not be taken again as this thread already owns it.
+        while (self.layer as usize) < self.pi_guard.len()
+            && (self.slot_in_layer as usize) >= self.pi_guard[self.layer as usize].len()
+        {
+            self.slot_in_layer = 0;
+            self.layer += 1;
+        }
+        if (self.layer as usize) < self.pi_guard.len() {
             let slot = self.slot_in_layer as usize;
             self.slot_in_layer += 1;
             Some(self.pi_guard[self.layer as usize][slot].clone())
         } else {
-            self.slot_in_layer = 0;
-            self.layer += 1;
-            // must reach a non empty layer if possible
-            let entry_point_ref = self.point_indexation.entry_point.read();
-            let points_by_layer = self.point_indexation.points_by_layer.read();
-            let entry_point_level = entry_point_ref.as_ref().unwrap().p_id.0;
-            while (self.layer as u8) <= entry_point_level
-                && points_by_layer[self.layer as usize].is_empty()
-            {
-                self.layer += 1;
-            }
-            // now here either  (self.layer as u8) > self.point_indexation.max_level_observed
-            // or self.point_indexation.points_by_layer[self.layer as usize ].len() > 0
-            if (self.layer as u8) <= entry_point_level {
-                let slot = self.slot_in_layer as usize;
-                self.slot_in_layer += 1;
-                Some(points_by_layer[self.layer as usize][slot].clone())
-            } else {
-                None
-            }
+            None
         }
     } // end of next
 } // end of impl Iterator
-- 
2.43.0


From 9c107f58060a5c2bf3093444a2a0239360d64f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:09 +0000
Subject: [PATCH 04/25] fix: a filtered search must not return the search
 starting point when the filter rejects it

---
 src/hnsw.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index 3afecc2..d3847f8 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -1518,7 +1518,12 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
         // now search with asked ef in lower layer
         let neighbours_heap = self.search_layer(data, pivot, ef, layer_to_search, filter);
         // go from heap of points with negative dist to a sorted vec of increasing points with > 0 distances.
-        let neighbours = neighbours_heap.into_sorted_vec();
+        let mut neighbours = neighbours_heap.into_sorted_vec();
+        // the point from which the layer search started is returned, even if it is rejected by the filter,
+        // when no accepted point was met.
+        if let Some(f) = filter {
+            neighbours.retain(|p| f.hnsw_filter(&p.point_ref.origin_id));
+        }
         // get the min of K and ef points into a vector.
         //
         let last = knbn.min(ef).min(neighbours.len());
-- 
2.43.0


From 54999040a03375b44410d456770f7dec34592b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 05/25] fix: keep the level scale of the dumped index when it
 is reloaded

---
 src/hnsw.rs   | 11 +++--------
 src/hnswio.rs | 13 ++++++++-----
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index d3847f8..ceef6f3 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -333,17 +333,12 @@ impl LayerGenerator {
         }
     }
 
-    // new when we know scale used. Should replace the one without scale
-    pub(crate) fn new_with_scale(
-        max_nb_connection: usize,
-        scale_factor: f64,
-        maxlevel: usize,
-    ) -> Self {
-        let scale_default = 1. / (max_nb_connection as f64).ln();
+    // new when we know scale used (the value returned by get_level_scale). Should replace the one without scale
+    pub(crate) fn new_with_scale(scale: f64, maxlevel: usize) -> Self {
         LayerGenerator {
             rng: Arc::new(Mutex::new(StdRng::from_entropy())),
             unif: Uniform::<f64>::new(0., 1.),
-            scale: scale_default * scale_factor,
+            scale,
             maxlevel,
         }
     }
diff --git a/src/hnswio.rs b/src/hnswio.rs
index ea845f5..8e8e96f 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -766,15 +766,18 @@ impl HnswIo {
             entry_point.get_point_id()
         );
         //
+        // from v4 the level scale in use is in the dump. Before it was always the default one.
+        let layer_g = if descr.format_version >= 4 {
+            LayerGenerator::new_with_scale(descr.level_scale, NB_LAYER_MAX as usize)
+        } else {
+            LayerGenerator::new(descr.max_nb_connection as usize, NB_LAYER_MAX as usize)
+        };
+        //
         let point_indexation = PointIndexation {
             max_nb_connection: descr.max_nb_connection as usize,
             max_layer: NB_LAYER_MAX as usize,
             points_by_layer: Arc::new(RwLock::new(points_by_layer)),
-            layer_g: LayerGenerator::new_with_scale(
-                descr.max_nb_connection as usize,
-                descr.level_scale,
-                NB_LAYER_MAX as usize,
-            ),
+            layer_g,
             nb_point: Arc::new(RwLock::new(nb_points_loaded)), // CAVEAT , we should increase , the whole thing is to be able to increment graph ?
             entry_point: Arc::new(RwLock::new(Some(entry_point))),
         };
-- 
2.43.0


From ef28c8d0172b46161d71b6a750b0813729738ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 06/25] fix: do not panic when the system clock goes backward
 during a drop or a reload

---
 src/hnsw.rs   | 2 +-
 src/hnswio.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index ceef6f3..4ebb41f 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -433,7 +433,7 @@ impl<T: Clone + Send + Sync> Drop for PointIndexation<'_, T> {
         debug!("exiting PointIndexation drop");
         info!(
             " drop sys time(s) {:?} cpu time {:?}",
-            sys_now.elapsed().unwrap().as_secs(),
+            sys_now.elapsed().unwrap_or_default().as_secs(),
             cpu_start.elapsed().as_secs()
         );
     } // end my drop
diff --git a/src/hnswio.rs b/src/hnswio.rs
index 8e8e96f..b0140db 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -518,7 +518,7 @@ impl HnswIo {
         };
         //
         debug!("load_hnsw completed");
-        let elapsed_t = start_t.elapsed().unwrap().as_secs() as f32;
+        let elapsed_t = start_t.elapsed().unwrap_or_default().as_secs() as f32;
         info!("reload_hnsw : elapsed system time(s) {}", elapsed_t);
         Ok(hnsw)
     } // end of load_hnsw
-- 
2.43.0


From d9937b541a9c199baf0dbd840761d37eb3cfd7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:18 +0000
Subject: [PATCH 07/25] fix: reload of an incomplete or inconsistent dump
 returns an error instead of panicking or exiting

---
 src/hnswio.rs | 88 ++++++++++++++++++++++++++++-----------------------
 1 file changed, 49 insertions(+), 39 deletions(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index b0140db..ceec5e1 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -413,7 +413,7 @@ impl HnswIo {
         let mut graph_in = BufReader::new(graphfile);
         let data_in = BufReader::new(datafile);
         // we need to call load_description first to get distance name
-        let hnsw_description = load_description(&mut graph_in).unwrap();
+        let hnsw_description = load_description(&mut graph_in)?;
         //
         Ok(LoadInit {
             descr: hnsw_description,
@@ -451,18 +451,19 @@ impl HnswIo {
         let mut it_slice = [0u8; std::mem::size_of::<u32>()];
         data_in.read_exact(&mut it_slice)?;
         let magic = u32::from_ne_bytes(it_slice);
-        assert_eq!(
-            magic, MAGICDATAP,
+        ensure!(
+            magic == MAGICDATAP,
             "magic not equal to MAGICDATAP in load_point"
         );
         //
         let mut it_slice = [0u8; std::mem::size_of::<usize>()];
         data_in.read_exact(&mut it_slice)?;
         let dimension = usize::from_ne_bytes(it_slice);
-        assert_eq!(
-            dimension, description.dimension,
+        ensure!(
+            dimension == description.dimension,
             "data dimension incoherent {:?} {:?} ",
-            dimension, description.dimension
+            dimension,
+            description.dimension
         );
         //
         let _mode = description.dumpmode;
@@ -550,18 +551,19 @@ impl HnswIo {
         let mut it_slice = [0u8; std::mem::size_of::<u32>()];
         data_in.read_exact(&mut it_slice)?;
         let magic = u32::from_ne_bytes(it_slice);
-        assert_eq!(
-            magic, MAGICDATAP,
+        ensure!(
+            magic == MAGICDATAP,
             "magic not equal to MAGICDATAP in load_point"
         );
         //
         let mut it_slice = [0u8; std::mem::size_of::<usize>()];
         data_in.read_exact(&mut it_slice)?;
         let dimension = usize::from_ne_bytes(it_slice);
-        assert_eq!(
-            dimension, description.dimension,
+        ensure!(
+            dimension == description.dimension,
             "data dimension incoherent {:?} {:?} ",
-            dimension, description.dimension
+            dimension,
+            description.dimension
         );
         //
         let _mode = description.dumpmode;
@@ -634,7 +636,7 @@ impl HnswIo {
                 descr.t_name,
                 std::any::type_name::<T>()
             );
-            panic!("incohrent size of T in description");
+            return Err(anyhow!("incohrent size of T in description"));
         }
         //
         let mut points_by_layer: Vec<Vec<Arc<Point<T>>>> =
@@ -700,28 +702,32 @@ impl HnswIo {
                 let point = load_point_res.0;
                 let p_id = point.get_point_id();
                 // some checks
-                assert_eq!(l, p_id.0 as usize);
+                ensure!(l == p_id.0 as usize, "inconsistent layer of point");
                 if r != p_id.1 as usize {
                     debug!("Origin= {:?},  p_id = {:?}", point.get_origin_id(), p_id);
                     debug!("Storing at l {:?}, r {:?}", l, r);
                 }
-                assert_eq!(r, p_id.1 as usize);
+                ensure!(r == p_id.1 as usize, "inconsistent rank of point");
                 // store neoghbour info of this point
                 neighbourhood_map.insert(p_id, load_point_res.1);
                 vlayer.push(point);
                 nb_points_loaded += 1;
                 nb_still_to_load -= 1;
-                assert!(nb_still_to_load >= 0);
+                ensure!(nb_still_to_load >= 0, "more points than expected");
             }
             points_by_layer.push(vlayer);
         }
+        ensure!(nb_still_to_load == 0, "less points than expected");
         // at this step all points are loaded , but without their neighbours fileds are not yet initialized
         let mut nbp: usize = 0;
         for (p_id, neighbours) in &neighbourhood_map {
             let point = &points_by_layer[p_id.0 as usize][p_id.1 as usize];
             for (l, neighbours) in neighbours.iter().enumerate() {
                 for n in neighbours {
-                    let n_point = &points_by_layer[n.p_id.0 as usize][n.p_id.1 as usize];
+                    let n_point = points_by_layer
+                        .get(n.p_id.0 as usize)
+                        .and_then(|layer| layer.get(n.p_id.1 as usize))
+                        .ok_or_else(|| anyhow!("inconsistent neighbour {:?}", n.p_id))?;
                     // now n_point is the Arc<Point> corresponding to neighbour n of point,
                     // construct a corresponding PointWithOrder
                     let n_pwo = PointWithOrder::<T>::new(n_point, n.distance);
@@ -759,7 +765,11 @@ impl HnswIo {
             "found entry point, origin_id {:?} , layer {:?}, rank in layer {:?} ",
             origin_id, layer, rank_in_l
         );
-        let entry_point = Arc::clone(&points_by_layer[layer as usize][rank_in_l as usize]);
+        let entry_point = points_by_layer
+            .get(layer as usize)
+            .and_then(|layer| layer.get(rank_in_l as usize))
+            .map(Arc::clone)
+            .ok_or_else(|| anyhow!("inconsistent entry point"))?;
         info!(
             " loaded entry point, origin_id {:} p_id {:?}",
             entry_point.get_origin_id(),
@@ -819,7 +829,7 @@ impl HnswIo {
                 let v = load_point_data::<T>(origin_id, data_in, descr);
                 if v.is_err() {
                     error!("loading point {:?}", origin_id);
-                    std::process::exit(1);
+                    return Err(anyhow!("error reading data for point {:?}", origin_id));
                 }
                 Point::<T>::new(v.unwrap(), origin_id, p_id)
             }
@@ -1022,7 +1032,7 @@ pub fn load_description(io_in: &mut dyn Read) -> Result<Description> {
     }
     let mut distv = vec![0; len];
     io_in.read_exact(distv.as_mut_slice())?;
-    let distname = String::from_utf8(distv).unwrap();
+    let distname = String::from_utf8(distv)?;
     debug!("distance name {:?} ", distname);
     descr.distname = distname;
     // reload of type name
@@ -1036,7 +1046,7 @@ pub fn load_description(io_in: &mut dyn Read) -> Result<Description> {
     }
     let mut tnamev = vec![0; len];
     io_in.read_exact(tnamev.as_mut_slice())?;
-    let t_name = String::from_utf8(tnamev).unwrap();
+    let t_name = String::from_utf8(tnamev)?;
     debug!("T type name {:?} ", t_name);
     descr.t_name = t_name;
     debug!(" end of description load \n");
@@ -1135,8 +1145,8 @@ where
     let mut it_slice = [0u8; std::mem::size_of::<u32>()];
     data_in.read_exact(&mut it_slice)?;
     let magic = u32::from_ne_bytes(it_slice);
-    assert_eq!(
-        magic, MAGICDATAP,
+    ensure!(
+        magic == MAGICDATAP,
         "magic not equal to MAGICDATAP in load_point, point_id : {:?} ",
         origin_id
     );
@@ -1144,8 +1154,8 @@ where
     let mut it_slice = [0u8; std::mem::size_of::<u64>()];
     data_in.read_exact(&mut it_slice)?;
     let origin_id_data = u64::from_ne_bytes(it_slice) as usize;
-    assert_eq!(
-        origin_id, origin_id_data,
+    ensure!(
+        origin_id == origin_id_data,
         "origin_id incoherent between graph and data"
     );
     // now read data. we use size_t that is in description, to take care of the casewhere we reload
@@ -1158,7 +1168,7 @@ where
 
     let v: Vec<T> = if std::any::TypeId::of::<T>() != std::any::TypeId::of::<NoData>() {
         match descr.format_version {
-            2 => bincode::deserialize(&v_serialized).unwrap(),
+            2 => bincode::deserialize(&v_serialized)?,
             3 | 4 => {
                 let slice_t = unsafe {
                     std::slice::from_raw_parts(v_serialized.as_ptr() as *const T, descr.dimension)
@@ -1170,7 +1180,7 @@ where
                     "error in load_point, unknow format_version : {:?}",
                     descr.format_version
                 );
-                std::process::exit(1);
+                return Err(anyhow!("unknown format version"));
             }
         }
     } else {
@@ -1186,8 +1196,8 @@ fn skip_point_data(origin_id: usize, data_in: &mut dyn Read, _descr: &Descriptio
     let mut it_slice = [0u8; std::mem::size_of::<u32>()];
     data_in.read_exact(&mut it_slice)?;
     let magic = u32::from_ne_bytes(it_slice);
-    assert_eq!(
-        magic, MAGICDATAP,
+    ensure!(
+        magic == MAGICDATAP,
         "magic not equal to MAGICDATAP in load_point, point_id : {:?} ",
         origin_id
     );
@@ -1195,8 +1205,8 @@ fn skip_point_data(origin_id: usize, data_in: &mut dyn Read, _descr: &Descriptio
     let mut it_slice = [0u8; std::mem::size_of::<u64>()];
     data_in.read_exact(&mut it_slice)?;
     let origin_id_data = u64::from_ne_bytes(it_slice) as usize;
-    assert_eq!(
-        origin_id, origin_id_data,
+    ensure!(
+        origin_id == origin_id_data,
         "origin_id incoherent between graph and data"
     );
     //
@@ -1226,23 +1236,23 @@ fn load_point_graph(graph_in: &mut dyn Read, descr: &Description) -> Result<Poin
     trace!("in load_point_graph");
     // read and check magic
     let mut it_slice = [0u8; std::mem::size_of::<u32>()];
-    graph_in.read_exact(&mut it_slice).unwrap();
+    graph_in.read_exact(&mut it_slice)?;
     let magic = u32::from_ne_bytes(it_slice);
     if magic != MAGICPOINT {
         error!("got instead of MAGICPOINT {:x}", magic);
         return Err(anyhow!("bad magic at point beginning"));
     }
     let mut it_slice = [0u8; std::mem::size_of::<DataId>()];
-    graph_in.read_exact(&mut it_slice).unwrap();
+    graph_in.read_exact(&mut it_slice)?;
     let origin_id = DataId::from_ne_bytes(it_slice);
     //
     // read point_id
     let mut it_slice = [0u8; std::mem::size_of::<u8>()];
-    graph_in.read_exact(&mut it_slice).unwrap();
+    graph_in.read_exact(&mut it_slice)?;
     let layer = u8::from_ne_bytes(it_slice);
     //
     let mut it_slice = [0u8; std::mem::size_of::<i32>()];
-    graph_in.read_exact(&mut it_slice).unwrap();
+    graph_in.read_exact(&mut it_slice)?;
     let rank_in_l = i32::from_ne_bytes(it_slice);
     let p_id = PointId(layer, rank_in_l);
     debug!(
@@ -1257,24 +1267,24 @@ fn load_point_graph(graph_in: &mut dyn Read, descr: &Description) -> Result<Poin
         let mut neighbour: Neighbour = Default::default();
         // read nb_neighbour as usize!!! CAUTION, then nb_neighbours times identity(depends on Full or Light) distance : f32
         let mut it_slice = [0u8; std::mem::size_of::<usize>()];
-        graph_in.read_exact(&mut it_slice).unwrap();
+        graph_in.read_exact(&mut it_slice)?;
         let nb_neighbours = usize::from_ne_bytes(it_slice);
         let mut neighborhood_l: Vec<Neighbour> = Vec::with_capacity(nb_neighbours);
         for _j in 0..nb_neighbours {
             let mut it_slice = [0u8; std::mem::size_of::<DataId>()];
-            graph_in.read_exact(&mut it_slice).unwrap();
+            graph_in.read_exact(&mut it_slice)?;
             neighbour.d_id = DataId::from_ne_bytes(it_slice);
             if descr.dumpmode == 1 {
                 let mut it_slice = [0u8; std::mem::size_of::<u8>()];
-                graph_in.read_exact(&mut it_slice).unwrap();
+                graph_in.read_exact(&mut it_slice)?;
                 neighbour.p_id.0 = u8::from_ne_bytes(it_slice);
                 //
                 let mut it_slice = [0u8; std::mem::size_of::<i32>()];
-                graph_in.read_exact(&mut it_slice).unwrap();
+                graph_in.read_exact(&mut it_slice)?;
                 neighbour.p_id.1 = i32::from_ne_bytes(it_slice);
             }
             let mut it_slice = [0u8; std::mem::size_of::<f32>()];
-            graph_in.read_exact(&mut it_slice).unwrap();
+            graph_in.read_exact(&mut it_slice)?;
             neighbour.distance = f32::from_ne_bytes(it_slice);
             //  debug!("        voisins  load {:?} {:?} {:?} ", neighbour.p_id, neighbour.d_id , neighbour.distance);
             // now we have a new neighbour, we must really fill neighbourhood info, so it means going from Neighbour to PointWithOrder
-- 
2.43.0


From da81c3d18ad68488d59e9fd81910947a94815b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:40 +0000
Subject: [PATCH 08/25] fix: DataMap::from_hnswdump returns an error on an
 unreadable or incomplete dump and accepts a relative directory

---
 src/datamap.rs | 109 ++++++++++++++++++++++++-------------------------
 1 file changed, 54 insertions(+), 55 deletions(-)

diff --git a/src/datamap.rs b/src/datamap.rs
index 3bce7c3..825e259 100644
--- a/src/datamap.rs
+++ b/src/datamap.rs
@@ -36,6 +36,16 @@ pub struct DataMap {
     distname: String,
 } // end of DataMap
 
+// returns the len bytes beginning at *addr and sets *addr after them, or an error if the file is too short.
+fn next_bytes<'a>(mapped: &'a [u8], addr: &mut usize, len: usize) -> Result<&'a [u8], String> {
+    let end = addr.checked_add(len);
+    let bytes = end
+        .and_then(|end| mapped.get(*addr..end))
+        .ok_or_else(|| String::from("data file is too short"))?;
+    *addr += len;
+    Ok(bytes)
+}
+
 impl DataMap {
     // TODO: specifiy mmap option
     /// The fname argument corresponds to the basename of the dump.  
@@ -47,19 +57,19 @@ impl DataMap {
     ) -> Result<DataMap, String> {
         // reload description to have data type, and check for dump version
         let mut graphpath = PathBuf::from(dir);
-        graphpath.push(dir);
         let mut filename = file_name.to_string();
         filename.push_str(".hnsw.graph");
         graphpath.push(filename);
         let graphfileres = OpenOptions::new().read(true).open(&graphpath);
         if graphfileres.is_err() {
             println!("DataMap: could not open file {:?}", graphpath.as_os_str());
-            std::process::exit(1);
+            return Err(format!("could not open file {:?}", graphpath));
         }
         let graphfile = graphfileres.unwrap();
         let mut graph_in = BufReader::new(graphfile);
         // we need to call load_description first to get distance name
-        let hnsw_description = hnswio::load_description(&mut graph_in).unwrap();
+        let hnsw_description =
+            hnswio::load_description(&mut graph_in).map_err(|e| e.to_string())?;
         if hnsw_description.format_version <= 2 {
             let msg = String::from("from_hnsw::from_hnsw : data mapping is only possible for dumps with the version > 0.1.19 of this crate");
             error!(
@@ -94,24 +104,24 @@ impl DataMap {
         let meta = std::fs::metadata(&datapath);
         if meta.is_err() {
             error!("Could not open file : {:?}", &datapath);
-            std::process::exit(1);
+            return Err(format!("could not open file {:?}", datapath));
         }
         let fsize = meta.unwrap().len().try_into().unwrap();
         //
         let file_res = File::open(&datapath);
         if file_res.is_err() {
             error!("Could not open file : {:?}", &datapath);
-            std::process::exit(1);
+            return Err(format!("could not open file {:?}", datapath));
         }
         let file = file_res.unwrap();
         let offset = 0;
         //
-        let mmap_opt = MmapOptions::new(fsize).unwrap();
+        let mmap_opt = MmapOptions::new(fsize).map_err(|e| e.to_string())?;
         let mmap_opt = unsafe { mmap_opt.with_file(&file, offset) };
         let mapping_res = mmap_opt.map();
         if mapping_res.is_err() {
             error!("Could not memory map : {:?}", &datapath);
-            std::process::exit(1);
+            return Err(format!("could not memory map {:?}", datapath));
         }
         let mmap = mapping_res.unwrap();
         //
@@ -126,17 +136,21 @@ impl DataMap {
         let mut usize_slice = [0u8; std::mem::size_of::<usize>()];
         // check magic
         let mut u32_slice = [0u8; std::mem::size_of::<u32>()];
-        u32_slice.copy_from_slice(
-            &mapped_slice[current_mmap_addr..current_mmap_addr + std::mem::size_of::<u32>()],
-        );
-        current_mmap_addr += std::mem::size_of::<u32>();
+        u32_slice.copy_from_slice(next_bytes(
+            mapped_slice,
+            &mut current_mmap_addr,
+            std::mem::size_of::<u32>(),
+        )?);
         let magic = u32::from_ne_bytes(u32_slice);
-        assert_eq!(magic, MAGICDATAP, "magic not equal to MAGICDATAP in mmap");
+        if magic != MAGICDATAP {
+            return Err(String::from("magic not equal to MAGICDATAP in mmap"));
+        }
         // get dimension
-        usize_slice.copy_from_slice(
-            &mapped_slice[current_mmap_addr..current_mmap_addr + std::mem::size_of::<usize>()],
-        );
-        current_mmap_addr += std::mem::size_of::<usize>();
+        usize_slice.copy_from_slice(next_bytes(
+            mapped_slice,
+            &mut current_mmap_addr,
+            std::mem::size_of::<usize>(),
+        )?);
         let dimension = usize::from_ne_bytes(usize_slice);
         if dimension != descr_dimension {
             error!("Description and data do not agree on dimension, data got : {:?}, description got : {:?}",dimension, descr_dimension);
@@ -150,20 +164,10 @@ impl DataMap {
         // now we know that each record consists in
         //   - MAGICDATAP (u32), DataId  (u64), dimension (u64) and then  (length of type in bytes * dimension)
         //
-        let record_size = std::mem::size_of::<u32>()
-            + 2 * std::mem::size_of::<u64>()
-            + dimension * std::mem::size_of::<T>();
-        let residual = mmap.size() - current_mmap_addr;
-        info!(
-            "Mmap size {}, current_mmap_addr {}, residual : {}",
-            mmap.size(),
-            current_mmap_addr,
-            residual
-        );
-        let nb_record = residual / record_size;
-        debug!("Record size : {}, nb_record : {}", record_size, nb_record);
-        // allocate hmap with correct capacity
-        let mut hmap = IndexMap::<DataId, usize>::with_capacity(nb_record);
+        // and there is one record for each point in the graph file
+        let nb_record = hnsw_description.nb_point;
+        debug!("Mmap size {}, nb_record : {}", mmap.size(), nb_record);
+        let mut hmap = IndexMap::<DataId, usize>::new();
         // fill hmap to have address of each data point in file
         let mut u64_slice = [0u8; std::mem::size_of::<u64>()];
         //
@@ -172,17 +176,21 @@ impl DataMap {
         for i in 0..nb_record {
             debug!("Record i : {}, addr : {}", i, current_mmap_addr);
             // decode Magic
-            u32_slice.copy_from_slice(
-                &mapped_slice[current_mmap_addr..current_mmap_addr + std::mem::size_of::<u32>()],
-            );
-            current_mmap_addr += std::mem::size_of::<u32>();
+            u32_slice.copy_from_slice(next_bytes(
+                mapped_slice,
+                &mut current_mmap_addr,
+                std::mem::size_of::<u32>(),
+            )?);
             let magic = u32::from_ne_bytes(u32_slice);
-            assert_eq!(magic, MAGICDATAP, "magic not equal to MAGICDATAP in mmap");
+            if magic != MAGICDATAP {
+                return Err(String::from("magic not equal to MAGICDATAP in mmap"));
+            }
             // decode DataId
-            u64_slice.copy_from_slice(
-                &mapped_slice[current_mmap_addr..current_mmap_addr + std::mem::size_of::<u64>()],
-            );
-            current_mmap_addr += std::mem::size_of::<u64>();
+            u64_slice.copy_from_slice(next_bytes(
+                mapped_slice,
+                &mut current_mmap_addr,
+                std::mem::size_of::<u64>(),
+            )?);
             let data_id = u64::from_ne_bytes(u64_slice) as usize;
             debug!(
                 "Inserting in hmap : got dataid : {:?} current map address : {:?}",
@@ -191,26 +199,17 @@ impl DataMap {
             // Note we store address where we have to decode dimension*size_of::<T>  and full bson encoded vector
             hmap.insert(data_id, current_mmap_addr);
             // now read serialized length
-            u64_slice.copy_from_slice(
-                &mapped_slice[current_mmap_addr..current_mmap_addr + std::mem::size_of::<u64>()],
-            );
-            current_mmap_addr += std::mem::size_of::<u64>();
+            u64_slice.copy_from_slice(next_bytes(
+                mapped_slice,
+                &mut current_mmap_addr,
+                std::mem::size_of::<u64>(),
+            )?);
             let serialized_len = u64::from_ne_bytes(u64_slice) as usize;
             if i == 0 {
                 debug!("serialized bytes len to reload {:?}", serialized_len);
             }
-            let mut v_serialized = vec![0; serialized_len];
-            v_serialized.copy_from_slice(
-                &mapped_slice[current_mmap_addr..current_mmap_addr + serialized_len],
-            );
-            current_mmap_addr += serialized_len;
-            let slice_t =
-                unsafe { std::slice::from_raw_parts(v_serialized.as_ptr() as *const T, dimension) };
-            trace!(
-                "Deserialized v : {:?} address : {:?} ",
-                slice_t,
-                v_serialized.as_ptr() as *const T
-            );
+            let v_serialized = next_bytes(mapped_slice, &mut current_mmap_addr, serialized_len)?;
+            trace!("Serialized v address : {:?} ", v_serialized.as_ptr());
         } // end of for on record
           //
         debug!("End of DataMap::from_hnsw.");
-- 
2.43.0


From 4c7225d175b697b4384961da6a1b27b75fbf19f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:48 +0000
Subject: [PATCH 09/25] fix: file_dump returns an error instead of panicking
 when its files cannot be opened

---
 src/api.rs    |  2 +-
 src/hnswio.rs | 17 +++++++++++++----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/api.rs b/src/api.rs
index 5d75fbc..dacbe11 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -71,7 +71,7 @@ where
         //
         // do not overwrite if mmap is active
         let overwrite = !self.get_datamap_opt();
-        let mut dumpinit = DumpInit::new(path, file_basename, overwrite);
+        let mut dumpinit = DumpInit::try_new(path, file_basename, overwrite)?;
         let dumpname = dumpinit.get_basename().clone();
         //
         let res = self.dump(DumpMode::Full, &mut dumpinit);
diff --git a/src/hnswio.rs b/src/hnswio.rs
index ceec5e1..b383e7c 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -150,7 +150,16 @@ pub struct DumpInit {
 
 impl DumpInit {
     // This structure will check existence of dumps of same name and generate a unique filename if necessary according to overwrite flag
+    // It panics if the files cannot be opened, see try_new
     pub fn new(dir: &Path, basename_default: &str, overwrite: bool) -> Self {
+        match DumpInit::try_new(dir, basename_default, overwrite) {
+            Result::Ok(dumpinit) => dumpinit,
+            Result::Err(e) => std::panic::panic_any(format!("{}", e)),
+        }
+    }
+
+    // same as new but returns an error if the files cannot be opened
+    pub(crate) fn try_new(dir: &Path, basename_default: &str, overwrite: bool) -> Result<Self> {
         // if we cannot overwrite data files (in case of mmap in particular)
         // we will ensure we have a unique basename
         let basename = match overwrite {
@@ -203,7 +212,7 @@ impl DumpInit {
                 "HnswIo::reload_hnsw : could not open file {:?}",
                 graphpath.as_os_str()
             );
-            std::panic::panic_any("HnswIo::init : could not open file".to_string());
+            return Err(anyhow!("HnswIo::init : could not open file {:?}", graphpath));
         }
         let graphfile = graphfileres.unwrap();
         //  same thing for data file
@@ -221,18 +230,18 @@ impl DumpInit {
                 "HnswIo::init : could not open file {:?}",
                 datapath.as_os_str()
             );
-            std::panic::panic_any("HnswIo::init : could not open file".to_string());
+            return Err(anyhow!("HnswIo::init : could not open file {:?}", datapath));
         }
         let datafile = datafileres.unwrap();
         //
         let graph_out = BufWriter::new(graphfile);
         let data_out = BufWriter::new(datafile);
         //
-        DumpInit {
+        Ok(DumpInit {
             basename,
             data_out,
             graph_out,
-        }
+        })
     }
 
     /// returns the basename used for the dump. May be it has been made unique to void overwriting a previous or mmapped dump
-- 
2.43.0


From 33310c69d1fc9e712f44523b50ccdb2287812744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:14 +0000
Subject: [PATCH 10/25] fix: create the files of a dump with a new name so that
 concurrent dumps do not share them

---
 src/hnswio.rs | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index b383e7c..5f72ac8 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -148,6 +148,28 @@ pub struct DumpInit {
     pub(crate) graph_out: BufWriter<File>,
 } // end of
 
+// Creates the 2 (empty) files of a dump. Returns false, and leaves nothing, if one of them already exists.
+// As creation and check of existence are done together a name cannot be given to 2 dumps.
+fn reserve_basename(dir: &Path, basename: &str) -> Result<bool> {
+    let create = |suffix: &str| {
+        let path = dir.join(format!("{}{}", basename, suffix));
+        let res = OpenOptions::new().create_new(true).write(true).open(&path);
+        match res {
+            Result::Ok(_) => Ok(Some(path)),
+            Result::Err(e) if e.kind() == std::io::ErrorKind::AlreadyExists => Ok(None),
+            Result::Err(e) => Err(anyhow!("could not create file {:?} : {}", path, e)),
+        }
+    };
+    let Some(datapath) = create(".hnsw.data")? else {
+        return Ok(false);
+    };
+    let graph_res = create(".hnsw.graph");
+    if !matches!(graph_res, Result::Ok(Some(_))) {
+        let _ = std::fs::remove_file(datapath);
+    }
+    Ok(graph_res?.is_some())
+}
+
 impl DumpInit {
     // This structure will check existence of dumps of same name and generate a unique filename if necessary according to overwrite flag
     // It panics if the files cannot be opened, see try_new
@@ -166,26 +188,15 @@ impl DumpInit {
             true => basename_default.to_string(),
             false => {
                 // we check
-                let mut dataname = basename_default.to_string();
-                dataname.push_str(".hnsw.data");
-                let mut datapath = PathBuf::from(dir);
-                datapath.push(dataname);
-                let exist_res = std::fs::metadata(datapath.as_os_str());
-                if exist_res.is_ok() {
+                if !reserve_basename(dir, basename_default)? {
                     let unique_basename = loop {
                         let mut unique_basename;
-                        let mut dataname: String;
                         let id: usize = rand::thread_rng().gen_range(0..10000);
                         let strid: String = id.to_string();
                         unique_basename = basename_default.to_string();
                         unique_basename.push('-');
                         unique_basename.push_str(&strid);
-                        dataname = unique_basename.clone();
-                        dataname.push_str(".hnsw.data");
-                        let mut datapath = PathBuf::from(dir);
-                        datapath.push(dataname);
-                        let exist_res = std::fs::metadata(datapath.as_os_str());
-                        if exist_res.is_err() {
+                        if reserve_basename(dir, &unique_basename)? {
                             break unique_basename;
                         }
                     };
-- 
2.43.0


From 34f5d68c65b67b0807a6217cc83b0c8bf38fa1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 11/25] fix: reload vectors with their own length instead of
 the length of the first one

---
 src/datamap.rs |  7 +++++--
 src/hnswio.rs  | 10 +++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/datamap.rs b/src/datamap.rs
index 825e259..f751ed9 100644
--- a/src/datamap.rs
+++ b/src/datamap.rs
@@ -162,7 +162,7 @@ impl DataMap {
         }
         //
         // now we know that each record consists in
-        //   - MAGICDATAP (u32), DataId  (u64), dimension (u64) and then  (length of type in bytes * dimension)
+        //   - MAGICDATAP (u32), DataId  (u64), length in bytes (u64) and then  (length of type in bytes * length of vector)
         //
         // and there is one record for each point in the graph file
         let nb_record = hnsw_description.nb_point;
@@ -285,7 +285,10 @@ impl DataMap {
         let slice_t = unsafe {
             std::slice::from_raw_parts(
                 mapped_slice[current_mmap_addr..].as_ptr() as *const T,
-                self.dimension,
+                // the length is specific to each vector, it can differ from the dimension in description
+                serialized_len
+                    .checked_div(std::mem::size_of::<T>())
+                    .unwrap_or(self.dimension),
             )
         };
         Some(slice_t)
diff --git a/src/hnswio.rs b/src/hnswio.rs
index 5f72ac8..4281732 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -1190,9 +1190,13 @@ where
         match descr.format_version {
             2 => bincode::deserialize(&v_serialized)?,
             3 | 4 => {
-                let slice_t = unsafe {
-                    std::slice::from_raw_parts(v_serialized.as_ptr() as *const T, descr.dimension)
-                };
+                // the length is specific to each vector, it can differ from the dimension in description
+                let len = v_serialized
+                    .len()
+                    .checked_div(std::mem::size_of::<T>())
+                    .unwrap_or(descr.dimension);
+                let slice_t =
+                    unsafe { std::slice::from_raw_parts(v_serialized.as_ptr() as *const T, len) };
                 slice_t.to_vec()
             }
             _ => {
-- 
2.43.0


From 32d43c897f4dc3f647572ea329ff6cdaa39f9237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 12/25] fix: do not read vectors at an address which is not
 aligned for their type

---
 src/datamap.rs | 25 ++++++++++++++++++++++++-
 src/hnswio.rs  | 14 +++++++++++---
 2 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/datamap.rs b/src/datamap.rs
index f751ed9..abc8098 100644
--- a/src/datamap.rs
+++ b/src/datamap.rs
@@ -11,6 +11,7 @@ use std::fs::{File, OpenOptions};
 use std::path::{Path, PathBuf};
 
 use indexmap::map::IndexMap;
+use std::collections::HashMap;
 use log::{debug, error, info, trace};
 use mmap_rs::{Mmap, MmapOptions};
 
@@ -28,6 +29,8 @@ pub struct DataMap {
     mmap: Mmap,
     /// map a dataId to an address where we get a bson encoded vector of type T
     hmap: IndexMap<DataId, usize>,
+    /// aligned copies of the vectors which do not have in file the alignment of their type
+    realigned: HashMap<DataId, Vec<u128>>,
     /// type name of Data
     t_name: String,
     /// dimension of data vector
@@ -168,6 +171,7 @@ impl DataMap {
         let nb_record = hnsw_description.nb_point;
         debug!("Mmap size {}, nb_record : {}", mmap.size(), nb_record);
         let mut hmap = IndexMap::<DataId, usize>::new();
+        let mut realigned = HashMap::<DataId, Vec<u128>>::new();
         // fill hmap to have address of each data point in file
         let mut u64_slice = [0u8; std::mem::size_of::<u64>()];
         //
@@ -210,6 +214,16 @@ impl DataMap {
             }
             let v_serialized = next_bytes(mapped_slice, &mut current_mmap_addr, serialized_len)?;
             trace!("Serialized v address : {:?} ", v_serialized.as_ptr());
+            // we return slices of T so we must have them at an address with the alignment of T
+            if v_serialized.as_ptr() as usize % std::mem::align_of::<T>() != 0 {
+                let size = std::mem::size_of::<u128>();
+                let words = v_serialized.chunks(size).map(|chunk| {
+                    let mut word = [0u8; std::mem::size_of::<u128>()];
+                    word[..chunk.len()].copy_from_slice(chunk);
+                    u128::from_ne_bytes(word)
+                });
+                realigned.insert(data_id, words.collect());
+            }
         } // end of for on record
           //
         debug!("End of DataMap::from_hnsw.");
@@ -218,6 +232,7 @@ impl DataMap {
             _datapath: datapath,
             mmap,
             hmap,
+            realigned,
             t_name,
             dimension: descr_dimension,
             distname,
@@ -282,9 +297,17 @@ impl DataMap {
         let serialized_len = u64::from_ne_bytes(u64_slice) as usize;
         current_mmap_addr += std::mem::size_of::<u64>();
         trace!("Serialized bytes len to reload {:?}", serialized_len);
+        let address_t = match self.realigned.get(dataid) {
+            Some(v) => v.as_ptr() as *const T,
+            None => mapped_slice[current_mmap_addr..].as_ptr() as *const T,
+        };
+        if address_t as usize % std::mem::align_of::<T>() != 0 {
+            error!("DataMap::get_data, data is not aligned for type argument");
+            return None;
+        }
         let slice_t = unsafe {
             std::slice::from_raw_parts(
-                mapped_slice[current_mmap_addr..].as_ptr() as *const T,
+                address_t,
                 // the length is specific to each vector, it can differ from the dimension in description
                 serialized_len
                     .checked_div(std::mem::size_of::<T>())
diff --git a/src/hnswio.rs b/src/hnswio.rs
index 4281732..6511e03 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -1195,9 +1195,17 @@ where
                     .len()
                     .checked_div(std::mem::size_of::<T>())
                     .unwrap_or(descr.dimension);
-                let slice_t =
-                    unsafe { std::slice::from_raw_parts(v_serialized.as_ptr() as *const T, len) };
-                slice_t.to_vec()
+                // v_serialized has not necessarily the alignment of T
+                let mut v = Vec::<T>::with_capacity(len);
+                unsafe {
+                    std::ptr::copy_nonoverlapping(
+                        v_serialized.as_ptr(),
+                        v.as_mut_ptr() as *mut u8,
+                        len * std::mem::size_of::<T>(),
+                    );
+                    v.set_len(len);
+                }
+                v
             }
             _ => {
                 error!(
-- 
2.43.0


From 87b519aabb00edbaeba461e04358ba85f61a2042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 13/25] fix: reload in memory when the data file could not be
 mapped instead of panicking

---
 src/hnswio.rs | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index 6511e03..064243b 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -512,6 +512,7 @@ impl HnswIo {
         let t_type = description.t_name.clone();
         debug!("T type name in dump = {:?}", t_type);
         // Do we use mmap at reload
+        self.datamap = None;
         if self.options.use_mmap().0 {
             let datamap_res = DataMap::from_hnswdump::<T>(self.dir.as_path(), &self.basename);
             if datamap_res.is_err() {
@@ -521,8 +522,10 @@ impl HnswIo {
                 self.datamap = Some(datamap_res.unwrap());
             }
         }
-        // reloader can use datamap
-        let layer_point_indexation = self.load_point_indexation(graph_in, &description, data_in)?;
+        // reloader can use datamap, all data are loaded in memory if we do not have it
+        let datamap = self.datamap.as_ref();
+        let layer_point_indexation =
+            self.load_point_indexation(graph_in, &description, data_in, datamap)?;
         let data_dim = layer_point_indexation.get_data_dimension();
         //
         let hnsw: Hnsw<T, D> = Hnsw {
@@ -611,8 +614,9 @@ impl HnswIo {
         let t_type = description.t_name.clone();
         info!("T type name in dump = {:?}", t_type);
         //
-        //
-        let layer_point_indexation = self.load_point_indexation(graph_in, &description, data_in)?;
+        // no datamap here, it is initialized only by load_hnsw
+        let layer_point_indexation =
+            self.load_point_indexation(graph_in, &description, data_in, None)?;
         let data_dim = layer_point_indexation.get_data_dimension();
         //
         let hnsw: Hnsw<T, D> = Hnsw {
@@ -639,6 +643,7 @@ impl HnswIo {
         graph_in: &mut dyn Read,
         descr: &Description,
         data_in: &mut dyn Read,
+        datamap: Option<&'a DataMap>,
     ) -> anyhow::Result<PointIndexation<'b, T>>
     where
         T: 'static + Serialize + DeserializeOwned + Clone + Sized + Send + Sync + std::fmt::Debug,
@@ -673,7 +678,7 @@ impl HnswIo {
         //
         let mut nb_points_loaded: usize = 0;
         let mut nb_still_to_load = descr.nb_point as i64;
-        let (use_mmap, max_nbpoint_in_memory) = self.options.use_mmap();
+        let (_, max_nbpoint_in_memory) = self.options.use_mmap();
         //
         for l in 0..nb_layer as usize {
             // read and check magic
@@ -694,9 +699,9 @@ impl HnswIo {
                 // do we use mmap? for this point. We must load into memory up to threshold points, and we also want the  most
                 // frequently accessed points, i.e those in upper layers! to be physically loaded.
                 // So we do use mmap from the moment the number of points yet to be loaded is less than threshold.
-                let point_use_mmap = match use_mmap {
-                    false => false,
-                    true => {
+                let point_datamap = match datamap {
+                    None => None,
+                    Some(_) => {
                         if nb_still_to_load <= max_nbpoint_in_memory as i64 {
                             if log::log_enabled!(log::Level::Info)
                                 && nb_still_to_load == max_nbpoint_in_memory as i64
@@ -706,13 +711,13 @@ impl HnswIo {
                                     nb_still_to_load
                                 );
                             }
-                            false
+                            None
                         } else {
-                            true
+                            datamap
                         }
                     }
                 };
-                let load_point_res = self.load_point(graph_in, descr, data_in, point_use_mmap);
+                let load_point_res = self.load_point(graph_in, descr, data_in, point_datamap);
                 if let Err(other) = load_point_res {
                     error!("in load_point_indexation, loading of point {} failed", r);
                     return Err(anyhow!(other));
@@ -828,7 +833,7 @@ impl HnswIo {
         graph_in: &mut dyn Read,
         descr: &Description,
         data_in: &mut dyn Read,
-        point_use_mmap: bool,
+        point_datamap: Option<&'a DataMap>,
     ) -> Result<(Arc<Point<'b, T>>, Vec<Vec<Neighbour>>)>
     where
         T: 'static + DeserializeOwned + Clone + Sized + Send + Sync + std::fmt::Debug,
@@ -844,8 +849,8 @@ impl HnswIo {
         }
         let (origin_id, p_id, neighborhood) = load_res.unwrap();
         //
-        let point = match point_use_mmap {
-            false => {
+        let point = match point_datamap {
+            None => {
                 let v = load_point_data::<T>(origin_id, data_in, descr);
                 if v.is_err() {
                     error!("loading point {:?}", origin_id);
@@ -853,11 +858,12 @@ impl HnswIo {
                 }
                 Point::<T>::new(v.unwrap(), origin_id, p_id)
             }
-            true => {
+            Some(datamap) => {
                 skip_point_data(origin_id, data_in, descr)?; // keep cohrence between data file and graph file!
                 debug!("constructing point from datamap, dataid : {:?}", origin_id);
-                let s: Option<&'b [T]> = self.datamap.as_ref().unwrap().get_data::<T>(&origin_id);
-                Point::<T>::new_from_mmap(s.unwrap(), origin_id, p_id)
+                let s: Option<&'b [T]> = datamap.get_data::<T>(&origin_id);
+                let s = s.ok_or_else(|| anyhow!("no data for point {:?}", origin_id))?;
+                Point::<T>::new_from_mmap(s, origin_id, p_id)
             }
         };
         self.nb_point_loaded.fetch_add(1, Ordering::Relaxed);
-- 
2.43.0


From a35b8af54ffeb17ff2f8914cf89df3f4727848f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:12 +0000
Subject: [PATCH 14/25] fix: load_hnsw_description fills the number of points

---
 src/libext.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libext.rs b/src/libext.rs
index 76bfd62..d19fc55 100644
--- a/src/libext.rs
+++ b/src/libext.rs
@@ -1195,6 +1195,7 @@ pub unsafe extern "C" fn load_hnsw_description(
                 ffi_description.max_nb_connection = description.max_nb_connection;
                 ffi_description.nb_layer = description.nb_layer;
                 ffi_description.ef = description.ef;
+                ffi_description.nb_point = description.nb_point;
                 ffi_description.data_dimension = description.dimension;
                 ffi_description.distname_len = distname_len;
                 ffi_description.distname = distname_ptr;
-- 
2.43.0


From ed076b3826c4c7791697a2b73d97aba37c01fdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:30 +0000
Subject: [PATCH 15/25] fix: a reload which fails on its neighbours or its
 entry point releases the points already loaded

---
 src/hnswio.rs | 55 +++++++++++++++++++++++++++------------------------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index 064243b..fbf29b3 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -743,32 +743,8 @@ impl HnswIo {
             points_by_layer.push(vlayer);
         }
         ensure!(nb_still_to_load == 0, "less points than expected");
-        // at this step all points are loaded , but without their neighbours fileds are not yet initialized
-        let mut nbp: usize = 0;
-        for (p_id, neighbours) in &neighbourhood_map {
-            let point = &points_by_layer[p_id.0 as usize][p_id.1 as usize];
-            for (l, neighbours) in neighbours.iter().enumerate() {
-                for n in neighbours {
-                    let n_point = points_by_layer
-                        .get(n.p_id.0 as usize)
-                        .and_then(|layer| layer.get(n.p_id.1 as usize))
-                        .ok_or_else(|| anyhow!("inconsistent neighbour {:?}", n.p_id))?;
-                    // now n_point is the Arc<Point> corresponding to neighbour n of point,
-                    // construct a corresponding PointWithOrder
-                    let n_pwo = PointWithOrder::<T>::new(n_point, n.distance);
-                    point.neighbours.write()[l].push(Arc::new(n_pwo));
-                } // end of for n
-                  //  must sort
-                point.neighbours.write()[l].sort_unstable();
-            } // end of for l
-            nbp += 1;
-            if nbp % 500_000 == 0 {
-                debug!("reloading nb_points neighbourhood completed : {}", nbp);
-            }
-        } // end loop in neighbourhood_map
-          //
-          // get id of entry_point
-          // load entry point
+        // get id of entry_point
+        // load entry point
         info!(
             "end of layer loading, allocating PointIndexation, nb points loaded {:?}",
             nb_points_loaded
@@ -817,6 +793,33 @@ impl HnswIo {
             entry_point: Arc::new(RwLock::new(Some(entry_point))),
         };
         //
+        // at this step all points are loaded , but without their neighbours fileds are not yet initialized
+        // an error from here drops point_indexation, which clears the neighbourhoods already initialized
+        let points_by_layer = point_indexation.points_by_layer.read();
+        let mut nbp: usize = 0;
+        for (p_id, neighbours) in &neighbourhood_map {
+            let point = &points_by_layer[p_id.0 as usize][p_id.1 as usize];
+            for (l, neighbours) in neighbours.iter().enumerate() {
+                for n in neighbours {
+                    let n_point = points_by_layer
+                        .get(n.p_id.0 as usize)
+                        .and_then(|layer| layer.get(n.p_id.1 as usize))
+                        .ok_or_else(|| anyhow!("inconsistent neighbour {:?}", n.p_id))?;
+                    // now n_point is the Arc<Point> corresponding to neighbour n of point,
+                    // construct a corresponding PointWithOrder
+                    let n_pwo = PointWithOrder::<T>::new(n_point, n.distance);
+                    point.neighbours.write()[l].push(Arc::new(n_pwo));
+                } // end of for n
+                  //  must sort
+                point.neighbours.write()[l].sort_unstable();
+            } // end of for l
+            nbp += 1;
+            if nbp % 500_000 == 0 {
+                debug!("reloading nb_points neighbourhood completed : {}", nbp);
+            }
+        } // end loop in neighbourhood_map
+        drop(points_by_layer);
+        //
         debug!("Exiting load_pointIndexation");
         Ok(point_indexation)
     } // end of load_pointIndexation
-- 
2.43.0


From 384a11460e648bae852d2b99a41f46a8f3ae089e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:37 +0000
Subject: [PATCH 16/25] fix: link points of the upper layers in a layer where
 no point is stored yet

---
 src/hnsw.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index 4ebb41f..7ae7445 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -931,11 +931,8 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
         // we will store positive distances in this one
         let mut return_points = BinaryHeap::<Arc<PointWithOrder<T>>>::with_capacity(skiplist_size);
         //
-        if self.layer_indexed_points.points_by_layer.read()[layer as usize].is_empty() {
-            // at the beginning we can have nothing in layer
-            trace!("search layer {:?}, empty layer", layer);
-            return return_points;
-        }
+        // a layer in which no point was stored can nevertheless be searched: points stored in the layers above
+        // have neighbours in it.
         if entry_point.p_id.1 < 0 {
             trace!("search layer negative point id : {:?}", entry_point.p_id);
             return return_points;
-- 
2.43.0


From 14884b96732ee44528813b05814567fb2b37b6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:49 +0000
Subject: [PATCH 17/25] fix: add the reverse link of a new point in the layer
 of the link

---
 src/hnsw.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index 7ae7445..6f39949 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -1221,9 +1221,9 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
                     let q_point = &q.point_ref;
                     let mut q_point_neighbours = q_point.neighbours.write();
                     let n_to_add = PointWithOrder::<T>::new(&Arc::clone(&new_point), q.dist_to_ref);
-                    // must be sure that we add a point at the correct level. See the comment to search_layer!
-                    // this ensures that reverse updating do not add problems.
-                    let l_n = n_to_add.point_ref.p_id.0 as usize;
+                    // links are bidirectional in each layer: q_point is a neighbour in layer l so the reverse link is
+                    // in layer l also. Otherwise new_point would be seen only from the points of its own layer.
+                    let l_n = l as usize;
                     let already = q_point_neighbours[l_n]
                         .iter()
                         .position(|old| old.point_ref.p_id == new_point.p_id);
-- 
2.43.0


From 1d85edaf1fee2abc62a0d1076e03ca2776eedb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:34 +0000
Subject: [PATCH 18/25] fix: DataMap::check_data_type compares the last part of
 type names instead of the name of the crate

---
 src/datamap.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/datamap.rs b/src/datamap.rs
index abc8098..0c50873 100644
--- a/src/datamap.rs
+++ b/src/datamap.rs
@@ -252,19 +252,20 @@ impl DataMap {
         // we check last part of name of type
         let tname_vec = self.t_name.rsplit_terminator("::").collect::<Vec<&str>>();
 
-        if tname_vec.last().is_none() {
+        // parts come in reverse order: the last part of name is the first one
+        if tname_vec.first().is_none() {
             let errmsg = "DataMap::check_data_type() cannot determine data type name ";
             error!("DataMap::check_data_type() cannot determine data type name ");
             std::panic!("DataMap::check_data_type(), {}", errmsg);
         }
-        let tname_last = tname_vec.last().unwrap();
+        let tname_last = tname_vec.first().unwrap();
         //
         let datat_name_arg = std::any::type_name::<T>().to_string();
         let datat_name_vec = datat_name_arg
             .rsplit_terminator("::")
             .collect::<Vec<&str>>();
 
-        let datat_name_arg_last = datat_name_vec.last().unwrap();
+        let datat_name_arg_last = datat_name_vec.first().unwrap();
         //
         if datat_name_arg_last == tname_last {
             true
-- 
2.43.0


From faf56bba3e15a12ae3c71a6e2325871f841a1222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 19/25] fix: a reloaded index whose data is in memory dumps
 under the requested name

load_hnsw marked every reloaded index as memory mapped, so that a dump under
an existing name went to a random one, which the C interface cannot report.
---
 src/hnswio.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index fbf29b3..dc275ca 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -538,7 +538,7 @@ impl HnswIo {
             data_dimension: data_dim,
             dist_f: D::default(),
             searching: false,
-            datamap_opt: true, // set datamap_opt to true
+            datamap_opt: datamap.is_some(), // only data coming from a mmap must not be overwritten
         };
         //
         debug!("load_hnsw completed");
-- 
2.43.0


From beeaa1cc8d1a31722928bad68328e9a1f84431b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:53 +0000
Subject: [PATCH 20/25] fix: dumps with a type or distance name longer than 256
 characters could not be reloaded

---
 src/hnswio.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index dc275ca..af817f5 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -66,6 +66,9 @@ const MAGICLAYER: u32 = 0x000a676f;
 // magic head of data file and before each data vector
 pub(crate) const MAGICDATAP: u32 = 0xa67f0000;
 
+// maximum length of the names of distance and type in description. Names of generic types can be long.
+const NAME_LEN_MAX: usize = 65536;
+
 #[derive(Debug, Clone, Copy, PartialEq)]
 pub enum DumpMode {
     Light,
@@ -947,6 +950,10 @@ impl Description {
         out.write_all(&self.dimension.to_ne_bytes())?;
 
         // dump of distance name
+        if self.distname.len() > NAME_LEN_MAX || self.t_name.len() > NAME_LEN_MAX {
+            // load_description would refuse it
+            return Err(anyhow!("dump of Description, too long type name"));
+        }
         let namelen: usize = self.distname.len();
         info!("distance name {:?} ", self.distname);
         out.write_all(&namelen.to_ne_bytes())?;
@@ -1054,9 +1061,12 @@ pub fn load_description(io_in: &mut dyn Read) -> Result<Description> {
     io_in.read_exact(&mut it_slice)?;
     let len: usize = usize::from_ne_bytes(it_slice);
     debug!("length of distance name {:?} ", len);
-    if len > 256 {
-        info!(" length of distance name > 256");
-        println!(" length of distance name should not exceed 256");
+    if len > NAME_LEN_MAX {
+        info!(" length of distance name > {}", NAME_LEN_MAX);
+        println!(
+            " length of distance name should not exceed {}",
+            NAME_LEN_MAX
+        );
         return Err(anyhow!("bad length for distance name"));
     }
     let mut distv = vec![0; len];
@@ -1069,8 +1079,8 @@ pub fn load_description(io_in: &mut dyn Read) -> Result<Description> {
     io_in.read_exact(&mut it_slice)?;
     let len: usize = usize::from_ne_bytes(it_slice);
     debug!("length of T  name {:?} ", len);
-    if len > 256 {
-        println!(" length of T name should not exceed 256");
+    if len > NAME_LEN_MAX {
+        println!(" length of T name should not exceed {}", NAME_LEN_MAX);
         return Err(anyhow!("bad lenght for T name"));
     }
     let mut tnamev = vec![0; len];
-- 
2.43.0


From 27d9fd90f4c1355bbc4379fe3622aef95cf9902a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:14 +0000
Subject: [PATCH 21/25] fix: load_hnsw took generic distances for each other
 when the names of their arguments ended alike

---
 src/hnswio.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index af817f5..7b0c32d 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -332,6 +332,13 @@ pub struct HnswIo {
     initialized: bool,
 } // end of struct ReloadOptions
 
+/// name of a type without the path of its module nor those of its generic arguments
+fn short_type_name(name: &str) -> String {
+    name.split_inclusive(|c: char| !(c.is_alphanumeric() || c == '_' || c == ':'))
+        .map(|s| s.rsplit("::").next().unwrap_or(s))
+        .collect()
+}
+
 impl HnswIo {
     /// - directory is directory containing the dumped files,
     /// - basename is used to build $basename.hnsw.data and $basename.hnsw.graph
@@ -495,13 +502,9 @@ impl HnswIo {
         // for that we check for short names equality stripping
         debug!("distance in description = {:?}", distname);
         let d_type_name = type_name::<D>().to_string();
-        let d_type_name_split: Vec<&str> = d_type_name.rsplit_terminator("::").collect();
-        for s in &d_type_name_split {
-            info!(" distname in generic type argument {:?}", s);
-        }
-        let distname_split: Vec<&str> = distname.rsplit_terminator("::").collect();
+        info!(" distname in generic type argument {:?}", d_type_name);
         if (std::any::TypeId::of::<T>() != std::any::TypeId::of::<NoData>())
-            && (d_type_name_split[0] != distname_split[0])
+            && (short_type_name(&d_type_name) != short_type_name(&distname))
         {
             // for all types except NoData , distance asked in reload declaration and distance in dump must be equal!
             let mut errmsg = String::from("error in distances : dumped distance is : ");
-- 
2.43.0


From 9c6648a01953168555307c9aa2303744dd686a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:34 +0000
Subject: [PATCH 22/25] fix: a dump taken while points are inserted reported
 success but could not be reloaded

---
 src/hnswio.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index 7b0c32d..167be2d 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -1368,10 +1368,22 @@ fn load_point_graph(graph_in: &mut dyn Read, descr: &Description) -> Result<Poin
 //
 impl<T: Serialize + DeserializeOwned + Clone + Send + Sync> HnswIoT for PointIndexation<'_, T> {
     fn dump(&self, mode: DumpMode, dumpinit: &mut DumpInit) -> Result<i32> {
+        let layers = self.points_by_layer.read();
+        self.dump_layers(&layers, mode, dumpinit)
+    } // end of dump for PointIndexation<T>
+} // end of impl HnswIO
+
+impl<T: Serialize + DeserializeOwned + Clone + Send + Sync> PointIndexation<'_, T> {
+    // layers is the content of points_by_layer, read locked by the caller so that no point is added during the dump
+    fn dump_layers(
+        &self,
+        layers: &[Vec<Arc<Point<'_, T>>>],
+        mode: DumpMode,
+        dumpinit: &mut DumpInit,
+    ) -> Result<i32> {
         let graphout = &mut dumpinit.graph_out;
         let dataout = &mut dumpinit.data_out;
         // dump max_layer
-        let layers = self.points_by_layer.read();
         let nb_layer = layers.len() as u8;
         graphout.write_all(&nb_layer.to_ne_bytes())?;
         // dump layers from lower (most populatated to higher level)
@@ -1404,8 +1416,8 @@ impl<T: Serialize + DeserializeOwned + Clone + Send + Sync> HnswIoT for PointInd
         );
         //
         Ok(1)
-    } // end of dump for PointIndexation<T>
-} // end of impl HnswIO
+    } // end of dump_layers
+} // end of impl PointIndexation
 
 //
 // dump and load of Hnsw<T>
@@ -1430,6 +1442,8 @@ impl<
             DumpMode::Full => 1,
             _ => 0,
         };
+        // the number of points in description must be the number of points dumped, even if insertions go on.
+        let layers = self.layer_indexed_points.points_by_layer.read();
         let datadim: usize = self.layer_indexed_points.get_data_dimension();
         let level_scale = self.layer_indexed_points.get_level_scale();
         let description = Description {
@@ -1440,7 +1454,7 @@ impl<
             level_scale,
             nb_layer: self.get_max_level() as u8,
             ef: self.get_ef_construction(),
-            nb_point: self.get_nb_point(),
+            nb_point: layers.iter().map(|layer| layer.len()).sum(),
             dimension: datadim,
             distname: self.get_distance_name(),
             t_name: type_name::<T>().to_string(),
@@ -1451,7 +1465,8 @@ impl<
         dataout.write_all(&MAGICDATAP.to_ne_bytes())?;
         dataout.write_all(&datadim.to_ne_bytes())?;
         //
-        self.layer_indexed_points.dump(mode, dumpinit)?;
+        self.layer_indexed_points
+            .dump_layers(&layers, mode, dumpinit)?;
         Ok(1)
     }
 } // end impl block for Hnsw
-- 
2.43.0


From b9aaf840dcf8bf56098e2d618ad381da43dc95c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:59 +0000
Subject: [PATCH 23/25] fix: a new index reserved hundreds of table entries for
 each element announced

---
 src/hnsw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index 6f39949..f5bea1b 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -446,7 +446,7 @@ impl<'b, T: Clone + Send + Sync> PointIndexation<'b, T> {
             // recall that range are right extremeity excluded
             // compute fraction of points going into layer i and do expected memory reservation
             let s = 1. / (max_nb_connection as f64).ln();
-            let frac = (-(i as f64) / s).exp() - (-((i + 1) as f64) / s);
+            let frac = (-(i as f64) / s).exp() - (-((i + 1) as f64) / s).exp();
             let expected_size = ((frac * max_elements as f64).round()) as usize;
             points_by_layer.push(Vec::with_capacity(expected_size));
         }
-- 
2.43.0


From 33d5bccee1ead9c41a042feaa1add627e9876108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:59 +0000
Subject: [PATCH 24/25] fix: searching or inserting with a large ef or number
 of neighbours reserved memory for as many points and panicked

---
 src/hnsw.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index f5bea1b..c3aa6d6 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -927,7 +927,8 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
         //
         // here we allocate a binary_heap on values not on reference beccause we want to return
         // log2(skiplist_size) must be greater than 1.
-        let skiplist_size = ef.max(2);
+        // ef can exceed by far the number of points stored, so it does not fix the memory reserved (the heaps grow if necessary)
+        let skiplist_size = ef.clamp(2, 1024);
         // we will store positive distances in this one
         let mut return_points = BinaryHeap::<Arc<PointWithOrder<T>>>::with_capacity(skiplist_size);
         //
-- 
2.43.0


From a31f13a8a231a59b6974d90ad9b9f9c27c6416da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:59 +0000
Subject: [PATCH 25/25] fix: the dump of a mapped index never returned when all
 names with a number below 10000 were taken

---
 src/hnswio.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index 167be2d..23fec0e 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -192,9 +192,12 @@ impl DumpInit {
             false => {
                 // we check
                 if !reserve_basename(dir, basename_default)? {
+                    // all small numbers can already be taken, so we draw among more and more of them
+                    let mut nb_id: usize = 10000;
                     let unique_basename = loop {
                         let mut unique_basename;
-                        let id: usize = rand::thread_rng().gen_range(0..10000);
+                        let id: usize = rand::thread_rng().gen_range(0..nb_id);
+                        nb_id = nb_id.saturating_mul(2);
                         let strid: String = id.to_string();
                         unique_basename = basename_default.to_string();
                         unique_basename.push('-');
-- 
2.43.0

