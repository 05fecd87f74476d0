From 8b723ef283875647f83d93e72d93f6b7655df529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 01/26] fix: schedule_stop refreshes the runner's next tick

A stop scheduled before any already scheduled event (or as the only event)
was not seen by execute(), which uses the cached next_tick.
---
 src/repast4py/schedule.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/repast4py/schedule.py b/src/repast4py/schedule.py
index cb8fc68..8c5b238 100644
--- a/src/repast4py/schedule.py
+++ b/src/repast4py/schedule.py
@@ -594,6 +594,7 @@ class SharedScheduleRunner:
             The ScheduledEvent instance that executes the stop event.
         """
         sch_evt = self.schedule.schedule_event(at, self.stop, metadata={'__type': EvtType.STOP})
+        self.next_tick = self.schedule.next_tick()
         return sch_evt
 
     def stop(self):
-- 
2.43.0


From 40798c641078d4f93461112657b1cb94f8247f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:47 +0000
Subject: [PATCH 02/26] fix: keep BY_PRIORITY order when a tick's events are
 re-sorted

Events added during execution re-sort the group. RANDOM events already merged
among the prioritized ones have a nan priority, which broke that sort.
---
 src/repast4py/schedule.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/repast4py/schedule.py b/src/repast4py/schedule.py
index 8c5b238..5c485e1 100644
--- a/src/repast4py/schedule.py
+++ b/src/repast4py/schedule.py
@@ -208,6 +208,10 @@ class ScheduleGroup:
         self.size_ += 1
 
     def sort(self):
+        # Random events that an earlier sort merged into the prioritized events have
+        # no meaningful priority to sort by, so they are merged anew.
+        self.random.extend(evt for evt in self.prioritized if evt.priority_type == PriorityType.RANDOM)
+        self.prioritized[:] = [evt for evt in self.prioritized if evt.priority_type != PriorityType.RANDOM]
         # sort according to the order of insertion
         # so we have a predictable starting point for randomization
         self.random.sort(key=lambda evt: evt.order_idx)
-- 
2.43.0


From 5732c1ad2ceb529c2104c45895297f789333a1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 03/26] fix: log to a file named without a directory

os.path.dirname of a bare file name is '', which os.makedirs rejects.
---
 src/repast4py/logging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/logging.py b/src/repast4py/logging.py
index cea93f0..95e34b2 100644
--- a/src/repast4py/logging.py
+++ b/src/repast4py/logging.py
@@ -287,7 +287,7 @@ class ReducingDataSet:
 
         if self._rank == 0:
             parent = os.path.dirname(fpath)
-            if not os.path.exists(parent):
+            if parent and not os.path.exists(parent):
                 os.makedirs(parent)
             self.ticks = []
 
@@ -363,7 +363,7 @@ class TabularLogger:
         if self._rank == 0:
             self._fpath = find_free_filename(fpath)
             parent = os.path.dirname(self._fpath)
-            if not os.path.exists(parent):
+            if parent and not os.path.exists(parent):
                 os.makedirs(parent)
 
             with open(self._fpath, 'w', newline='') as fout:
-- 
2.43.0


From 80fa204c4fa3e03db509c18413cf6762efe12e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:53 +0000
Subject: [PATCH 04/26] fix: ReadWriteValueLayer neighborhood reads and ghost
 synchronization

get_nghs read a non-existing attribute, and SharedContext calls _synch_ghosts
on its value layers without arguments.
---
 src/repast4py/value_layer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/value_layer.py b/src/repast4py/value_layer.py
index 921f9c6..33aae66 100644
--- a/src/repast4py/value_layer.py
+++ b/src/repast4py/value_layer.py
@@ -1086,7 +1086,7 @@ class ReadWriteValueLayer:
             the neighboring locations as a np.array: (values, ngh_locations). The first value in
             the values tensor is the value of the first location in the ngh_locations array, and so forth.
         """
-        return self.read.get_nghs(pt)
+        return self.read_layer.get_nghs(pt)
 
     def _pre_synch_ghosts(self, agent_manager: AgentManager):
         """Called prior to synchronizing ghosts and before any cross-rank movement
@@ -1097,7 +1097,7 @@ class ReadWriteValueLayer:
         """
         pass
 
-    def _synch_ghosts(self, agent_manager: AgentManager, create_agent: Callable):
+    def _synch_ghosts(self, agent_manager: AgentManager = None, create_agent: Callable = None):
         """Synchronizes the ghosted buffer parts of the read and write value layers.
 
         Args:
-- 
2.43.0


From 1dd5da9e7988a2e73b62405ebf53d94f1637d3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 05/26] fix: SharedValueLayer buffer addressing and ghost
 synchronization

The buffered bounds ignored a non-zero origin and, when periodic, did not
include the buffer before the first rank, several slices for the same neighbor
shared one place in the message, the regions of a dimension spanned by a single
process were misplaced, and a single process could not synchronize.
---
 src/repast4py/value_layer.py | 90 +++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 47 deletions(-)

diff --git a/src/repast4py/value_layer.py b/src/repast4py/value_layer.py
index 33aae66..0183f54 100644
--- a/src/repast4py/value_layer.py
+++ b/src/repast4py/value_layer.py
@@ -504,19 +504,20 @@ class SharedValueLayer(ValueLayer):
             self.buffered_bounds = self.local_bounds
             self.non_buff_grid_offsets = np.zeros(6, dtype=np.int32)
 
-        super().__init__(self.buffered_bounds, borders, 'random', dtype)
+        # the grid begins at the buffer, also where that buffer wraps around a periodic border
+        bb = self.buffered_bounds
+        offsets = self.non_buff_grid_offsets
+        grid_bounds = BoundingBox(self.local_bounds.xmin - offsets[0], bb.xextent,
+                                  self.local_bounds.ymin - offsets[2], bb.yextent,
+                                  self.local_bounds.zmin - offsets[4], bb.zextent)
+        super().__init__(grid_bounds, borders, 'random', dtype)
 
         nd = 1 if bounds.yextent == 0 else (3 if bounds.zextent > 0 else 2)
         if nd == 3:
             raise ValueError("3D SharedValueLayer is not yet supported")
 
-        mins = [bounds.xmin, bounds.ymin, bounds.zmin]
         self.buffer_self = []
-        if self.periodic:
-            for i in range(0, nd):
-                if self.impl.pt_translation[i] == 0:
-                    self.impl.pt_translation[i] = buffer_size - mins[i]
-
+        if self.periodic and comm.Get_size() > 1:
             if len(self.procs_per_dim) == 1 and self.procs_per_dim[0] == 1:
                 self.buffer_self.append(self._buffer_self_X)
 
@@ -552,26 +553,28 @@ class SharedValueLayer(ValueLayer):
                     self.grid[z1: z2, y1: y2, x1: x2] = init_value
 
     def _buffer_self_X(self):
-        # left
-        left = self.grid[self.buffer_size: self.buffer_size + self.local_bounds.yextent, self.buffer_size: self.buffer_size * 2]
         # set right buffer to left unbuffered
-        self.grid[self.buffer_size: self.buffer_size + self.local_bounds.yextent, -self.buffer_size:] = left
-        right = self.grid[self.buffer_size: self.buffer_size + self.local_bounds.yextent, -self.buffer_size * 2: -self.buffer_size]
+        self.grid[:, -self.buffer_size:] = self.grid[:, self.buffer_size: self.buffer_size * 2]
         # set left buffer to right unbuffered
-        self.grid[self.buffer_size: self.buffer_size + self.local_bounds.yextent, 0: self.buffer_size] = right
+        self.grid[:, 0: self.buffer_size] = self.grid[:, -self.buffer_size * 2: -self.buffer_size]
 
     def _buffer_self_Y(self):
-        # unbuffered top area
-        top = self.grid[self.buffer_size: self.buffer_size * 2, self.buffer_size: self.buffer_size + self.local_bounds.xextent]
         # set bottom buffer to top unbuffered
-        self.grid[-self.buffer_size:, self.buffer_size: self.buffer_size + self.local_bounds.xextent] = top
-        bottom = self.grid[-self.buffer_size * 2: -self.buffer_size, self.buffer_size: self.buffer_size + self.local_bounds.xextent]
-        self.grid[0: self.buffer_size, self.buffer_size: self.buffer_size + self.local_bounds.xextent] = bottom
+        self.grid[-self.buffer_size:, :] = self.grid[self.buffer_size: self.buffer_size * 2, :]
+        # set top buffer to bottom unbuffered
+        self.grid[0: self.buffer_size, :] = self.grid[-self.buffer_size * 2: -self.buffer_size, :]
 
     def _buffer_self(self):
         for func in self.buffer_self:
             func()
 
+    def _is_self_buffered(self, bounds):
+        # Where a single process spans a periodic dimension, the buffers beyond that
+        # dimension, including their corners, are copied from this process' own grid.
+        lb = self.local_bounds
+        return self.periodic and ((self.procs_per_dim[0] == 1 and bounds[1] - bounds[0] != lb.xextent)
+                                  or (self.procs_per_dim[1] == 1 and bounds[3] - bounds[2] != lb.yextent))
+
     def _wrap_slice_vals(self, start_val, end_val, full_extent, local_extent, procs_per_dim):
         if procs_per_dim > 1:
             if start_val < 0:
@@ -581,16 +584,13 @@ class SharedValueLayer(ValueLayer):
                 start_val -= full_extent
                 end_val -= full_extent
 
-        elif start_val == local_extent and self.periodic:
-            start_val = start_val + self.buffer_size
-            end_val = end_val + self.buffer_size
-
         return (start_val, end_val)
 
     def _init_buffered_bounds(self, bounds, buffer_size, periodic):
-        xmin, xextent = 0, 0
-        ymin, yextent = 0, 0
-        zmin, zextent = 0, 0
+        lb = self.local_bounds
+        xmin, xextent = lb.xmin, lb.xextent
+        ymin, yextent = lb.ymin, lb.yextent
+        zmin, zextent = lb.zmin, lb.zextent
         # offsets from buffered grid into the local grid data
         self.non_buff_grid_offsets = np.zeros(6, dtype=np.int32)
 
@@ -685,7 +685,8 @@ class SharedValueLayer(ValueLayer):
         ngh_buffers.sort(key=lambda data: data[0])
         buf_dtype = self.grid[ngh_buffers[0][4]].numpy().dtype
 
-        data_size = 3 if topo.procs_per_dim[0] != 2 and self.periodic else 6
+        # with two processes both strips go to the same neighbor
+        data_size = 6
 
         num_procs = self.cart_comm.Get_size()
         meta_data_send = np.zeros((num_procs, data_size), dtype=np.int32)
@@ -750,6 +751,8 @@ class SharedValueLayer(ValueLayer):
         r_trans = self.impl.pt_translation[1]
         # Compute what to send to which neighbor
         for ngh_rank, bounds in topo.compute_buffer_nghs(buffer_size):
+            if self._is_self_buffered(bounds):
+                continue
             # convert bounds into grid slices, row major'ing and
             # applying the pt translations.
             row = bounds[2] + r_trans
@@ -769,15 +772,8 @@ class SharedValueLayer(ValueLayer):
         num_procs = self.cart_comm.Get_size()
 
         offset = 6
-        data_size = offset
-        if self.periodic:
-            if topo.procs_per_dim[0] == 2 and topo.procs_per_dim[1] == 2:
-                data_size = 24
-            elif topo.procs_per_dim[0] == 2 or topo.procs_per_dim[1] == 2:
-                if num_procs == 2:
-                    data_size = 36
-                else:
-                    data_size = 12
+        # when periodic, up to 4 slices (e.g., the corners) can go to the same neighbor
+        data_size = offset * 4 if self.periodic else offset
 
         # send buffer for meta data (bounds etc.)
         meta_data_send = np.zeros((num_procs, data_size), dtype=np.int32)
@@ -807,19 +803,12 @@ class SharedValueLayer(ValueLayer):
         recv_buf = np.empty(np.sum(recv_counts), dtype=buf_dtype)
         recv_buf_data = []
 
-        rts = [r_trans for _ in range(num_sent_slices)]
-        cts = [c_trans for _ in range(num_sent_slices)]
-        if topo.procs_per_dim[0] == 1:
-            cts = [0, 0, 0, 0, c_trans, c_trans]
-        elif topo.procs_per_dim[1] == 1:
-            rts = [0, r_trans, 0, r_trans, r_trans, r_trans]
-
         for ngh_rank, data in enumerate(self.ngh_meta_data_recv):
             # data: shape, pytorch_ordered bounds [ 2 30  0 30 80 82  0  0]
             slice_data = []
             if data[0] != 0:
-                row = data[2] + rts[0]
-                col = data[4] + cts[0]
+                row = data[2] + r_trans
+                col = data[4] + c_trans
                 # origin + extent
                 stop_row = row + (data[3] - data[2])
                 stop_col = col + (data[5] - data[4])
@@ -833,8 +822,8 @@ class SharedValueLayer(ValueLayer):
                 for i in range(1, num_sent_slices):
                     idx = offset * i
                     if data[idx] != 0:
-                        row = data[idx + 2] + rts[i]
-                        col = data[idx + 4] + cts[i]
+                        row = data[idx + 2] + r_trans
+                        col = data[idx + 4] + c_trans
                         # origin + extent
                         stop_row = row + (data[idx + 3] - data[idx + 2])
                         stop_col = col + (data[idx + 5] - data[idx + 4])
@@ -962,19 +951,25 @@ class SharedValueLayer(ValueLayer):
         # ngh_buffers: (ngh_rank, size, shape, bounds, slice_tuple)
         # recv_buf_data: (ngh_rank, shape, slice_tuple)
 
+        # nothing is shared with other processes
+        if self.cart_comm.Get_size() == 1:
+            return
+
         # fill send buffer from grid view
         send_msg, ngh_buffers = self.send_data
-        send_displs = send_msg[1][1]
+        # a neighbor's slices follow each other in the buffer
+        send_displs = send_msg[1][1].copy()
         send_buf = send_msg[0]
         for ngh_rank, size, _, _, tslice in ngh_buffers:
             disp = send_displs[ngh_rank]
             send_buf[disp: disp + size] = self.grid[tslice].numpy().reshape(size)
+            send_displs[ngh_rank] += size
 
         self.cart_comm.Alltoallv(self.send_data[0], self.recv_data[0])
 
         # update grid view from recv_buffer
         recv_msg, recv_buf_data = self.recv_data
-        recv_displs = recv_msg[1][1]
+        recv_displs = recv_msg[1][1].copy()
         recv_buf = recv_msg[0]
         for items in recv_buf_data:
             for ngh_rank, size, shape, tslice in items:
@@ -982,6 +977,7 @@ class SharedValueLayer(ValueLayer):
                     disp = recv_displs[ngh_rank]
                     self.grid[tslice] = torch.as_tensor(
                         recv_buf[disp: disp + size].reshape(shape))
+                    recv_displs[ngh_rank] += size
 
                 except Exception:
                     print(self.rank, ngh_rank, size, shape, tslice)
-- 
2.43.0


From ae758b3b9c18b85a208ffac64b15d6401c97e294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 06/26] fix: buffer regions in periodic topologies with few
 processes per dimension

A 2D topology with a single process in one dimension met its neighbor 3 times,
which was not handled (out of bounds read), and a 3D topology with several
2-process dimensions computed the same region more than once.
---
 src/repast4py/distributed_space.cpp | 43 +++++++++++++++++------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/repast4py/distributed_space.cpp b/src/repast4py/distributed_space.cpp
index e49f9aa..0739885 100644
--- a/src/repast4py/distributed_space.cpp
+++ b/src/repast4py/distributed_space.cpp
@@ -133,6 +133,13 @@ void compute_neighbor_buffers(std::vector<CTNeighbor>& nghs, std::vector<int>& c
                 if (val[2] != 0 && y2) {
                     fixed_offsets.emplace(kv.first, std::vector<int>{val[1], 1, val[1], -1});
                 }
+            } else if (val[0] == 3) {
+                // periodic with a single proc in one dimension: meet at the side and 2 corners
+                if (procs_per_dim[0] == 1) {
+                    fixed_offsets.emplace(kv.first, std::vector<int>{-1, val[2], 0, val[2], 1, val[2]});
+                } else {
+                    fixed_offsets.emplace(kv.first, std::vector<int>{val[1], -1, val[1], 0, val[1], 1});
+                }
             } else if (val[0] == 4) {
                 // both dimensions duplicated
                 fixed_offsets.emplace(kv.first, std::vector<int>{1, 1, 1, -1, -1, 1, -1, -1});
@@ -180,28 +187,26 @@ void compute_neighbor_buffers(std::vector<CTNeighbor>& nghs, std::vector<int>& c
         bool x2 = procs_per_dim[0] == 2;
         bool y2 = procs_per_dim[1] == 2;
         bool z2 = procs_per_dim[2] == 2;
+        std::map<int, int> occurrences;
         for (auto& ngh : nghs) {
             offsets[0] = ngh.cart_coord_x - cart_coords[0];
             offsets[1] = ngh.cart_coord_y - cart_coords[1];
             offsets[2] = ngh.cart_coord_z - cart_coords[2];
-            if (p_ranks.find(ngh.rank) != p_ranks.end()) {
-                if (x2) {
-                    if (offsets[0] < 0) offsets[0] = 1;
-                    else if (offsets[0] > 0) offsets[0] = -1;
-
-                }
-                if (y2) {
-                    if (offsets[1] < 0) offsets[1] = 1;
-                    else if (offsets[1] > 0) offsets[1] = -1;
-                }
-                if (z2) {
-                    if (offsets[2] < 0) offsets[2] = 1;
-                    else if (offsets[2] > 0) offsets[2] = -1;
-                }
-
+            // a neighbor appears once for each combination of sides on which it
+            // is met, that is, on both sides of each dimension with 2 procs.
+            int sides = occurrences[ngh.rank]++;
+            if (z2 && offsets[2] != 0) {
+                if (sides % 2) offsets[2] = -offsets[2];
+                sides /= 2;
+            }
+            if (y2 && offsets[1] != 0) {
+                if (sides % 2) offsets[1] = -offsets[1];
+                sides /= 2;
+            }
+            if (x2 && offsets[0] != 0) {
+                if (sides % 2) offsets[0] = -offsets[0];
             }
             compute_buffer_bounds(ngh, offsets, num_dims, local_bounds, buffer_size);
-            p_ranks.emplace(ngh.rank);
         }
     }
 }
@@ -351,8 +356,10 @@ void CartesianTopology::getNeighbors(std::vector<CTNeighbor>& neighbors) {
             MPI_Cart_coords(comm_, n_rank, num_dims_, working);
             // ngh_map.emplace(n_rank, CTNeighbor{n_rank, working[0], -1, -1, nullptr,
             //    {0, 0, 0, 0}});
-            neighbors.push_back(CTNeighbor{n_rank, working[0], -1, -1, nullptr,
-                {0, 0, 0, 0}});
+            if (n_rank != rank) {
+                neighbors.push_back(CTNeighbor{n_rank, working[0], -1, -1, nullptr,
+                    {0, 0, 0, 0}});
+            }
         }
 
     } else if (num_dims_ == 2) {
-- 
2.43.0


From 7ae82b8432ebb4aece5b8727985adfa4038736c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:23 +0000
Subject: [PATCH 07/26] fix: keep edges between agents on different ranks when
 one of them moves

An edge to a requested ghost stayed behind on the rank its agent had left, and
the other agent's rank did not ghost it to the destination. Edges that became
local with the move kept their synchronization data and their edge keys.
---
 src/repast4py/network.py | 59 +++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 19 deletions(-)

diff --git a/src/repast4py/network.py b/src/repast4py/network.py
index ec68808..1e6b5fc 100644
--- a/src/repast4py/network.py
+++ b/src/repast4py/network.py
@@ -240,6 +240,17 @@ class SharedNetwork(SharedProjection, ABC):
            (u_agent.local_rank != self.rank and v_agent.local_rank == self.rank):
             self.edges_to_update.add(edge_key)
 
+    def _discard_edge_sync(self, edge: Tuple):
+        """Discards any synchronization data associated with the specified edge.
+
+        Args:
+            edge: the edge as a tuple of its u and v agents.
+        """
+        edge_key = self._get_edge_key(edge)
+        self.ghosted_edges.pop(edge_key, None)
+        self.new_edges.pop(edge_key, None)
+        self.edges_to_update.discard(edge_key)
+
     def remove_edge(self, u_agent: Agent, v_agent: Agent):
         """Removes the edge between u_agent and v_agent.
 
@@ -493,11 +504,10 @@ class SharedNetwork(SharedProjection, ABC):
             agent_manager: the AgentManager
 
         """
-        # 1. Check if moving agent is in edge with ghost, and ghost
-        # is not requested, meaning that the edge is an artifact of
-        # network sync and not explicitly created on this rank. In that
+        # 1. Check if moving agent is in edge with ghost. In that
         # case, remove the edge, and the node (if the node is not in any other
-        # edges)
+        # edges, and was not explicitly requested). The rank on which the
+        # ghost is local ghosts the edge to the destination rank.
         #
         # 2. Check if moving agent is in edge with local agent. This edge
         # needs to be preserved. So, delete edge, and add this rank to the
@@ -507,11 +517,11 @@ class SharedNetwork(SharedProjection, ABC):
         edges_to_remove = []
         for u, v, attr in self._edges(moving_agent, data=True): # type: ignore
             other = v if u.uid == moving_agent.uid else u
-            if other.local_rank != self.rank and not agent_manager.is_requested(other.uid):
-                # other is ghosted and not requested so the edge is artifact of edge created
-                # on other node between u and v, so remove it.
+            if other.local_rank != self.rank:
+                # other is ghosted so the edge is no longer an edge of a local
+                # agent, so remove it.
                 edges_to_remove.append((u, v))
-                if self.num_edges(other) == 1:
+                if self.num_edges(other) == 1 and not agent_manager.is_requested(other.uid):
                     # other is only on this rank to to be part of the removed edge
                     # and now the edge is gone so remove as node and ghost
                     nodes_to_remove.append(other)
@@ -536,6 +546,7 @@ class SharedNetwork(SharedProjection, ABC):
                 self._agent_moved_edges.append((u.uid, v.uid, attr))
 
         for edge in edges_to_remove:
+            self._discard_edge_sync(edge)
             self.graph.remove_edge(*edge)
             self._remove_edge_key(*edge)
 
@@ -575,28 +586,38 @@ class SharedNetwork(SharedProjection, ABC):
                     agent = agent_manager.get_local(uid)
                     edge_list = [e for e in self._edges(ghost, data=True)] # type: ignore
                     for u, v, attr in edge_list:
+                        # both agents are now local, so the edge is no longer ghosted
+                        self._discard_edge_sync((u, v))
                         self.graph.remove_edge(u, v)
+                        self._remove_edge_key(u, v)
                         if u.uid == agent.uid:
-                            self.graph.add_edge(agent, v, **attr)
+                            u = agent
                         else:
-                            self.graph.add_edge(u, agent, **attr)
-                    self.graph.remove_node(ghost)
+                            v = agent
+                        self.graph.add_edge(u, v, **attr)
+                        self._add_edge_key(u, v)
+                    if self.graph.has_node(ghost):
+                        self.graph.remove_node(ghost)
             else:
                 # check if moved agent is a ghost on this rank,
-                # if so, then check if that agent participated in
-                # a ghosted edge. If so, then update the local rank
-                # of that ghost agent so that ghosted edge will be
-                # ghosted to new destination, and add that edge to
-                # the new edges, so it will be ghosted to new rank
+                # if so, then update the local rank of that ghost agent
+                # so that the edges it participates in will be ghosted to
+                # new destination, and add those edges to
+                # the new edges, so they will be ghosted to new rank
                 # during next sync.
                 agent = agent_manager.get_ghost(uid, 0)
                 if agent is not None:
+                    agent.local_rank = dest
+                    if not self.graph.has_node(agent):
+                        continue
                     for edge in self._edges(agent): # type: ignore
                         edge_key = self._get_edge_key(edge)
                         ge = self.ghosted_edges.get(edge_key, None)
-                        if ge is not None:
-                            ge.ghost_agent.local_rank = dest
-                            self.new_edges[edge_key] = ge
+                        if ge is None:
+                            # edge was created on the rank the agent moved from
+                            other = edge_key[1] if edge_key[0] is agent else edge_key[0]
+                            ge = GhostedEdge(other, agent, self.graph.edges[edge_key])
+                        self.new_edges[edge_key] = ge
 
 
 class UndirectedSharedNetwork(SharedNetwork):
-- 
2.43.0


From 9b357532d0cc11a7085623b0666a13ac78b19f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 08/26] fix: removing and updating edges shared between ranks

Removing an edge that had not been synchronized yet raised a KeyError, as did
updating or removing it on the rank it was ghosted to. Removing one of an
agent's edges to a rank, or its edge in one network, stopped the updates of its
ghost there even though other edges, or a request, still needed that ghost.
---
 src/repast4py/network.py | 98 ++++++++++++++++++++++------------------
 1 file changed, 55 insertions(+), 43 deletions(-)

diff --git a/src/repast4py/network.py b/src/repast4py/network.py
index 1e6b5fc..f83a462 100644
--- a/src/repast4py/network.py
+++ b/src/repast4py/network.py
@@ -266,27 +266,21 @@ class SharedNetwork(SharedProjection, ABC):
            u_agent.local_rank == self.rank and v_agent.local_rank != self.rank:
             edge_key = self._get_edge_key((u_agent, v_agent))
             # edge key order might be different than remove edge args
-            # so need to check in edge key which is the ghost
-            self.edges_to_remove[edge_key] = 0 if edge_key[1].local_rank == self.rank else 1
-            del self.ghosted_edges[edge_key]
+            # so need to check in edge key which is the ghost. An edge that
+            # has not been synchronized yet does not exist on the other rank.
+            if edge_key in self.ghosted_edges or edge_key not in self.new_edges:
+                self.edges_to_remove[edge_key] = 0 if edge_key[1].local_rank == self.rank else 1
             # if removed before update sync or removed before new edge sync
             # then remove it here
-            self.edges_to_update.discard(edge_key)
-            self.new_edges.pop(edge_key, None)
+            self._discard_edge_sync(edge_key)
 
         self._remove_edge_key(u_agent, v_agent)
 
     def clear_edges(self):
         """Removes all the edges.
         """
-        self.graph.clear_edges()
-        for edge, ghosted_edge in self.ghosted_edges.items():
-            edge_key = self._get_edge_key(edge)
-            self.edges_to_remove[edge_key] = 1 if edge_key[0].local_rank == self.rank else 0
-            self.edges_to_update.discard(edge_key)
-
-        self.new_edges.clear()
-        self.ghosted_edges.clear()
+        for u_agent, v_agent in list(self.graph.edges()):
+            self.remove_edge(u_agent, v_agent)
 
     def contains_edge(self, u_agent: Agent, v_agent: Agent) -> bool:
         """Gets whether or not an edge exists between the u_agent and v_agent.
@@ -310,35 +304,41 @@ class SharedNetwork(SharedProjection, ABC):
         for edge, ghost_idx in self.edges_to_remove.items():
             ghost = edge[ghost_idx]
             sync_edges[ghost.local_rank].append((edge[0].uid, edge[1].uid))
-            agent_manager.untag_as_ghosted(ghost.local_rank, edge[not (ghost_idx)].uid)
 
         self.edges_to_remove.clear()
         to_remove = self.comm.alltoall(sync_edges)
+        no_longer_ghosts = [[] for i in range(self.comm.size)]
         for edges in to_remove:
             for u_id, v_id in edges:
-                u_agent = agent_manager._ghost_agents.get(u_id)
+                u_agent = agent_manager.get_local(u_id)
                 if u_agent is None:
-                    # u_agent is local
-                    u_agent = agent_manager._local_agents[u_id]
-                    v_agent = agent_manager._ghost_agents[v_id].agent
-                    self.graph.remove_edge(u_agent, v_agent)
-                    # if ghost not participating in network, then remove
-                    # Note that remove_ghost will check for inclusion in requested
-                    if not self._has_edge(v_agent):
-                        agent_manager.remove_ghost(v_agent)
-                        self.graph.remove_node(v_agent)
+                    u_agent = ghost = agent_manager.get_ghost(u_id, incr=0)
+                    v_agent = agent_manager.get_local(v_id)
                 else:
-                    v_agent = agent_manager._local_agents[v_id]
-                    # u_agent is GhostAgent so get agent
-                    u_agent = u_agent.agent
+                    v_agent = ghost = agent_manager.get_ghost(v_id, incr=0)
+
+                if ghost is None or not self.graph.has_node(ghost):
+                    # removed together with another of its edges
+                    continue
+
+                # might have been removed here as well
+                if self.graph.has_edge(u_agent, v_agent):
+                    self._discard_edge_sync((u_agent, v_agent))
                     self.graph.remove_edge(u_agent, v_agent)
-                    # if ghost not participating in network, then remove
-                    # Note that remove_ghost will check for inclusion in requested
-                    if not self._has_edge(u_agent):
-                        agent_manager.remove_ghost(u_agent)
-                        self.graph.remove_node(u_agent)
+                    self._remove_edge_key(u_agent, v_agent)
 
-                self._remove_edge_key(u_agent, v_agent)
+                # if ghost not participating in network, then remove
+                # Note that remove_ghost will check for inclusion in requested
+                if not self._has_edge(ghost):
+                    agent_manager.remove_ghost(ghost)
+                    self.graph.remove_node(ghost)
+                    if agent_manager.get_ghost(ghost.uid, incr=0) is None:
+                        no_longer_ghosts[ghost.local_rank].append(ghost.uid)
+
+        for rank, uids in enumerate(self.comm.alltoall(no_longer_ghosts)):
+            for uid in uids:
+                while agent_manager.is_ghosted_to(rank, uid):
+                    agent_manager.untag_as_ghosted(rank, uid)
 
     def _sync_vertices(self, agent_manager: AgentManager, create_agent: Callable) -> List:
         """Synchronizes vertices across processes.
@@ -374,9 +374,8 @@ class SharedNetwork(SharedProjection, ABC):
         self.new_edges.clear()
 
         for edge_key in self.edges_to_update:
-            ghosted_edge = self.ghosted_edges[edge_key]
-            other_rank = ghosted_edge.ghost_agent.local_rank
-            sync_edges[other_rank].append((edge_key[0].uid, edge_key[1].uid, ghosted_edge.edge_attr))
+            ghost_agent = edge_key[1] if edge_key[0].local_rank == self.rank else edge_key[0]
+            sync_edges[ghost_agent.local_rank].append((edge_key[0].uid, edge_key[1].uid, self.graph.edges[edge_key]))
         self.edges_to_update.clear()
 
         recv_agents = self.comm.alltoall(sync_agents)
@@ -410,12 +409,16 @@ class SharedNetwork(SharedProjection, ABC):
                 if u_agent is None:
                     # u_agent is local
                     u_agent = agent_manager._local_agents[u_id]
-                    v_agent = agent_manager._ghost_agents[v_id].agent
+                    v_agent = ghost = agent_manager._ghost_agents[v_id].agent
                 else:
                     # u_agent is GhostAgent so get agent from it
-                    u_agent = u_agent.agent
+                    u_agent = ghost = u_agent.agent
                     v_agent = agent_manager._local_agents[v_id]
 
+                if not self.graph.has_node(ghost):
+                    # ghosted for another projection, now used by this one too
+                    agent_manager.get_ghost(ghost.uid)
+
                 self.graph.add_edge(u_agent, v_agent, **edge_attr)
                 self._add_edge_key(u_agent, v_agent)
 
@@ -526,7 +529,8 @@ class SharedNetwork(SharedProjection, ABC):
                     # and now the edge is gone so remove as node and ghost
                     nodes_to_remove.append(other)
                     agent_manager.remove_ghost(other)
-                    self._no_longer_ghosts[other.local_rank].append(other.uid)
+                    if agent_manager.get_ghost(other.uid, incr=0) is None:
+                        self._no_longer_ghosts[other.local_rank].append(other.uid)
 
             else:
                 # moving agent participates in edges with local agents
@@ -725,7 +729,9 @@ class UndirectedSharedNetwork(SharedNetwork):
             edge_key = self._add_edge_key(u_agent, v_agent)
             ge = GhostedEdge(u_agent, v_agent, self.graph.edges[edge_key])
             self.new_edges[edge_key] = ge
-            self.edges_to_remove.pop(edge_key, None)
+            if self.edges_to_remove.pop(edge_key, None) is not None:
+                # edge still exists on the other rank
+                self.ghosted_edges[edge_key] = ge
         elif u_agent.local_rank != self.rank and v_agent.local_rank == self.rank:
             # assume v_agent is local
             if not self.graph.has_node(u_agent):
@@ -734,7 +740,9 @@ class UndirectedSharedNetwork(SharedNetwork):
             edge_key = self._add_edge_key(u_agent, v_agent)
             ge = GhostedEdge(v_agent, u_agent, self.graph.edges[edge_key])
             self.new_edges[edge_key] = ge
-            self.edges_to_remove.pop(edge_key, None)
+            if self.edges_to_remove.pop(edge_key, None) is not None:
+                # edge still exists on the other rank
+                self.ghosted_edges[edge_key] = ge
         else:
             self._add_edge_key(u_agent, v_agent)
             self.graph.add_edge(u_agent, v_agent, **kwattr)
@@ -866,7 +874,9 @@ class DirectedSharedNetwork(SharedNetwork):
             edge_key = (u_agent, v_agent)
             ge = GhostedEdge(u_agent, v_agent, self.graph.edges[edge_key])
             self.new_edges[edge_key] = ge
-            self.edges_to_remove.pop(edge_key, None)
+            if self.edges_to_remove.pop(edge_key, None) is not None:
+                # edge still exists on the other rank
+                self.ghosted_edges[edge_key] = ge
         elif u_agent.local_rank != self.rank and v_agent.local_rank == self.rank:
             # assume v_agent is local
             if not self.graph.has_node(u_agent):
@@ -875,7 +885,9 @@ class DirectedSharedNetwork(SharedNetwork):
             edge_key = (u_agent, v_agent)
             ge = GhostedEdge(v_agent, u_agent, self.graph.edges[edge_key])
             self.new_edges[edge_key] = ge
-            self.edges_to_remove.pop(edge_key, None)
+            if self.edges_to_remove.pop(edge_key, None) is not None:
+                # edge still exists on the other rank
+                self.ghosted_edges[edge_key] = ge
         else:
             self.graph.add_edge(u_agent, v_agent, **kwattr)
 
-- 
2.43.0


From dcfe2ae00f430a2659f72b5889f1edf91ddce5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 09/26] fix: a removed agent's ghost might not be in every
 projection

---
 src/repast4py/context.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index 2daaa50..3f20551 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -218,7 +218,8 @@ class SharedContext:
             for removed_id in updates:
                 ghost = self._agent_manager.get_ghost(removed_id)
                 for proj in self.projections.values():
-                    proj.remove(ghost)
+                    if ghost in proj:
+                        proj.remove(ghost)
                 self._agent_manager.delete_ghost(removed_id)
 
         self.removed_ghosteds.clear()
-- 
2.43.0


From 4b30650d861b02508699af025f8d4126da99d54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 10/26] fix: discard a removed agent's edges from the network
 synchronization data

Otherwise the next synchronization looked up the removed agent. Also remove the
keys of an undirected self loop, and fully untag agents no longer ghosted.
---
 src/repast4py/network.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/repast4py/network.py b/src/repast4py/network.py
index f83a462..1bfb037 100644
--- a/src/repast4py/network.py
+++ b/src/repast4py/network.py
@@ -216,6 +216,13 @@ class SharedNetwork(SharedProjection, ABC):
         Raises:
             NetworkXError: if the agent is not a node in this SharedNetwork.
         """
+        if self.graph.has_node(agent):
+            for edge in list(self._edges(agent)): # type: ignore
+                self._discard_edge_sync(edge)
+                self._remove_edge_key(*edge)
+            # the other ranks remove these edges together with the agent
+            for edge in [e for e in self.edges_to_remove if agent in e]:
+                del self.edges_to_remove[edge]
         self.graph.remove_node(agent)
 
     def update_edge(self, u_agent: Agent, v_agent: Agent, **kwattr):
@@ -576,7 +583,8 @@ class SharedNetwork(SharedProjection, ABC):
         stop_ghosting_ids = self.comm.alltoall(self._no_longer_ghosts)
         for ghost_rank, ids in enumerate(stop_ghosting_ids):
             for id in ids:
-                agent_manager.untag_as_ghosted(ghost_rank, id)
+                while agent_manager.is_ghosted_to(ghost_rank, id):
+                    agent_manager.untag_as_ghosted(ghost_rank, id)
         self._no_longer_ghosts = [[] for _ in range(self.comm.size)]
 
         for uid, dest in moved_agents:
@@ -586,7 +594,7 @@ class SharedNetwork(SharedProjection, ABC):
                 # to new edges created with the now local agent, and remove
                 # the old ghost
                 ghost = agent_manager.get_ghost(uid)
-                if ghost is not None:
+                if ghost is not None and self.graph.has_node(ghost):
                     agent = agent_manager.get_local(uid)
                     edge_list = [e for e in self._edges(ghost, data=True)] # type: ignore
                     for u, v, attr in edge_list:
@@ -600,8 +608,7 @@ class SharedNetwork(SharedProjection, ABC):
                             v = agent
                         self.graph.add_edge(u, v, **attr)
                         self._add_edge_key(u, v)
-                    if self.graph.has_node(ghost):
-                        self.graph.remove_node(ghost)
+                    self.graph.remove_node(ghost)
             else:
                 # check if moved agent is a ghost on this rank,
                 # if so, then update the local rank of that ghost agent
@@ -702,7 +709,8 @@ class UndirectedSharedNetwork(SharedNetwork):
         """
         edge_key = (u_agent, v_agent)
         self.canonical_edge_keys.pop(edge_key)
-        self.canonical_edge_keys.pop((v_agent, u_agent))
+        # in a self loop, both keys are the same
+        self.canonical_edge_keys.pop((v_agent, u_agent), None)
 
     def add_edge(self, u_agent: Agent, v_agent: Agent, **kwattr):
         """Adds an edge between u_agent and v_agent.
-- 
2.43.0


From 167c4898f991e8d07c5c80e7748cd1a6f5768ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:34 +0000
Subject: [PATCH 11/26] fix: read json attributes that contain nested objects
 or braces in strings

---
 src/repast4py/network.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/repast4py/network.py b/src/repast4py/network.py
index 1bfb037..e7ad294 100644
--- a/src/repast4py/network.py
+++ b/src/repast4py/network.py
@@ -15,7 +15,6 @@ from dataclasses import dataclass
 import numpy as np
 import networkx as nx
 from itertools import chain
-import re
 import math
 import json
 from abc import ABC, abstractmethod
@@ -945,13 +944,12 @@ def _parse_graph_desc(line: str):
                          'format: "id [0|1]", where 0 indicates an undirected graph and 1 directed')
 
 
-_LINE_P = re.compile('\{[^}]+\}|\S+')
 _EMPTY_DICT = {}
 
 
 def _parse_node(line: str, line_num: int, graph_data: GraphData, ctx, create_agent: Callable):
     try:
-        vals = _LINE_P.findall(line)
+        vals = line.split(None, 3)
         n_vals = len(vals)
         if n_vals < 3 or n_vals > 4:
             raise ValueError
@@ -984,7 +982,7 @@ def _request_remote_agents(graph_data: GraphData, ctx, create_agent: Callable):
 def _parse_edge(line: str, line_num: int, graph, graph_data: GraphData):
     requested = set()
     try:
-        vals = _LINE_P.findall(line)
+        vals = line.split(None, 2)
         n_vals = len(vals)
         if n_vals < 2 or n_vals > 3:
             raise ValueError
-- 
2.43.0


From bb3adf47502848bfdb183058764506dbf0a81a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:34 +0000
Subject: [PATCH 12/26] fix: request a remote agent once when reading a network

---
 src/repast4py/network.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/network.py b/src/repast4py/network.py
index e7ad294..056747a 100644
--- a/src/repast4py/network.py
+++ b/src/repast4py/network.py
@@ -11,7 +11,7 @@ python package.
 """
 
 from mpi4py import MPI
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 import numpy as np
 import networkx as nx
 from itertools import chain
@@ -927,6 +927,7 @@ class GraphData:
     remote_agents: Dict
     requested_agents: List
     edges: List
+    requested: set = field(default_factory=set)
 
 
 def _parse_graph_desc(line: str):
@@ -980,7 +981,7 @@ def _request_remote_agents(graph_data: GraphData, ctx, create_agent: Callable):
 
 
 def _parse_edge(line: str, line_num: int, graph, graph_data: GraphData):
-    requested = set()
+    requested = graph_data.requested
     try:
         vals = line.split(None, 2)
         n_vals = len(vals)
-- 
2.43.0


From 1851cb8332259242bdd5569aea63cdfcec9e8241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:34 +0000
Subject: [PATCH 13/26] fix: SharedContext.size of a type no agent of which was
 ever added

---
 src/repast4py/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index 3f20551..190cc16 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -401,7 +401,7 @@ class SharedContext:
         counts = {}
         if agent_type_ids:
             for i in agent_type_ids:
-                counts[i] = len(self._agents_by_type[i])
+                counts[i] = len(self._agents_by_type.get(i, ()))
         else:
             counts[-1] = len(self._agent_manager._local_agents)
 
-- 
2.43.0


From eded6bf05cb3267e950e201a345446d502f16ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:28 +0000
Subject: [PATCH 14/26] fix: co-located agents in the spatial index of a
 multiple occupancy space

The index was keyed by the agents' points, which are updated in place when
an agent moves, so an agent that shared its location with one that moved was
lost. Splitting a node also lost the number of agents at each location.
---
 src/repast4py/SpatialTree.h | 67 +++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 28 deletions(-)

diff --git a/src/repast4py/SpatialTree.h b/src/repast4py/SpatialTree.h
index 2c5875b..dd1855b 100644
--- a/src/repast4py/SpatialTree.h
+++ b/src/repast4py/SpatialTree.h
@@ -7,6 +7,7 @@
 #ifndef SRC_SPATIALTREE_
 #define SRC_SPATIALTREE_
 
+#include <algorithm>
 #include <vector>
 #include <map>
 #include <limits>
@@ -91,7 +92,9 @@ class MOItems {
 
 private:
     size_t sum;
-    std::map<PointType*, size_t, PtrPointComp<PointType>> point_counts;
+    // keyed by location and not by the agents' points, as those points are
+    // updated in place when an agent moves
+    std::map<Point<PointType>, std::vector<PointType*>, PointComp<PointType>> points;
 
 public:
     MOItems();
@@ -108,49 +111,57 @@ public:
 };
 
 template<typename PointType>
-MOItems<PointType>::MOItems() : sum{0}, point_counts{} {}
+MOItems<PointType>::MOItems() : sum{0}, points{} {}
 template<typename PointType>
 MOItems<PointType>::~MOItems() {}
 
 template<typename PointType>
 void MOItems<PointType>::add(PointType* pt) {
-    auto iter = point_counts.find(pt);
-    if (iter == point_counts.end()) {
+    Point<PointType> ppt;
+    extract_coords(pt, ppt);
+    auto& pts = points[ppt];
+    if (pts.empty()) {
         ++sum;
-        Py_INCREF(pt);
-        point_counts.emplace(pt, 1);
-    } else {
-        ++(iter->second);
     }
+    Py_INCREF(pt);
+    pts.push_back(pt);
 }
 
 template<typename PointType>
 bool MOItems<PointType>::remove(PointType* pt) {
-    auto kv = point_counts.find(pt);
-    if (kv != point_counts.end()) {
-        --(kv->second);
-        // size_t val = --point_counts[item->pt];
-        if (kv->second == 0) {
-            Py_DECREF(kv->first);
-            point_counts.erase(kv);
-            --sum;
+    Point<PointType> ppt;
+    extract_coords(pt, ppt);
+    auto kv = points.find(ppt);
+    if (kv != points.end()) {
+        auto iter = std::find(kv->second.begin(), kv->second.end(), pt);
+        if (iter != kv->second.end()) {
+            Py_DECREF(*iter);
+            kv->second.erase(iter);
+            if (kv->second.empty()) {
+                points.erase(kv);
+                --sum;
+            }
+            return true;
         }
-        return true;
     } 
     return false;
 }
 
 template<typename PointType>
 void MOItems<PointType>::addToNode(std::shared_ptr<STNode<Box2D, R4Py_ContinuousPoint, ContinuousMOType_>> node, int threshold) {
-    for (auto& kv: point_counts) {
-        node->addItem(kv.first, threshold);
+    for (auto& kv: points) {
+        for (auto pt : kv.second) {
+            node->addItem(pt, threshold);
+        }
     }
 }
 
 template<typename PointType>
 void MOItems<PointType>::addToNode(std::shared_ptr<STNode<Box3D, R4Py_ContinuousPoint, ContinuousMOType_>> node, int threshold) {
-    for (auto& kv: point_counts) {
-        node->addItem(kv.first, threshold);
+    for (auto& kv: points) {
+        for (auto pt : kv.second) {
+            node->addItem(pt, threshold);
+        }
     }
 }
 
@@ -158,11 +169,9 @@ template<typename PointType>
 void MOItems<PointType>::getObjectsWithin(const BoundingBox& box, MOMapType* loc_map,
     std::shared_ptr<std::vector<R4Py_Agent*>>& agents) {
 
-    Point<R4Py_ContinuousPoint> ppt;
-    for (auto& kv : point_counts) {
+    for (auto& kv : points) {
         if (box.contains(kv.first)) {
-            extract_coords(kv.first, ppt);
-            auto& agent_lst = (*loc_map)[ppt];
+            auto& agent_lst = (*loc_map)[kv.first];
             agents->insert(agents->end(), agent_lst->begin(), agent_lst->end());
         }
     }
@@ -187,10 +196,12 @@ size_t MOItems<PointType>::size() const {
 
 template<typename PointType>
 void MOItems<PointType>::clear() {
-    for (auto& kv: point_counts) {
-        Py_DECREF(kv.first);
+    for (auto& kv: points) {
+        for (auto pt : kv.second) {
+            Py_DECREF(pt);
+        }
     }
-    point_counts.clear();
+    points.clear();
     sum = 0;
 }
 
-- 
2.43.0


From a79c0ec8e000c63f7e76205036898745b78279e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 15/26] fix: periodic borders of 1D and 2D spaces and of tiny
 negative coordinates

The unused coordinates were those of the last looked up location, and the
wrapped coordinate could be rounded to the exclusive upper bound.
---
 src/repast4py/borders.h | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/repast4py/borders.h b/src/repast4py/borders.h
index e822ae3..94ac2cb 100644
--- a/src/repast4py/borders.h
+++ b/src/repast4py/borders.h
@@ -90,13 +90,23 @@ void StickyBorders<PointType>::transform(const PointType* pt, Point<PointType>&
 using GridStickyBorders = StickyBorders<R4Py_DiscretePoint>;
 using CSStickyBorders = StickyBorders<R4Py_ContinuousPoint>;
 
+template <typename PointType>
+typename TypeSelector<PointType>::type wrap(typename TypeSelector<PointType>::type nc, BoundingBox::coord_type min, BoundingBox::coord_type max) {
+    using coord_type  = typename TypeSelector<PointType>::type;
+    coord_type c = nc < 0 ? max + nc : min + nc;
+    // floating point rounding can produce max, which is not within the bounds
+    return c < max ? c : min;
+}
+
 template <typename PointType>
 void transformX(const PointType* pt, Point<PointType>& transformed_pt, const BoundingBox& bounds) {
     using coord_type  = typename TypeSelector<PointType>::type;
     coord_type* data = (coord_type*) PyArray_DATA(pt->coords);
 
     coord_type nc = fmod((data[0] - bounds.xmin_), bounds.x_extent_);
-    transformed_pt.x = nc < 0 ? bounds.xmax_ + nc : bounds.xmin_ + nc;
+    transformed_pt.x = wrap<PointType>(nc, bounds.xmin_, bounds.xmax_);
+    transformed_pt.y = bounds.ymin_;
+    transformed_pt.z = bounds.zmin_;
 }
 
 template <typename PointType>
@@ -105,10 +115,11 @@ void transformXY(const PointType* pt, Point<PointType>& transformed_pt, const Bo
     coord_type* data = (coord_type*) PyArray_DATA(pt->coords);
 
     coord_type nc = fmod(data[0] - bounds.xmin_, bounds.x_extent_);
-    transformed_pt.x = nc < 0 ? bounds.xmax_ + nc : bounds.xmin_ + nc;
+    transformed_pt.x = wrap<PointType>(nc, bounds.xmin_, bounds.xmax_);
 
     nc = fmod(data[1] - bounds.ymin_, bounds.y_extent_);
-    transformed_pt.y = nc < 0 ? bounds.ymax_ + nc : bounds.ymin_ + nc; 
+    transformed_pt.y = wrap<PointType>(nc, bounds.ymin_, bounds.ymax_);
+    transformed_pt.z = bounds.zmin_;
 }
 
 template <typename PointType>
@@ -117,13 +128,13 @@ void transformXYZ(const PointType* pt, Point<PointType>& transformed_pt, const B
     coord_type* data = (coord_type*) PyArray_DATA(pt->coords);
 
     coord_type nc = fmod((data[0] - bounds.xmin_), bounds.x_extent_);
-    transformed_pt.x = nc < 0 ? bounds.xmax_ + nc : bounds.xmin_ + nc;
+    transformed_pt.x = wrap<PointType>(nc, bounds.xmin_, bounds.xmax_);
 
     nc = fmod(data[1] - bounds.ymin_, bounds.y_extent_);
-    transformed_pt.y = nc < 0 ? bounds.ymax_ + nc : bounds.ymin_ + nc; 
+    transformed_pt.y = wrap<PointType>(nc, bounds.ymin_, bounds.ymax_);
 
     nc = fmod(data[2] - bounds.zmin_, bounds.z_extent_);
-    transformed_pt.z = nc < 0 ? bounds.zmax_ + nc : bounds.zmin_ + nc;
+    transformed_pt.z = wrap<PointType>(nc, bounds.zmin_, bounds.zmax_);
 }
 
 template<typename PointType>
-- 
2.43.0


From d3596007c5e1ae26d2620fa13b8d602f99b21245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:04 +0000
Subject: [PATCH 16/26] fix: parse an agent's rank as the unsigned int that it
 is

The long format wrote past the rank, so a negative rank with an invalid type
crashed when the agent was deallocated.
---
 src/repast4py/coremodule.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/coremodule.cpp b/src/repast4py/coremodule.cpp
index 8ab1a32..25113c5 100644
--- a/src/repast4py/coremodule.cpp
+++ b/src/repast4py/coremodule.cpp
@@ -203,9 +203,9 @@ static PyObject* Agent_new(PyTypeObject* type, PyObject* args, PyObject* kwds) {
 static int Agent_init(R4Py_Agent* self, PyObject* args, PyObject* kwds) {
     static char* kwlist[] = {(char*)"id", (char*)"type", (char*)"rank", NULL};
     #if defined(_MSC_VER)
-    if (!PyArg_ParseTupleAndKeywords(args, kwds, "Li|l", kwlist, &self->aid->id, &self->aid->type, &self->aid->rank)) {
+    if (!PyArg_ParseTupleAndKeywords(args, kwds, "Li|I", kwlist, &self->aid->id, &self->aid->type, &self->aid->rank)) {
     # else
-    if (!PyArg_ParseTupleAndKeywords(args, kwds, "li|l", kwlist, &self->aid->id, &self->aid->type, &self->aid->rank)) {
+    if (!PyArg_ParseTupleAndKeywords(args, kwds, "li|I", kwlist, &self->aid->id, &self->aid->type, &self->aid->rank)) {
     #endif
         return -1;
     }
-- 
2.43.0


From c2e0917a104e5cc38eb9d480cca3152891fb4695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:04 +0000
Subject: [PATCH 17/26] fix: number of processes in a topology is the product
 of those per dimension

---
 src/repast4py/distributed_space.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/repast4py/distributed_space.cpp b/src/repast4py/distributed_space.cpp
index 0739885..7bb7bec 100644
--- a/src/repast4py/distributed_space.cpp
+++ b/src/repast4py/distributed_space.cpp
@@ -246,9 +246,9 @@ CartesianTopology::CartesianTopology(MPI_Comm comm, MPI_Comm* cart_comm, const s
 {
     int size;
     MPI_Comm_size(comm, &size);
-    int total_requested_size = 0;
+    int total_requested_size = 1;
     for (auto val : procs_per_dimension) {
-        total_requested_size += val;
+        total_requested_size *= val;
     }
 
     if (total_requested_size > size) {
@@ -279,7 +279,7 @@ CartesianTopology::~CartesianTopology() {
 }
 
 void CartesianTopology::getCoords(std::vector<int>& coords) {
-    coords.reserve(num_dims_);
+    coords.resize(num_dims_);
     MPI_Cart_coords(comm_, getRank(), num_dims_, &coords[0]);
 }
 
-- 
2.43.0


From 6c12eaf2a50297aa3647b304a331b10ff2a8185d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:04 +0000
Subject: [PATCH 18/26] fix: adding an agent to a space that contains it keeps
 its location

---
 src/repast4py/space.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/repast4py/space.h b/src/repast4py/space.h
index 829ea81..18cda58 100644
--- a/src/repast4py/space.h
+++ b/src/repast4py/space.h
@@ -94,6 +94,8 @@ BaseSpace<PointType, AccessorType, BorderType>::~BaseSpace() {
 
 template<typename PointType, typename AccessorType, typename BorderType>
 bool BaseSpace<PointType, AccessorType, BorderType>::add(R4Py_Agent* agent) {
+    // adding an agent again must not discard its location
+    if (contains(agent)) return true;
     auto item = std::make_shared<SpaceItem<PointType>>();
     item->agent = agent;
     Py_INCREF(agent);
-- 
2.43.0


From f5b6394aa82de2ff9ecbb5e7ab61b7a03c1e19f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:25 +0000
Subject: [PATCH 19/26] fix: moving an agent received from another rank raises
 if it is not in the space

---
 src/repast4py/spacemodule.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/repast4py/spacemodule.cpp b/src/repast4py/spacemodule.cpp
index 890941f..35cba0d 100644
--- a/src/repast4py/spacemodule.cpp
+++ b/src/repast4py/spacemodule.cpp
@@ -1290,7 +1290,13 @@ static PyObject* SharedGrid_synchMove(PyObject* self, PyObject* args) {
     pt_data[1] = obj_data[1];
     pt_data[2] = obj_data[2];
 
-    ((R4Py_SharedGrid*)self)->grid->move((R4Py_Agent*)agent, pt);
+    try {
+        ((R4Py_SharedGrid*)self)->grid->move((R4Py_Agent*)agent, pt);
+    } catch (std::invalid_argument& ex) {
+        Py_DECREF(pt);
+        PyErr_SetString(PyExc_RuntimeError, ex.what());
+        return NULL;
+    }
     Py_DECREF(pt);
 
     Py_RETURN_NONE;
@@ -2187,7 +2193,13 @@ static PyObject* SharedCSpace_synchMove(PyObject* self, PyObject* args) {
     pt_data[1] = obj_data[1];
     pt_data[2] = obj_data[2];
 
-    ((R4Py_SharedCSpace*)self)->space->move((R4Py_Agent*)agent, pt);
+    try {
+        ((R4Py_SharedCSpace*)self)->space->move((R4Py_Agent*)agent, pt);
+    } catch (std::invalid_argument& ex) {
+        Py_DECREF(pt);
+        PyErr_SetString(PyExc_RuntimeError, ex.what());
+        return NULL;
+    }
     Py_DECREF(pt);
 
     Py_RETURN_NONE;
-- 
2.43.0


From b701cb1ecbc84b615a2a85bc7b8423a939c6a252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:25 +0000
Subject: [PATCH 20/26] fix: crash when moving an agent in a 1D continuous
 space

---
 src/repast4py/cspace.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/repast4py/cspace.h b/src/repast4py/cspace.h
index cdb1e32..a9cd40c 100644
--- a/src/repast4py/cspace.h
+++ b/src/repast4py/cspace.h
@@ -66,7 +66,16 @@ template<typename AccessorType, typename BorderType>
 void BaseCSpace<AccessorType, BorderType>::getAgentsWithin(const BoundingBox& bounds, 
     std::shared_ptr<std::vector<R4Py_Agent*>>& agents) 
 {
-    spatial_tree->getObjectsWithin(bounds, agents);
+    if (spatial_tree) {
+        spatial_tree->getObjectsWithin(bounds, agents);
+    } else {
+        // 1D spaces are not indexed
+        for (auto& kv : agent_map) {
+            if (kv.second->pt && bounds.contains(kv.second->pt)) {
+                agents->push_back(kv.second->agent);
+            }
+        }
+    }
 }
 
 template<typename AccessorType, typename BorderType>
@@ -77,7 +86,7 @@ bool BaseCSpace<AccessorType, BorderType>::remove(R4Py_Agent* agent) {
 template<typename AccessorType, typename BorderType>
 bool BaseCSpace<AccessorType, BorderType>::remove(R4Py_AgentID* aid) {
     auto iter = agent_map.find(aid);
-    if (iter != agent_map.end() && iter->second->pt) {
+    if (spatial_tree && iter != agent_map.end() && iter->second->pt) {
         spatial_tree->removeItem(iter->second);
     }
     return BaseSpace<R4Py_ContinuousPoint, AccessorType, BorderType>::remove(aid);
@@ -93,17 +102,17 @@ R4Py_ContinuousPoint* BaseCSpace<AccessorType, BorderType>::move(R4Py_Agent* age
         if (!point_equals(iter->second->pt, wpt)) {
             if (accessor.put(agent, location_map, wpt)) {
                 if (iter->second->pt) {
-                    spatial_tree->removeItem(iter->second);
+                    if (spatial_tree) spatial_tree->removeItem(iter->second);
                     // if successful put, and agent is already located 
                     // so need to remove
                     Point<R4Py_ContinuousPoint> ppt;
                     extract_coords(iter->second->pt, ppt);
                     accessor.remove(agent, location_map, ppt);
                     update_point(iter->second->pt, wpt);
-                    spatial_tree->addItem(iter->second);
+                    if (spatial_tree) spatial_tree->addItem(iter->second);
                 }  else {
                     iter->second->pt = create_point(Py_TYPE(pt), wpt);
-                    spatial_tree->addItem(iter->second);
+                    if (spatial_tree) spatial_tree->addItem(iter->second);
                 }
             } else {
                 return nullptr;
-- 
2.43.0


From 2f5027c42177b2aa2ebbf99257cf739d5ba8e0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:25 +0000
Subject: [PATCH 21/26] fix: request an agent once if it is specified more than
 once

---
 src/repast4py/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index 190cc16..b771ee2 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -424,7 +424,7 @@ class SharedContext:
                 lst = requests[request[1]]
                 if lst is None:
                     requests[request[1]] = [request[0]]
-                else:
+                elif request[0] not in lst:
                     requests[request[1]].append(request[0])
             else:
                 existing_ghosts.append(agent)
-- 
2.43.0


From 9d7b492dfb9ef36fc9ca687eb02a39da580a389e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:55 +0000
Subject: [PATCH 22/26] fix: restore edges from agents on other ranks

---
 src/repast4py/checkpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index 115a8e5..26010ea 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -428,7 +428,7 @@ class NetworkRestorer:
             if edge_t == 0:
                 self.network.add_edge(self.context.agent(u), requests[v], **e_attribs)
             else:
-                self.network.add_edge(requests[v], self.context.agent(u), **e_attribs)
+                self.network.add_edge(requests[u], self.context.agent(v), **e_attribs)
 
     def restore(self, requests: Dict):
         self.requests = requests
-- 
2.43.0


From 019b7eba7d2e71e2b08f01a25a886530e0a278db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:55 +0000
Subject: [PATCH 23/26] fix: restore a stop only if restore_stop_at is true

---
 src/repast4py/checkpoint.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index 26010ea..764f8b5 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -250,7 +250,9 @@ class Checkpoint:
                     if schedule_state['tick'] == evt_data.at:
                         warnings.warn(f"Scheduling stop at first tick {evt_data.at} in restored schedule")
                     evt = runner.stop
-                
+                else:
+                    evt = IGNORE_EVT
+
                 if evt != IGNORE_EVT:
                     scheduled_evt = self._schedule_evt(runner, evt_type, evt_data, evt) # type: ignore
                     evt_processor(metadata, scheduled_evt)
-- 
2.43.0


From b4a1c7c44606048e1c9029e26b77d9e71dbd46af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:55 +0000
Subject: [PATCH 24/26] fix: saved locations and edge attributes are those at
 the time of the save

---
 src/repast4py/checkpoint.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/repast4py/checkpoint.py b/src/repast4py/checkpoint.py
index 764f8b5..2f36cd8 100644
--- a/src/repast4py/checkpoint.py
+++ b/src/repast4py/checkpoint.py
@@ -314,7 +314,10 @@ class Checkpoint:
         locations = {}
 
         for agent in context.agents():
-            locations[agent.uid] = space.get_location(agent).coordinates
+            location = space.get_location(agent)
+            # None if the agent is in the space, but has not been moved to a location.
+            # The location is copied as the space updates it when the agent moves
+            locations[agent.uid] = None if location is None else location.coordinates.copy()
         self.spaces[space.name] = locations
 
     def restore_space(self, context: SharedContext, space: Union[SharedGrid, SharedCSpace]):
@@ -331,11 +334,13 @@ class Checkpoint:
         if isinstance(space, SharedGrid):
             for agent in context.agents():
                 location = locations[agent.uid]
-                space.move(agent, DiscretePoint(location[0], location[1], location[2]))
+                if location is not None:
+                    space.move(agent, DiscretePoint(location[0], location[1], location[2]))
         else:
             for agent in context.agents():
                 location = locations[agent.uid]
-                space.move(agent, ContinuousPoint(location[0], location[1], location[2]))            
+                if location is not None:
+                    space.move(agent, ContinuousPoint(location[0], location[1], location[2]))
 
 
     def save_network(self, network: SharedNetwork, rank: int):
@@ -349,13 +354,13 @@ class Checkpoint:
         if network.is_directed:
             for nd in filter(lambda n: n.local_rank == rank, network.graph.nodes):
                 edge_data = [nd.uid]
-                edge_data.append([(o.uid, o.local_rank, network.graph[nd][o]) for o in network.graph.successors(nd)]) # type: ignore
-                edge_data.append([(o.uid, o.local_rank, network.graph[o][nd]) for o in network.graph.predecessors(nd)]) # type: ignore
+                edge_data.append([(o.uid, o.local_rank, dict(network.graph[nd][o])) for o in network.graph.successors(nd)]) # type: ignore
+                edge_data.append([(o.uid, o.local_rank, dict(network.graph[o][nd])) for o in network.graph.predecessors(nd)]) # type: ignore
                 data.append(edge_data)
         else:
             for nd in filter(lambda n: n.local_rank == rank, network.graph.nodes):
                 edge_data = [nd.uid]
-                edge_data.append([(n.uid, n.local_rank, network.graph[nd][n]) for n in network.graph.neighbors(nd)])
+                edge_data.append([(n.uid, n.local_rank, dict(network.graph[nd][n])) for n in network.graph.neighbors(nd)])
                 data.append(edge_data)
 
         net_data = {"name": network.name, "directed": network.is_directed,
-- 
2.43.0


From 219c24db15ee1c8ef250e97e2cad30ea300a41eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:08 +0000
Subject: [PATCH 25/26] fix: a requested ghost that became local is no longer a
 requested one

---
 src/repast4py/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/repast4py/core.py b/src/repast4py/core.py
index 5c15641..c641e8b 100644
--- a/src/repast4py/core.py
+++ b/src/repast4py/core.py
@@ -259,6 +259,7 @@ class AgentManager:
             agent_id: the unique id tuple of the ghost.
         """
         del self._ghost_agents[agent_id]
+        self._req_ghosts.discard(agent_id)
 
     def add_ghost(self, ghosted_rank: int, agent: Agent, incr: int = 1):
         """Adds the specified agent to the ghost collection from
-- 
2.43.0


From c465c7420b336e026839d5e6a3bb5bae4de62b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:48 +0000
Subject: [PATCH 26/26] fix: the owner of an agent is told when an existing
 ghost of it is requested

---
 src/repast4py/context.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/repast4py/context.py b/src/repast4py/context.py
index b771ee2..ecda14f 100644
--- a/src/repast4py/context.py
+++ b/src/repast4py/context.py
@@ -415,6 +415,7 @@ class SharedContext:
                 (uid of requested agent, rank to request from)
         """
         requests = [None for i in range(self.comm.size)]
+        kept_ghosts = [[] for i in range(self.comm.size)]
         existing_ghosts = []
         for request in requested_agents:
             # 1 is the rank to request from
@@ -427,12 +428,19 @@ class SharedContext:
                 elif request[0] not in lst:
                     requests[request[1]].append(request[0])
             else:
+                kept_ghosts[request[1]].append(request[0])
                 existing_ghosts.append(agent)
                 self._agent_manager.add_req_ghost(agent.uid)
                 for proj in self.projections.values():
                     if agent not in proj:
                         proj.add(agent)
 
+        # the owners have to know of the ghosts kept here, in order to send their updates
+        for rank, kept in enumerate(self.comm.alltoall(kept_ghosts)):
+            for agent_id in kept:
+                if not self._agent_manager.is_ghosted_to(rank, agent_id):
+                    self._agent_manager.tag_as_ghosted(rank, agent_id)
+
         recv = self.comm.alltoall(requests)
         return (recv, existing_ghosts)
 
-- 
2.43.0

