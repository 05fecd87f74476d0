import torch
import numpy as np
from typing import Callable, Tuple
from . import geometry
from .space import BorderType, GridStickyBorders, GridPeriodicBorders, CartesianTopology, BoundingBox
from .space import DiscretePoint as dpt
from .space import DiscretePoint
from .core import AgentManager

class _Impl1D:

    def __init__(self, bounds, borders, init_value, dtype):
        self.tpt = dpt(0, 0, 0)
        if borders == BorderType.Sticky:
            self.borders = GridStickyBorders(bounds)
        elif borders == BorderType.Periodic:
            self.borders = GridPeriodicBorders(bounds)
        if init_value == 'random':
            self.grid = torch.rand((bounds.xextent,), dtype=dtype)
        else:
            self.grid = torch.full((bounds.xextent,), init_value, dtype=dtype)
        self.pt_translation = np.array([0 - bounds.xmin, 0, 0])
        self.ngh_translation = 0 - bounds.xmin
        self.translation = np.array([self.ngh_translation, 0, 0])
        self.ngh_finder = geometry.find_1d_nghs_sticky if borders == BorderType.Sticky else geometry.find_1d_nghs_periodic
        self.min_max = np.array([bounds.xmin, bounds.xmin + bounds.xextent - 1])

    def get(self, pt):
        self.borders._transform(pt, self.tpt)
        npt = self.tpt.coordinates + self.translation
        return self.grid[npt[0]]

    def set(self, pt, val):
        self.borders._transform(pt, self.tpt)
        npt = self.tpt.coordinates + self.translation
        self.grid[npt[0]] = val

    def get_nghs(self, pt):
        nghs = self.ngh_finder(pt.coordinates, self.min_max)
        grid_idxs = nghs + self.ngh_translation
        return (self.grid[grid_idxs], nghs)

class _Impl2D:

    def __init__(self, bounds, borders, init_value, dtype):
        self.tpt = dpt(0, 0, 0)
        if borders == BorderType.Sticky:
            self.borders = GridStickyBorders(bounds)
        elif borders == BorderType.Periodic:
            self.borders = GridPeriodicBorders(bounds)
        if init_value == 'random':
            self.grid = torch.rand((bounds.yextent, bounds.xextent), dtype=dtype)
        else:
            self.grid = torch.full((bounds.yextent, bounds.xextent), init_value, dtype=dtype)
        self.pt_translation = np.array([0 - bounds.xmin, 0 - bounds.ymin, 0])
        self.ngh_translation = np.array([[0 - bounds.ymin], [0 - bounds.xmin]])
        self.ngh_finder = geometry.find_2d_nghs_sticky if borders == BorderType.Sticky else geometry.find_2d_nghs_periodic
        self.min_max = np.array([bounds.xmin, bounds.xmin + bounds.xextent - 1, bounds.ymin, bounds.ymin + bounds.yextent - 1])

    def get(self, pt):
        self.borders._transform(pt, self.tpt)
        npt = self.tpt.coordinates + self.pt_translation
        return self.grid[npt[1], npt[0]]

    def set(self, pt, val):
        self.borders._transform(pt, self.tpt)
        npt = self.tpt.coordinates + self.pt_translation
        self.grid[npt[1], npt[0]] = val

    def get_nghs(self, pt):
        nghs = self.ngh_finder(pt.coordinates, self.min_max, pytorch_order=True)
        grid_idxs = nghs + self.ngh_translation
        nghs[[0, 1]] = nghs[[1, 0]]
        return (self.grid[grid_idxs[0], grid_idxs[1]], nghs)

class _Impl3D:

    def __init__(self, bounds, borders, init_value, dtype):
        self.tpt = dpt(0, 0, 0)
        self.idx = np.array([[0], [0], [0]])
        if borders == BorderType.Sticky:
            self.borders = GridStickyBorders(bounds)
        elif borders == BorderType.Periodic:
            self.borders = GridPeriodicBorders(bounds)
        if init_value == 'random':
            self.grid = torch.rand((bounds.zextent, bounds.yextent, bounds.xextent), dtype=dtype)
        else:
            self.grid = torch.full((bounds.zextent, bounds.yextent, bounds.xextent), init_value, dtype=dtype)
        self.pt_translation = np.array([0 - bounds.xmin, 0 - bounds.ymin, 0 - bounds.zmin])
        self.ngh_translation = np.array([[self.pt_translation[2]], [self.pt_translation[1]], [self.pt_translation[0]]])
        self.ngh_finder = geometry.find_3d_nghs_sticky if borders == BorderType.Sticky else geometry.find_3d_nghs_periodic
        self.min_max = np.array([bounds.xmin, bounds.xmin + bounds.xextent - 1, bounds.ymin, bounds.ymin + bounds.yextent - 1, bounds.zmin, bounds.zmin + bounds.zextent - 1])

    def get(self, pt):
        self.borders._transform(pt, self.tpt)
        npt = self.tpt.coordinates + self.pt_translation
        return self.grid[npt[2], npt[1], npt[0]]

    def set(self, pt, val):
        self.borders._transform(pt, self.tpt)
        npt = self.tpt.coordinates + self.pt_translation
        self.grid[npt[2], npt[1], npt[0]] = val

    def get_nghs(self, pt):
        nghs = self.ngh_finder(pt.coordinates, self.min_max, pytorch_order=True)
        grid_idxs = nghs + self.ngh_translation
        nghs[[0, 1, 2]] = nghs[[2, 1, 0]]
        return (self.grid[grid_idxs[0], grid_idxs[1], grid_idxs[2]], nghs)

class ValueLayer:

    def __init__(self, bounds, borders, init_value, dtype=torch.float64):
        if bounds.yextent == 0:
            self.impl = _Impl1D(bounds, borders, init_value, dtype)
        elif bounds.zextent == 0:
            self.impl = _Impl2D(bounds, borders, init_value, dtype)
        else:
            self.impl = _Impl3D(bounds, borders, init_value, dtype)
        self.bbounds = bounds

    @property
    def grid(self):
        return self.impl.grid

    @property
    def bounds(self):
        return self.bbounds

    def get(self, pt):
        return self.impl.get(pt)

    def set(self, pt, val):
        self.impl.set(pt, val)

    def get_nghs(self, pt):
        return self.impl.get_nghs(pt)

def _compute_meta_data_counts(meta_data, num_dims, offset, num_slices):
    if num_slices == 1:
        return np.apply_along_axis(lambda row: np.prod(row[:num_dims]), 1, meta_data)
    elif num_slices == 2:
        return np.apply_along_axis(lambda row: np.prod(row[:num_dims]) + np.prod(row[offset:offset + num_dims]), 1, meta_data)
    elif num_slices == 3:
        return np.apply_along_axis(lambda row: np.prod(row[:num_dims]) + np.prod(row[offset:offset + num_dims]) + np.prod(row[offset * 2:offset * 2 + num_dims]), 1, meta_data)
    elif num_slices == 4:
        return np.apply_along_axis(lambda row: np.prod(row[:num_dims]) + np.prod(row[offset:offset + num_dims]) + np.prod(row[offset * 2:offset * 2 + num_dims]) + np.prod(row[offset * 3:offset * 3 + num_dims]), 1, meta_data)
    elif num_slices == 6:
        return np.apply_along_axis(lambda row: np.prod(row[:num_dims]) + np.prod(row[offset:offset + num_dims]) + np.prod(row[offset * 2:offset * 2 + num_dims]) + np.prod(row[offset * 3:offset * 3 + num_dims]) + np.prod(row[offset * 4:offset * 4 + num_dims]) + np.prod(row[offset * 5:offset * 5 + num_dims]), 1, meta_data)

class SharedValueLayer(ValueLayer):

    def __init__(self, comm, bounds, borders, buffer_size, init_value, dtype=torch.float64):
        self.periodic = borders == BorderType.Periodic
        topo = CartesianTopology(comm, bounds, self.periodic)
        self.cart_comm = topo.comm
        self.rank = self.cart_comm.Get_rank()
        self.procs_per_dim = topo.procs_per_dim
        self.coords = topo.coordinates
        self.buffer_size = buffer_size
        self.full_bounds = bounds
        self.local_bounds = topo.local_bounds
        if comm.Get_size() > 1:
            self._init_buffered_bounds(bounds, buffer_size, self.periodic)
        else:
            self.buffered_bounds = self.local_bounds
            self.non_buff_grid_offsets = np.zeros(6, dtype=np.int32)
        bb = self.buffered_bounds
        offsets = self.non_buff_grid_offsets
        grid_bounds = BoundingBox(self.local_bounds.xmin - offsets[0], bb.xextent, self.local_bounds.ymin - offsets[2], bb.yextent, self.local_bounds.zmin - offsets[4], bb.zextent)
        super().__init__(grid_bounds, borders, 'random', dtype)
        nd = 1 if bounds.yextent == 0 else 3 if bounds.zextent > 0 else 2
        if nd == 3:
            raise ValueError('3D SharedValueLayer is not yet supported')
        self.buffer_self = []
        if self.periodic and comm.Get_size() > 1:
            if len(self.procs_per_dim) == 1 and self.procs_per_dim[0] == 1:
                self.buffer_self.append(self._buffer_self_X)
            if len(self.procs_per_dim) == 2:
                if self.procs_per_dim[0] == 1:
                    self.buffer_self.append(self._buffer_self_X)
                if self.procs_per_dim[1] == 1:
                    self.buffer_self.append(self._buffer_self_Y)
        self._init_value(init_value, nd)
        self._buffer_self()
        if comm.Get_size() > 1:
            self._init_sync_data(nd, topo, buffer_size)
            comm.Barrier()
            self._synch_ghosts()

    def _init_value(self, init_value, nd):
        if init_value != 'random':
            lb = self.local_bounds
            x1 = lb.xmin + self.impl.pt_translation[0]
            x2 = lb.xmin + lb.xextent + self.impl.pt_translation[0]
            if nd == 1:
                self.grid[x1:x2] = init_value
            else:
                y1 = lb.ymin + self.impl.pt_translation[1]
                y2 = lb.ymin + lb.yextent + self.impl.pt_translation[1]
                if nd == 2:
                    self.grid[y1:y2, x1:x2] = init_value
                else:
                    z1 = lb.zmin + self.impl.pt_translation[2]
                    z2 = lb.zmin + lb.zextent + self.impl.pt_translation[2]
                    self.grid[z1:z2, y1:y2, x1:x2] = init_value

    def _buffer_self_X(self):
        self.grid[:, -self.buffer_size:] = self.grid[:, self.buffer_size:self.buffer_size * 2]
        self.grid[:, 0:self.buffer_size] = self.grid[:, -self.buffer_size * 2:-self.buffer_size]

    def _buffer_self_Y(self):
        self.grid[-self.buffer_size:, :] = self.grid[self.buffer_size:self.buffer_size * 2, :]
        self.grid[0:self.buffer_size, :] = self.grid[-self.buffer_size * 2:-self.buffer_size, :]

    def _buffer_self(self):
        for func in self.buffer_self:
            func()

    def _is_self_buffered(self, bounds):
        lb = self.local_bounds
        return self.periodic and (self.procs_per_dim[0] == 1 and bounds[1] - bounds[0] != lb.xextent or (self.procs_per_dim[1] == 1 and bounds[3] - bounds[2] != lb.yextent))

    def _wrap_slice_vals(self, start_val, end_val, full_extent, local_extent, procs_per_dim):
        if procs_per_dim > 1:
            if start_val < 0:
                start_val += full_extent
                end_val += full_extent
            elif start_val >= full_extent:
                start_val -= full_extent
                end_val -= full_extent
        return (start_val, end_val)

    def _init_buffered_bounds(self, bounds, buffer_size, periodic):
        lb = self.local_bounds
        xmin, xextent = (lb.xmin, lb.xextent)
        ymin, yextent = (lb.ymin, lb.yextent)
        zmin, zextent = (lb.zmin, lb.zextent)
        self.non_buff_grid_offsets = np.zeros(6, dtype=np.int32)
        if periodic:
            self.non_buff_grid_offsets[0:2] = buffer_size
            if self.local_bounds.xmin > bounds.xmin:
                xmin = self.local_bounds.xmin - buffer_size
            xextent = self.local_bounds.xextent + buffer_size * 2
            if bounds.yextent > 0:
                self.non_buff_grid_offsets[2:4] = buffer_size
                if self.local_bounds.ymin > bounds.ymin:
                    ymin = self.local_bounds.ymin - buffer_size
                yextent = self.local_bounds.yextent + buffer_size * 2
            if bounds.zextent > 0:
                self.non_buff_grid_offsets[4:6] = buffer_size
                if self.local_bounds.zmin > bounds.zmin:
                    zmin = self.local_bounds.zmin - buffer_size
                zextent = self.local_bounds.zextent + buffer_size * 2
        else:
            xmax = bounds.xmin + bounds.xextent
            if self.local_bounds.xmin > bounds.xmin:
                xmin = self.local_bounds.xmin - buffer_size
                self.non_buff_grid_offsets[0] = buffer_size
                if self.local_bounds.xmin + self.local_bounds.xextent < xmax:
                    xextent = self.local_bounds.xextent + buffer_size * 2
                    self.non_buff_grid_offsets[1] = buffer_size
                else:
                    xextent = self.local_bounds.xextent + buffer_size
            elif self.local_bounds.xmin + self.local_bounds.xextent < xmax:
                xextent = self.local_bounds.xextent + buffer_size
                self.non_buff_grid_offsets[1] = buffer_size
            if bounds.yextent > 0:
                ymax = bounds.ymin + bounds.yextent
                if self.local_bounds.ymin > bounds.ymin:
                    ymin = self.local_bounds.ymin - buffer_size
                    self.non_buff_grid_offsets[2] = buffer_size
                    if self.local_bounds.ymin + self.local_bounds.yextent < ymax:
                        yextent = self.local_bounds.yextent + buffer_size * 2
                        self.non_buff_grid_offsets[3] = buffer_size
                    else:
                        yextent = self.local_bounds.yextent + buffer_size
                elif self.local_bounds.ymin + self.local_bounds.yextent < ymax:
                    yextent = self.local_bounds.yextent + buffer_size
                    self.non_buff_grid_offsets[3] = buffer_size
                else:
                    ymin = self.local_bounds.ymin
                    yextent = self.local_bounds.yextent
            if bounds.zextent > 0:
                zmax = bounds.zmin + bounds.zextent
                if self.local_bounds.zmin > bounds.zmin:
                    zmin = self.local_bounds.zmin - buffer_size
                    self.non_buff_grid_offsets[4] = buffer_size
                    if self.local_bounds.zmin + self.local_bounds.zextent < zmax:
                        zextent = self.local_bounds.zextent + buffer_size * 2
                        self.non_buff_grid_offsets[5] = buffer_size
                    else:
                        zextent = self.local_bounds.zextent + buffer_size
                elif self.local_bounds.zmin + self.local_bounds.zextent < zmax:
                    zextent = self.local_bounds.zextent + buffer_size
                    self.non_buff_grid_offsets[5] = buffer_size
        self.buffered_bounds = BoundingBox(xmin, xextent, ymin, yextent, zmin, zextent)

    def _init_sync_data_1d(self, topo, buffer_size):
        ngh_buffers = []
        r_trans = self.impl.pt_translation[0]
        for ngh_rank, bounds in topo.compute_buffer_nghs(buffer_size):
            row = bounds[0] + r_trans
            shape = (bounds[1] - bounds[0],)
            stop_row = row + shape[0]
            ngh_buffers.append((ngh_rank, shape[0], shape, bounds, (slice(row, stop_row),)))
        ngh_buffers.sort(key=lambda data: data[0])
        buf_dtype = self.grid[ngh_buffers[0][4]].numpy().dtype
        data_size = 6
        num_procs = self.cart_comm.Get_size()
        meta_data_send = np.zeros((num_procs, data_size), dtype=np.int32)
        self.ngh_meta_data_recv = np.zeros((num_procs, data_size), dtype=np.int32)
        offset = 3
        num_sent_slices = int(data_size / offset)
        offsets = [0] * num_procs
        for ngh_rank, _, buf_shape, bounds, _ in ngh_buffers:
            s_idx = offsets[ngh_rank]
            meta_data_send[ngh_rank, s_idx:s_idx + offset] = [buf_shape[0]] + [bounds[0], bounds[1]]
            offsets[ngh_rank] += offset
        self.cart_comm.Alltoall(meta_data_send, self.ngh_meta_data_recv)
        send_counts = _compute_meta_data_counts(meta_data_send, 1, 3, num_sent_slices)
        send_displs = np.concatenate((np.zeros(1, dtype=np.int32), np.cumsum(send_counts, dtype=np.int32)[:-1]))
        send_buf = np.empty(np.sum(send_counts), dtype=buf_dtype)
        self.send_data = ((send_buf, (send_counts, send_displs)), ngh_buffers)
        recv_counts = _compute_meta_data_counts(self.ngh_meta_data_recv, 1, 3, num_sent_slices)
        recv_displs = np.concatenate((np.zeros(1, dtype=np.int32), np.cumsum(recv_counts, dtype=np.int32)[:-1]))
        recv_buf = np.empty(np.sum(recv_counts), dtype=buf_dtype)
        recv_buf_data = []
        for ngh_rank, data in enumerate(self.ngh_meta_data_recv):
            slice_data = []
            if data[0] != 0:
                row = data[1] + r_trans
                stop_row = row + (data[2] - data[1])
                row, stop_row = self._wrap_slice_vals(row, stop_row, self.full_bounds.xextent, self.local_bounds.xextent, self.procs_per_dim[0])
                slice_data.append((ngh_rank, data[0], data[0], (slice(row, stop_row),)))
                for i in range(1, num_sent_slices):
                    idx = offset * i
                    if data[idx] != 0:
                        row = data[idx + 1] + r_trans
                        stop_row = row + (data[idx + 2] - data[idx + 1])
                        row, stop_row = self._wrap_slice_vals(row, stop_row, self.full_bounds.xextent, self.local_bounds.xextent, self.procs_per_dim[0])
                        slice_data.append((ngh_rank, data[idx], data[idx], (slice(row, stop_row),)))
                    else:
                        break
            if len(slice_data) > 0:
                recv_buf_data.append(slice_data)
        self.recv_data = ((recv_buf, (recv_counts, recv_displs)), recv_buf_data)

    def _init_sync_data_2d(self, topo, buffer_size):
        ngh_buffers = []
        c_trans = self.impl.pt_translation[0]
        r_trans = self.impl.pt_translation[1]
        for ngh_rank, bounds in topo.compute_buffer_nghs(buffer_size):
            if self._is_self_buffered(bounds):
                continue
            row = bounds[2] + r_trans
            col = bounds[0] + c_trans
            shape = (bounds[3] - bounds[2], bounds[1] - bounds[0])
            stop_row = row + shape[0]
            stop_col = col + shape[1]
            ngh_buffers.append((ngh_rank, np.prod(shape), shape, bounds, (slice(row, stop_row), slice(col, stop_col))))
        ngh_buffers.sort(key=lambda data: data[0])
        buf_dtype = self.grid[ngh_buffers[0][4]].numpy().dtype
        num_procs = self.cart_comm.Get_size()
        offset = 6
        data_size = offset * 4 if self.periodic else offset
        meta_data_send = np.zeros((num_procs, data_size), dtype=np.int32)
        self.ngh_meta_data_recv = np.zeros((num_procs, data_size), dtype=np.int32)
        offsets = [0] * num_procs
        for ngh_rank, _, buf_shape, bounds, _ in ngh_buffers:
            s_idx = offsets[ngh_rank]
            meta_data_send[ngh_rank, s_idx:s_idx + offset] = [buf_shape[0], buf_shape[1]] + [bounds[2], bounds[3], bounds[0], bounds[1]]
            offsets[ngh_rank] += offset
        self.cart_comm.Alltoall(meta_data_send, self.ngh_meta_data_recv)
        num_sent_slices = int(data_size / offset)
        send_counts = _compute_meta_data_counts(meta_data_send, 2, offset, num_sent_slices)
        send_displs = np.concatenate((np.zeros(1, dtype=np.int32), np.cumsum(send_counts, dtype=np.int32)[:-1]))
        send_buf = np.empty(np.sum(send_counts), dtype=buf_dtype)
        self.send_data = ((send_buf, (send_counts, send_displs)), ngh_buffers)
        recv_counts = _compute_meta_data_counts(self.ngh_meta_data_recv, 2, offset, num_sent_slices)
        recv_displs = np.concatenate((np.zeros(1, dtype=np.int32), np.cumsum(recv_counts, dtype=np.int32)[:-1]))
        recv_buf = np.empty(np.sum(recv_counts), dtype=buf_dtype)
        recv_buf_data = []
        for ngh_rank, data in enumerate(self.ngh_meta_data_recv):
            slice_data = []
            if data[0] != 0:
                row = data[2] + r_trans
                col = data[4] + c_trans
                stop_row = row + (data[3] - data[2])
                stop_col = col + (data[5] - data[4])
                row, stop_row = self._wrap_slice_vals(row, stop_row, self.full_bounds.yextent, self.local_bounds.yextent, self.procs_per_dim[1])
                col, stop_col = self._wrap_slice_vals(col, stop_col, self.full_bounds.xextent, self.local_bounds.xextent, self.procs_per_dim[0])
                slice_data.append((ngh_rank, np.prod(data[:2]), data[:2], (slice(row, stop_row), slice(col, stop_col))))
                for i in range(1, num_sent_slices):
                    idx = offset * i
                    if data[idx] != 0:
                        row = data[idx + 2] + r_trans
                        col = data[idx + 4] + c_trans
                        stop_row = row + (data[idx + 3] - data[idx + 2])
                        stop_col = col + (data[idx + 5] - data[idx + 4])
                        row, stop_row = self._wrap_slice_vals(row, stop_row, self.full_bounds.yextent, self.local_bounds.yextent, self.procs_per_dim[1])
                        col, stop_col = self._wrap_slice_vals(col, stop_col, self.full_bounds.xextent, self.local_bounds.xextent, self.procs_per_dim[0])
                        slice_data.append((ngh_rank, np.prod(data[idx:idx + 2]), data[idx:idx + 2], (slice(row, stop_row), slice(col, stop_col))))
                    else:
                        break
            if len(slice_data) > 0:
                recv_buf_data.append(slice_data)
        self.recv_data = ((recv_buf, (recv_counts, recv_displs)), recv_buf_data)

    def _init_sync_data_3d(self, topo, buffer_size):
        ngh_buffers = []
        c_trans = self.impl.pt_translation[0]
        r_trans = self.impl.pt_translation[1]
        z_trans = self.impl.pt_translation[2]
        for ngh_rank, bounds in topo.compute_buffer_nghs(buffer_size):
            row = bounds[2] + r_trans
            col = bounds[0] + c_trans
            z = bounds[4] + z_trans
            shape = (bounds[3] - bounds[2], bounds[1] - bounds[0], bounds[5] - bounds[4])
            stop_row = row + shape[0]
            stop_col = col + shape[1]
            stop_z = z + shape[2]
            ngh_buffers.append((ngh_rank, np.prod(shape), shape, bounds, (slice(row, stop_row), slice(col, stop_col), slice(z, stop_z))))
        ngh_buffers.sort(key=lambda data: data[0])
        buf_dtype = self.grid[ngh_buffers[0][4]].numpy().dtype
        num_procs = self.cart_comm.Get_size()
        meta_data_send = np.zeros((num_procs, 18), dtype=np.int32)
        self.ngh_meta_data_recv = np.zeros((num_procs, 18), dtype=np.int32)
        for ngh_rank, _, buf_shape, bounds, _ in ngh_buffers:
            s_idx = 0 if meta_data_send[ngh_rank, 0] == 0 else 9
            meta_data_send[ngh_rank, s_idx:s_idx + 9] = ([buf_shape[0], buf_shape[1], buf_shape[2]] + bounds[4], bounds[5], [bounds[2], bounds[3], bounds[0], bounds[1]])
        self.cart_comm.Alltoall(meta_data_send, self.ngh_meta_data_recv)
        send_counts = np.apply_along_axis(lambda row: np.prod(row[0:3] + np.prod(row[9:12])), 1, meta_data_send)
        send_displs = np.concatenate((np.zeros(1, dtype=np.int32), np.cumsum(send_counts, dtype=np.int32)[:-1]))
        send_buf = np.empty(np.sum(send_counts), dtype=buf_dtype)
        self.send_data = ((send_buf, (send_counts, send_displs)), ngh_buffers)
        recv_counts = np.apply_along_axis(lambda row: np.prod(row[0:3] + np.prod(row[9:12])), 1, self.ngh_meta_data_recv)
        recv_displs = np.concatenate((np.zeros(1, dtype=np.int32), np.cumsum(recv_counts, dtype=np.int32)[:-1]))
        recv_buf = np.empty(np.sum(recv_counts), dtype=buf_dtype)
        recv_buf_data = []
        for ngh_rank, data in enumerate(self.ngh_meta_data_recv):
            slice_data = []
            if data[0] != 0:
                z = data[2] + z_trans
                row = data[4] + r_trans
                col = data[6] + c_trans
                stop_z = z + (data[3] - data[2])
                stop_row = row + (data[5] - data[4])
                stop_col = col + (data[7] - data[6])
                row, stop_row = self._wrap_slice_vals(row, stop_row, self.full_bounds.yextent)
                col, stop_col = self._wrap_slice_vals(col, stop_col, self.full_bounds.xextent)
                z, stop_z = self._wrap_slice_vals(z, stop_z, self.full_bounds.zextent)
                slice_data.append((ngh_rank, np.prod(data[:3]), data[:3], (slice(row, stop_row), slice(col, stop_col), slice(z, stop_z))))
                if data[9] != 0:
                    z = data[11] + z_trans
                    row = data[13] + r_trans
                    col = data[15] + c_trans
                    stop_z = z + (data[12] - data[11])
                    stop_row = row + (data[14] - data[13])
                    stop_col = col + (data[16] - data[15])
                    row, stop_row = self._wrap_slice_vals(row, stop_row, self.full_bounds.yextent)
                    col, stop_col = self._wrap_slice_vals(col, stop_col, self.full_bounds.xextent)
                    z, stop_z = self._wrap_slice_vals(z, stop_z, self.full_bounds.zextent)
                    slice_data.append((ngh_rank, np.prod(data[9:12]), data[9:12], (slice(row, stop_row), slice(col, stop_col), slice(z, stop_z))))
            if len(slice_data) > 0:
                recv_buf_data.append(slice_data)
        self.recv_data = ((recv_buf, (recv_counts, recv_displs)), recv_buf_data)

    def _init_sync_data(self, num_dims, topo, buffer_size):
        if num_dims == 1:
            self._init_sync_data_1d(topo, buffer_size)
        elif num_dims == 2:
            self._init_sync_data_2d(topo, buffer_size)
        else:
            self._init_sync_data_3d(topo, buffer_size)

    def _synch_ghosts(self):
        if self.cart_comm.Get_size() == 1:
            return
        send_msg, ngh_buffers = self.send_data
        send_displs = send_msg[1][1].copy()
        send_buf = send_msg[0]
        for ngh_rank, size, _, _, tslice in ngh_buffers:
            disp = send_displs[ngh_rank]
            send_buf[disp:disp + size] = self.grid[tslice].numpy().reshape(size)
            send_displs[ngh_rank] += size
        self.cart_comm.Alltoallv(self.send_data[0], self.recv_data[0])
        recv_msg, recv_buf_data = self.recv_data
        recv_displs = recv_msg[1][1].copy()
        recv_buf = recv_msg[0]
        for items in recv_buf_data:
            for ngh_rank, size, shape, tslice in items:
                try:
                    disp = recv_displs[ngh_rank]
                    self.grid[tslice] = torch.as_tensor(recv_buf[disp:disp + size].reshape(shape))
                    recv_displs[ngh_rank] += size
                except Exception:
                    print(self.rank, ngh_rank, size, shape, tslice)
                    raise
        self._buffer_self()

class ReadWriteValueLayer:

    def __init__(self, comm, bounds, borders, buffer_size, init_value, dtype=torch.float64):
        self.read_layer = SharedValueLayer(comm, bounds, borders, buffer_size, init_value, dtype)
        self.write_layer = SharedValueLayer(comm, bounds, borders, buffer_size, init_value, dtype)

    def swap_layers(self):
        self.read_layer, self.write_layer = (self.write_layer, self.read_layer)

    @property
    def read_grid(self):
        return self.read_layer.grid

    @property
    def write_grid(self):
        return self.write_layer.grid

    @property
    def bounds(self):
        return self.read_layer.bbounds

    def get(self, pt):
        return self.read_layer.get(pt)

    def set(self, pt, val):
        self.write_layer.set(pt, val)

    def get_nghs(self, pt):
        return self.read_layer.get_nghs(pt)

    def _pre_synch_ghosts(self, agent_manager):
        pass

    def _synch_ghosts(self, agent_manager=None, create_agent=None):
        self.write_layer._synch_ghosts()
        self.read_layer._synch_ghosts()
