from typing import Callable, List, Tuple
import mpi4py
import numpy as np
from enum import IntEnum
from ._core import Agent
from .core import AgentManager, SharedProjection
from ._space import DiscretePoint, ContinuousPoint
from ._space import SharedGrid as _SharedGrid
from ._space import SharedContinuousSpace as _SharedContinuousSpace
from ._space import GridStickyBorders, GridPeriodicBorders
from ._space import CartesianTopology, Grid, ContinuousSpace
from .geometry import BoundingBox, get_num_dims

class BorderType(IntEnum):
    Sticky = 0
    '\n    Clips any point coordinate to the maximum or minimum value when the coordinate is less than or\n    greater than the grid or spaces maximum or minimum value. For example, if the minimum grid x location is 0, and\n    an agent moves to an x of -1, then the new coordinate is 0.\n    '
    Periodic = 1
    '\n    Wraps point coordinates when the point coordinate is less than or\n    greater than the grid or spaces maximum or minimum value. For example, if the minimum grid x location is 0,\n    the maximum is 20, and an agent moves to an x of -2, then the new x coordinate is 19.\n    '

class OccupancyType(IntEnum):
    Multiple = 0
    'Any number of agents can inhabit inhabit a location.'
    Single = 1
    'Only a single agent can inhabit a location.'

class SharedGrid(_SharedGrid, SharedProjection):

    def __init__(self, name, bounds, borders, occupancy, buffer_size, comm):
        super().__init__(name, bounds, borders, occupancy, buffer_size, comm)
        self.buffered_agents = []
        self.do_synch = buffer_size > 0
        self.rank = comm.Get_rank()
        self.gather = self._gather_1d
        if bounds.yextent > 0:
            self.gather = self._gather_2d
        if bounds.zextent > 0:
            self.gather = self._gather_3d
        local_bounds = self.get_local_bounds()
        self.random_pt = self._create_random_pt_func(local_bounds)

    def _create_random_pt_func(self, local_bounds):
        nd = get_num_dims(local_bounds)
        if nd == 1:

            def f(rng):
                x = rng.integers(local_bounds.xmin, local_bounds.xmin + local_bounds.xextent)
                return DiscretePoint(x, 0, 0)
            return f
        elif nd == 2:

            def f(rng):
                x = rng.integers(local_bounds.xmin, local_bounds.xmin + local_bounds.xextent)
                y = rng.integers(local_bounds.ymin, local_bounds.ymin + local_bounds.yextent)
                return DiscretePoint(x, y, 0)
            return f
        else:

            def f(rng):
                x = rng.integers(local_bounds.xmin, local_bounds.xmin + local_bounds.xextent)
                y = rng.integers(local_bounds.ymin, local_bounds.ymin + local_bounds.yextent)
                z = rng.integers(local_bounds.zmin, local_bounds.zmin + local_bounds.zextent)
                return DiscretePoint(x, y, z)
            return f

    def __contains__(self, agent):
        return self.contains(agent)

    def get_random_local_pt(self, rng):
        return self.random_pt(rng)

    def _fill_send_data(self):
        send_data = [[] for i in range(self._cart_comm.size)]
        for bd in self._get_buffer_data():
            data_list = send_data[bd[0]]
            ranges = bd[1]
            self.gather(data_list, ranges)
        return send_data

    def _process_recv_data(self, recv_data, agent_manager, create_agent):
        pt = DiscretePoint(0, 0, 0)
        for sending_rank, data_list in enumerate(recv_data):
            for data in data_list:
                agent_data = data[0]
                pt_data = data[1]
                agent = agent_manager.get_ghost(agent_data[0])
                if agent is None:
                    agent = create_agent(agent_data)
                    agent_manager.add_ghost(sending_rank, agent)
                self.buffered_agents.append(agent)
                self.add(agent)
                pt._reset(pt_data)
                self.move(agent, pt)

    def _pre_synch_ghosts(self, agent_manager):
        if self.do_synch:
            for agent in self.buffered_agents:
                self.remove(agent)
                agent_manager.remove_ghost(agent)
            self.buffered_agents.clear()

    def _synch_ghosts(self, agent_manager, create_agent):
        if self.do_synch:
            send_data = self._fill_send_data()
            recv_data = self._cart_comm.alltoall(send_data)
            self._process_recv_data(recv_data, agent_manager, create_agent)

    def _gather_1d(self, data_list, ranges):
        pt = DiscretePoint(0, 0, 0)
        for x in range(ranges[0], ranges[1]):
            pt._reset1D(x)
            agents = self.get_agents(pt)
            for a in agents:
                data_list.append((a.save(), (pt.x, pt.y, pt.z)))

    def _gather_2d(self, data_list, ranges):
        pt = DiscretePoint(0, 0, 0)
        for x in range(ranges[0], ranges[1]):
            for y in range(ranges[2], ranges[3]):
                pt._reset2D(x, y)
                agents = self.get_agents(pt)
                for a in agents:
                    data_list.append((a.save(), (pt.x, pt.y, pt.z)))

    def _gather_3d(self, data_list, ranges):
        pt = DiscretePoint(0, 0, 0)
        for x in range(ranges[0], ranges[1]):
            for y in range(ranges[2], ranges[3]):
                for z in range(ranges[4], ranges[5]):
                    pt._reset3D(x, y, z)
                    agents = self.get_agents(pt)
                    for a in agents:
                        data_list.append((a.save(), (pt.x, pt.y, pt.z)))

    def _agent_moving_rank(self, moving_agent, dest_rank, moving_agent_data, agent_manager):
        self.remove(moving_agent)

    def _agents_moved_rank(self, moved_agents, agent_manager):
        pass

    def _post_agents_moved_rank(self, agent_manager, create_agent):
        pass

class SharedCSpace(_SharedContinuousSpace, SharedProjection):

    def __init__(self, name, bounds, borders, occupancy, buffer_size, comm, tree_threshold):
        super().__init__(name, bounds, borders, occupancy, buffer_size, comm, tree_threshold)
        self.buffered_agents = []
        self.do_synch = buffer_size > 0
        local_bounds = self.get_local_bounds()
        self.random_pt = self._create_random_pt_func(local_bounds)

    def _create_random_pt_func(self, local_bounds):
        nd = get_num_dims(local_bounds)
        if nd == 1:

            def f(rng):
                x = rng.uniform(local_bounds.xmin, local_bounds.xmin + local_bounds.xextent)
                return ContinuousPoint(x, 0, 0)
            return f
        elif nd == 2:

            def f(rng):
                x = rng.uniform(local_bounds.xmin, local_bounds.xmin + local_bounds.xextent)
                y = rng.uniform(local_bounds.ymin, local_bounds.ymin + local_bounds.yextent)
                return ContinuousPoint(x, y, 0)
            return f
        else:

            def f(rng):
                x = rng.uniform(local_bounds.xmin, local_bounds.xmin + local_bounds.xextent)
                y = rng.uniform(local_bounds.ymin, local_bounds.ymin + local_bounds.yextent)
                z = rng.uniform(local_bounds.zmin, local_bounds.zmin + local_bounds.zextent)
                return ContinuousPoint(x, y, z)
            return f

    def __contains__(self, agent):
        return self.contains(agent)

    def get_random_local_pt(self, rng):
        return self.random_pt(rng)

    def _pre_synch_ghosts(self, agent_manager):
        if self.do_synch:
            for agent in self.buffered_agents:
                self.remove(agent)
                agent_manager.remove_ghost(agent)
            self.buffered_agents.clear()

    def _fill_send_data(self):
        send_data = [[] for i in range(self._cart_comm.size)]
        for bd in self._get_buffer_data():
            data_list = send_data[bd[0]]
            box = bd[1]
            bounds = BoundingBox(box[0], box[1] - box[0], box[2], box[3] - box[2], box[4], box[5] - box[4])
            for a in self.get_agents_within(bounds):
                pt = self.get_location(a)
                data_list.append((a.save(), (pt.x, pt.y, pt.z)))
        return send_data

    def _process_recv_data(self, recv_data, agent_manager, create_agent):
        pt = ContinuousPoint(0, 0, 0)
        for sending_rank, data_list in enumerate(recv_data):
            for agent_data, pt_data in data_list:
                agent = agent_manager.get_ghost(agent_data[0])
                if agent is None:
                    agent = create_agent(agent_data)
                    agent_manager.add_ghost(sending_rank, agent)
                self.buffered_agents.append(agent)
                self.add(agent)
                pt._reset(pt_data)
                self.move(agent, pt)

    def _synch_ghosts(self, agent_manager, create_agent):
        if self.do_synch:
            send_data = self._fill_send_data()
            recv_data = self._cart_comm.alltoall(send_data)
            self._process_recv_data(recv_data, agent_manager, create_agent)

    def _agent_moving_rank(self, moving_agent, dest_rank, moving_agent_data, agent_manager):
        self.remove(moving_agent)

    def _agents_moved_rank(self, moved_agents, agent_manager):
        pass

    def _post_agents_moved_rank(self, agent_manager, create_agent):
        pass
