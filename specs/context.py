import itertools
import collections
from repast4py.value_layer import SharedValueLayer
from repast4py import random
from typing import Callable, List
from .core import AgentManager, SharedProjection, BoundedProjection, Agent
from .util import is_empty

class SharedContext:

    def __init__(self, comm):
        self._agent_manager = AgentManager(comm.Get_rank(), comm.Get_size())
        self._agents_by_type = {}
        self.projections = {}
        self.removed_ghosteds = []
        self.projection_id = 0
        self.rank = comm.Get_rank()
        self.comm = comm
        self.bounded_projs = {}
        self.non_bounded_projs = []
        self.value_layers = []

    def add(self, agent):
        self._agent_manager.add_local(agent)
        self._agents_by_type.setdefault(agent.uid[1], collections.OrderedDict())[agent.uid] = agent
        for proj in self.projections.values():
            proj.add(agent)

    def _add_ghost(self, rank, agent):
        self._agent_manager.add_ghost(rank, agent, incr=len(self.projections))
        for proj in self.projections.values():
            proj.add(agent)

    def add_value_layer(self, value_layer):
        self.value_layers.append(value_layer)

    def add_projection(self, projection):
        for prj in self.projections.values():
            if projection.name == prj.name:
                raise ValueError('Context already contains the named projection "{}"'.format(prj.name))
        self.projections[self.projection_id] = projection
        for a in self._agent_manager._local_agents.values():
            projection.add(a)
        self._agent_manager.add_ghosts_to_projection(projection)
        if isinstance(projection, BoundedProjection):
            self.bounded_projs[self.projection_id] = projection
        else:
            self.non_bounded_projs.append(projection)
        self.projection_id += 1

    def get_projection(self, projection_name):
        for prj in self.projections.values():
            if prj.name == projection_name:
                return prj
        raise KeyError(f'No projection with the name "{projection_name}" can be found.')

    def remove(self, agent):
        self._agent_manager.delete_local(agent.uid, self.removed_ghosteds)
        del self._agents_by_type[agent.uid[1]][agent.uid]
        for proj in self.projections.values():
            proj.remove(agent)

    def _gather_oob_data(self, oob_agents):
        send_data = [[] for i in range(self.comm.size)]
        for pid, proj in self.bounded_projs.items():
            for agent_id, ngh_rank, pt in proj._get_oob():
                agent = self._agent_manager.remove_local(agent_id)
                if agent is None:
                    data = [(agent_id,)]
                else:
                    oob_agents.append((agent, ngh_rank))
                    del self._agents_by_type[agent_id[1]][agent_id]
                    data = [agent.save()]
                    if agent_id in self._agent_manager._ghosted_agents:
                        data.append(self._agent_manager.delete_ghosted(agent_id))
                    proj._agent_moving_rank(agent, ngh_rank, data, self._agent_manager)
                    for nb_proj in self.non_bounded_projs:
                        nb_proj._agent_moving_rank(agent, ngh_rank, data, self._agent_manager)
                send_data[ngh_rank].append([data, (pid, pt)])
            proj._clear_oob()
        return send_data

    def _process_recv_oob_data(self, recv_data, ghosts_to_remove, create_agent):
        for data_list in recv_data:
            for data in data_list:
                agent_data_list = data[0]
                proj_data = data[1]
                uid = agent_data_list[0][0]
                agent = self._agent_manager.get_local(uid)
                if agent is None:
                    agent = create_agent(agent_data_list[0])
                    if agent.uid in self._agent_manager._ghost_agents:
                        ghosts_to_remove.append(agent.uid)
                    self.add(agent)
                    if len(agent_data_list) == 2:
                        ghosted_data = agent_data_list[1]
                        ghosted_data.pop(self.rank, None)
                        self._agent_manager.set_as_ghosted(ghosted_data, agent.uid)
                self.bounded_projs[proj_data[0]]._move_oob_agent(agent, proj_data[1])

    def _update_removed_ghosts(self):
        send_data = [[] for i in range(self.comm.size)]
        for gh in self.removed_ghosteds:
            for rank in gh.ghost_ranks:
                send_data[rank].append(gh.agent.uid)
        recv_data = self.comm.alltoall(send_data)
        for updates in recv_data:
            for removed_id in updates:
                ghost = self._agent_manager.get_ghost(removed_id)
                for proj in self.projections.values():
                    if ghost in proj:
                        proj.remove(ghost)
                self._agent_manager.delete_ghost(removed_id)
        self.removed_ghosteds.clear()

    def _update_ghosts(self):
        self._update_removed_ghosts()
        send_data = [[] for _ in range(self.comm.size)]
        for _, gh_agent in self._agent_manager._ghosted_agents.items():
            for g_rank in gh_agent.ghost_ranks:
                send_data[g_rank].append(gh_agent.agent.save())
        recv_data = self.comm.alltoall(send_data)
        for updates in recv_data:
            for update in updates:
                ghost = self._agent_manager._ghost_agents[update[0]]
                ghost.agent.update(*update[1:])

    def _pre_synch_ghosts(self):
        for proj in self.projections.values():
            proj._pre_synch_ghosts(self._agent_manager)

    def _synch_ghosts(self, restore_agent):
        self._update_ghosts()
        for proj in self.projections.values():
            proj._synch_ghosts(self._agent_manager, restore_agent)
        for vl in self.value_layers:
            vl._synch_ghosts()

    def synchronize(self, restore_agent, sync_ghosts=True):
        if sync_ghosts:
            self._pre_synch_ghosts()
        oob_moved_agents = []
        send_data = self._gather_oob_data(oob_moved_agents)
        recv_data = self.comm.alltoall(send_data)
        ghosts_to_remove = []
        self._process_recv_oob_data(recv_data, ghosts_to_remove, restore_agent)
        any_moved = self._agents_moved(oob_moved_agents, self.projections.values())
        if any_moved:
            for gh_uid in ghosts_to_remove:
                self._agent_manager.delete_ghost(gh_uid)
        if sync_ghosts:
            self._synch_ghosts(restore_agent)
        if any_moved:
            for proj in self.projections.values():
                proj._post_agents_moved_rank(self._agent_manager, restore_agent)
            for proj in self.non_bounded_projs:
                proj._pre_synch_ghosts(self._agent_manager)
                self._update_ghosts()
                for pid, proj in self.projections.items():
                    if pid not in self.bounded_projs:
                        proj._synch_ghosts(self._agent_manager, restore_agent)

    def contains_type(self, agent_type):
        return True if agent_type in self._agents_by_type and len(self._agents_by_type[agent_type]) > 0 else False

    def agents(self, agent_type=None, count=None, shuffle=False):
        if shuffle or count is not None:
            if agent_type is None:
                lst = list(self._agent_manager._local_agents.values())
            else:
                lst = list(self._agents_by_type[agent_type].values())
            if shuffle:
                random.default_rng.shuffle(lst)
            if count is not None:
                lst = lst[:count]
            return lst
        elif agent_type is None:
            return self._agent_manager._local_agents.values().__iter__()
        else:
            return self._agents_by_type[agent_type].values().__iter__()

    def agent(self, agent_id):
        return self._agent_manager.get_local(agent_id)

    def ghost_agent(self, agent_id):
        return self._agent_manager.get_ghost(agent_id, incr=0)

    def size(self, agent_type_ids=None):
        counts = {}
        if agent_type_ids:
            for i in agent_type_ids:
                counts[i] = len(self._agents_by_type.get(i, ()))
        else:
            counts[-1] = len(self._agent_manager._local_agents)
        return counts

    def _send_requests(self, requested_agents):
        requests = [None for i in range(self.comm.size)]
        kept_ghosts = [[] for i in range(self.comm.size)]
        existing_ghosts = []
        for request in requested_agents:
            agent = self._agent_manager.get_ghost(request[0], 0)
            if agent is None:
                lst = requests[request[1]]
                if lst is None:
                    requests[request[1]] = [request[0]]
                elif request[0] not in lst:
                    requests[request[1]].append(request[0])
            else:
                kept_ghosts[request[1]].append(request[0])
                existing_ghosts.append(agent)
                self._agent_manager.add_req_ghost(agent.uid)
                for proj in self.projections.values():
                    if agent not in proj:
                        proj.add(agent)
        for rank, kept in enumerate(self.comm.alltoall(kept_ghosts)):
            for agent_id in kept:
                if not self._agent_manager.is_ghosted_to(rank, agent_id):
                    self._agent_manager.tag_as_ghosted(rank, agent_id)
        recv = self.comm.alltoall(requests)
        return (recv, existing_ghosts)

    def request_agents(self, requested_agents, create_agent):
        sent_agents = [[] for i in range(self.comm.size)]
        requested, ghosts = self._send_requests(requested_agents)
        for rank, requests in enumerate(requested):
            if requests:
                for requested_id in requests:
                    agent = self._agent_manager.tag_as_ghosted(rank, requested_id)
                    sent_agents[rank].append(agent.save())
        recv_agents = self.comm.alltoall(sent_agents)
        for rank, agents in enumerate(recv_agents):
            for agent_data in agents:
                agent = create_agent(agent_data)
                ghosts.append(agent)
                self._add_ghost(rank, agent)
                self._agent_manager.add_req_ghost(agent.uid)
        return ghosts

    def _send_requests__or1(self, requested_agents):
        requests = [None for i in range(self.comm.size)]
        kept_ghosts = [[] for i in range(self.comm.size)]
        existing_ghosts = []
        for request in requested_agents:
            agent = self._agent_manager.get_ghost(request[0], 0)
            if agent is None:
                if requests[request[1]] is None:
                    requests[request[1]] = []
                if request[0] not in requests[request[1]]:
                    requests[request[1]].append(request[0])
            else:
                kept_ghosts[request[1]].append(request[0])
                existing_ghosts.append(agent)
                self._agent_manager.add_req_ghost(agent.uid)
                for proj in self.projections.values():
                    if agent not in proj:
                        proj.add(agent)
        for rank, kept in enumerate(self.comm.alltoall(kept_ghosts)):
            for agent_id in kept:
                if not self._agent_manager.is_ghosted_to(rank, agent_id):
                    self._agent_manager.tag_as_ghosted(rank, agent_id)
        recv = self.comm.alltoall(requests)
        return (recv, existing_ghosts)

    def _send_requests__or2(self, requested_agents):
        requests = [[] for i in range(self.comm.size)]
        kept_ghosts = [[] for i in range(self.comm.size)]
        existing_ghosts = []
        for request in requested_agents:
            agent = self._agent_manager.get_ghost(request[0], 0)
            if agent is None:
                if request[0] not in requests[request[1]]:
                    requests[request[1]].append(request[0])
            else:
                kept_ghosts[request[1]].append(request[0])
                existing_ghosts.append(agent)
                self._agent_manager.add_req_ghost(agent.uid)
                for proj in self.projections.values():
                    if agent not in proj:
                        proj.add(agent)
        for rank, kept in enumerate(self.comm.alltoall(kept_ghosts)):
            for agent_id in kept:
                if not self._agent_manager.is_ghosted_to(rank, agent_id):
                    self._agent_manager.tag_as_ghosted(rank, agent_id)
        recv = self.comm.alltoall(requests)
        return (recv, existing_ghosts)

    def request_agents__or1(self, requested_agents, create_agent):
        sent_agents = [[] for i in range(self.comm.size)]
        requested, ghosts = self._send_requests__or1(requested_agents)
        for rank, requests in enumerate(requested):
            if requests:
                for requested_id in requests:
                    agent = self._agent_manager.tag_as_ghosted(rank, requested_id)
                    sent_agents[rank].append(agent.save())
        recv_agents = self.comm.alltoall(sent_agents)
        for rank, agents in enumerate(recv_agents):
            for agent_data in agents:
                agent = create_agent(agent_data)
                ghosts.append(agent)
                self._add_ghost(rank, agent)
                self._agent_manager.add_req_ghost(agent.uid)
        return ghosts

    def request_agents__or2(self, requested_agents, create_agent):
        sent_agents = [[] for i in range(self.comm.size)]
        requested, ghosts = self._send_requests__or2(requested_agents)
        for rank, requests in enumerate(requested):
            if requests:
                for requested_id in requests:
                    agent = self._agent_manager.tag_as_ghosted(rank, requested_id)
                    sent_agents[rank].append(agent.save())
        recv_agents = self.comm.alltoall(sent_agents)
        for rank, agents in enumerate(recv_agents):
            for agent_data in agents:
                agent = create_agent(agent_data)
                ghosts.append(agent)
                self._add_ghost(rank, agent)
                self._agent_manager.add_req_ghost(agent.uid)
        return ghosts

    def _agents_moved(self, moved_agents, projs):
        moved_ids = [(x.uid, dest) for x, dest in moved_agents]
        all_moved_agents = self.comm.allgather(moved_ids)
        any_moved = not is_empty(all_moved_agents)
        all_moved_agents[self.rank] = []
        if any_moved:
            for proj in projs:
                proj._agents_moved_rank(itertools.chain(*all_moved_agents), self._agent_manager)
        return any_moved

    def move_agents(self, agents_to_move, create_agent):
        sent_agents = [[] for i in range(self.comm.size)]
        moved_agents = []
        for uid, rank in agents_to_move:
            agent = self._agent_manager.remove_local(uid)
            del self._agents_by_type[uid[1]][uid]
            moved_agents.append((agent, rank))
            data = [agent.save()]
            sent_agents[rank].append(data)
            if uid in self._agent_manager._ghosted_agents:
                data.append(self._agent_manager.delete_ghosted(uid))
            for proj in self.projections.values():
                proj._agent_moving_rank(agent, rank, data, self._agent_manager)
        recv_data = self.comm.alltoall(sent_agents)
        ghosts_to_remove = []
        for agents in recv_data:
            for agent_data in agents:
                agent = create_agent(agent_data[0])
                if agent.uid in self._agent_manager._ghost_agents:
                    ghosts_to_remove.append(agent.uid)
                self.add(agent)
                if len(agent_data) == 2:
                    ghosted_data = agent_data[1]
                    ghosted_data.pop(self.rank, None)
                    self._agent_manager.set_as_ghosted(ghosted_data, agent.uid)
        self._agents_moved(moved_agents, self.projections.values())
        for gh_uid in ghosts_to_remove:
            self._agent_manager.delete_ghost(gh_uid)
        self._pre_synch_ghosts()
        send_data = self._gather_oob_data([])
        recv_data = self.comm.alltoall(send_data)
        ghosts_to_remove = []
        self._process_recv_oob_data(recv_data, ghosts_to_remove, create_agent)
        self._synch_ghosts(create_agent)
        for proj in self.projections.values():
            proj._post_agents_moved_rank(self._agent_manager, create_agent)
