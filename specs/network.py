from mpi4py import MPI
from dataclasses import dataclass, field
import numpy as np
import networkx as nx
from itertools import chain
import math
import json
from abc import ABC, abstractmethod
from typing import List, Iterable, Callable, Tuple, Dict
from ._core import Agent
from .core import AgentManager, SharedProjection
from . import random

@dataclass
class GhostedEdge:
    local_agent: Agent
    ghost_agent: Agent
    edge_attr: Dict

class SharedNetwork(SharedProjection, ABC):

    def __init__(self, name, comm, graph):
        self.name = name
        self.comm = comm
        self.graph = graph
        self.rank = comm.Get_rank()
        self.edges_to_update = set()
        self.ghosted_edges = {}
        self.new_edges = {}
        self.edges_to_remove = {}
        self._agent_moved_edges = []
        self._no_longer_ghosts = [[] for _ in range(self.comm.size)]
        self.ghosts_to_ref = []

    def __iter__(self):
        return self.graph.__iter__()

    def __contains__(self, node):
        return self.graph.has_node(node)

    @property
    def node_count(self):
        return self.graph.number_of_nodes()

    @property
    def edge_count(self):
        return self.graph.number_of_edges()

    @property
    @abstractmethod
    def is_directed(self):
        pass

    @abstractmethod
    def _get_edge_key(self, edge):
        pass

    @abstractmethod
    def _remove_edge_key(self, u_agent, v_agent):
        pass

    @abstractmethod
    def _add_edge_key(self, u_agent, v_agent):
        pass

    @abstractmethod
    def _has_edge(self, agent):
        pass

    @abstractmethod
    def add_edge(self, u_agent, v_agent, **kwattr):
        pass

    @abstractmethod
    def num_edges(self, agent):
        pass

    def add(self, agent):
        self.graph.add_node(agent)

    def add_nodes(self, agents):
        self.graph.add_nodes_from(agents)

    def remove(self, agent):
        if self.graph.has_node(agent):
            for edge in list(self._edges(agent)):
                self._discard_edge_sync(edge)
                self._remove_edge_key(*edge)
            for edge in [e for e in self.edges_to_remove if agent in e]:
                del self.edges_to_remove[edge]
        self.graph.remove_node(agent)

    def remove__or1(self, agent):
        if self.graph.has_node(agent):
            for edge in list(self._edges(agent)):
                self._discard_edge_sync(edge)
                self._remove_edge_key(*edge)
            for edge in list(self.edges_to_remove):
                if edge[0] == agent or edge[1] == agent:
                    del self.edges_to_remove[edge]
        self.graph.remove_node(agent)

    def update_edge(self, u_agent, v_agent, **kwattr):
        edge_key = self._get_edge_key((u_agent, v_agent))
        for k, v in kwattr.items():
            self.graph.edges[edge_key][k] = v
        if u_agent.local_rank == self.rank and v_agent.local_rank != self.rank or (u_agent.local_rank != self.rank and v_agent.local_rank == self.rank):
            self.edges_to_update.add(edge_key)

    def _discard_edge_sync(self, edge):
        edge_key = self._get_edge_key(edge)
        self.ghosted_edges.pop(edge_key, None)
        self.new_edges.pop(edge_key, None)
        self.edges_to_update.discard(edge_key)

    def remove_edge(self, u_agent, v_agent):
        self.graph.remove_edge(u_agent, v_agent)
        if u_agent.local_rank != self.rank and v_agent.local_rank == self.rank or (u_agent.local_rank == self.rank and v_agent.local_rank != self.rank):
            edge_key = self._get_edge_key((u_agent, v_agent))
            if edge_key in self.ghosted_edges or edge_key not in self.new_edges:
                self.edges_to_remove[edge_key] = 0 if edge_key[1].local_rank == self.rank else 1
            self._discard_edge_sync(edge_key)
        self._remove_edge_key(u_agent, v_agent)

    def clear_edges(self):
        for u_agent, v_agent in list(self.graph.edges()):
            self.remove_edge(u_agent, v_agent)

    def contains_edge(self, u_agent, v_agent):
        return self.graph.has_edge(u_agent, v_agent)

    def _sync_removed(self, agent_manager):
        sync_edges = [[] for i in range(self.comm.size)]
        for edge, ghost_idx in self.edges_to_remove.items():
            ghost = edge[ghost_idx]
            sync_edges[ghost.local_rank].append((edge[0].uid, edge[1].uid))
        self.edges_to_remove.clear()
        to_remove = self.comm.alltoall(sync_edges)
        no_longer_ghosts = [[] for i in range(self.comm.size)]
        for edges in to_remove:
            for u_id, v_id in edges:
                u_agent = agent_manager.get_local(u_id)
                if u_agent is None:
                    u_agent = ghost = agent_manager.get_ghost(u_id, incr=0)
                    v_agent = agent_manager.get_local(v_id)
                else:
                    v_agent = ghost = agent_manager.get_ghost(v_id, incr=0)
                if ghost is None or not self.graph.has_node(ghost):
                    continue
                if self.graph.has_edge(u_agent, v_agent):
                    self._discard_edge_sync((u_agent, v_agent))
                    self.graph.remove_edge(u_agent, v_agent)
                    self._remove_edge_key(u_agent, v_agent)
                if not self._has_edge(ghost):
                    agent_manager.remove_ghost(ghost)
                    self.graph.remove_node(ghost)
                    if agent_manager.get_ghost(ghost.uid, incr=0) is None:
                        no_longer_ghosts[ghost.local_rank].append(ghost.uid)
        for rank, uids in enumerate(self.comm.alltoall(no_longer_ghosts)):
            for uid in uids:
                while agent_manager.is_ghosted_to(rank, uid):
                    agent_manager.untag_as_ghosted(rank, uid)

    def _sync_vertices(self, agent_manager, create_agent):
        sync_agents = [[] for i in range(self.comm.size)]
        sync_edges = [[] for i in range(self.comm.size)]
        for nodes, ghosted_edge in self.new_edges.items():
            local_agent = ghosted_edge.local_agent
            ghost_agent = ghosted_edge.ghost_agent
            other_rank = ghost_agent.local_rank
            self.ghosted_edges[nodes] = ghosted_edge
            if not agent_manager.is_ghosted_to(other_rank, local_agent.uid):
                sync_agents[other_rank].append(local_agent.save())
                agent_manager.tag_as_ghosted(other_rank, local_agent.uid)
            sync_edges[other_rank].append((nodes[0].uid, nodes[1].uid, ghosted_edge.edge_attr))
        self.new_edges.clear()
        for edge_key in self.edges_to_update:
            ghost_agent = edge_key[1] if edge_key[0].local_rank == self.rank else edge_key[0]
            sync_edges[ghost_agent.local_rank].append((edge_key[0].uid, edge_key[1].uid, self.graph.edges[edge_key]))
        self.edges_to_update.clear()
        recv_agents = self.comm.alltoall(sync_agents)
        for rank, agents in enumerate(recv_agents):
            for agent_data in agents:
                agent = create_agent(agent_data)
                agent_manager.add_ghost(rank, agent, 1)
                self.add(agent)
        return sync_edges

    def _sync_edges(self, sync_edges, agent_manager):
        recv_edges = self.comm.alltoall(sync_edges)
        for edges in recv_edges:
            for u_id, v_id, edge_attr in edges:
                u_agent = agent_manager._ghost_agents.get(u_id)
                if u_agent is None:
                    u_agent = agent_manager._local_agents[u_id]
                    v_agent = ghost = agent_manager._ghost_agents[v_id].agent
                else:
                    u_agent = ghost = u_agent.agent
                    v_agent = agent_manager._local_agents[v_id]
                if not self.graph.has_node(ghost):
                    agent_manager.get_ghost(ghost.uid)
                self.graph.add_edge(u_agent, v_agent, **edge_attr)
                self._add_edge_key(u_agent, v_agent)

    def _synch_ghosts(self, agent_manager, create_agent):
        self._sync_removed(agent_manager)
        sync_edges = self._sync_vertices(agent_manager, create_agent)
        self._sync_edges(sync_edges, agent_manager)

    def _pre_synch_ghosts(self, agent_manager):
        send_msg = [[] for i in range(self.comm.size)]
        for agent in self.ghosts_to_ref:
            if self.graph.has_node(agent):
                ghost = agent_manager.get_ghost(agent.uid)
                if ghost is None:
                    agent_manager.add_ghost(agent.local_rank, agent)
                send_msg[agent.local_rank].append(agent.uid)
        self.ghosts_to_ref.clear()
        recv_msg = self.comm.alltoall(send_msg)
        for rank, agents in enumerate(recv_msg):
            for agent in agents:
                agent_manager.tag_as_ghosted(rank, agent)

    def _post_agents_moved_rank(self, agent_manager, create_agent):
        for u_id, v_id, edge_attr in self._agent_moved_edges:
            u = agent_manager.get_local(u_id)
            if u is None:
                u = agent_manager.get_ghost(u_id, incr=0)
            v = agent_manager.get_local(v_id)
            if v is None:
                v = agent_manager.get_ghost(v_id, incr=0)
            self.add_edge(u, v, **edge_attr)
        self._agent_moved_edges.clear()
        self._synch_ghosts(agent_manager, create_agent)

    def _agent_moving_rank(self, moving_agent, dest_rank, moving_agent_data, agent_manager):
        nodes_to_remove = []
        edges_to_remove = []
        for u, v, attr in self._edges(moving_agent, data=True):
            other = v if u.uid == moving_agent.uid else u
            if other.local_rank != self.rank:
                edges_to_remove.append((u, v))
                if self.num_edges(other) == 1 and (not agent_manager.is_requested(other.uid)):
                    nodes_to_remove.append(other)
                    agent_manager.remove_ghost(other)
                    if agent_manager.get_ghost(other.uid, incr=0) is None:
                        self._no_longer_ghosts[other.local_rank].append(other.uid)
            else:
                if len(moving_agent_data) == 1:
                    moving_agent_data.append({self.rank: 1})
                elif self.rank in moving_agent_data[1]:
                    moving_agent_data[1][self.rank] += 1
                else:
                    moving_agent_data[1][self.rank] = 1
                agent_manager.add_ghost(dest_rank, moving_agent, incr=0)
                self._agent_moved_edges.append((u.uid, v.uid, attr))
        for edge in edges_to_remove:
            self._discard_edge_sync(edge)
            self.graph.remove_edge(*edge)
            self._remove_edge_key(*edge)
        for node in nodes_to_remove:
            self.graph.remove_node(node)
        self.graph.remove_node(moving_agent)

    def _agent_moving_rank__or1(self, moving_agent, dest_rank, moving_agent_data, agent_manager):
        nodes_to_remove = []
        edges_to_remove = []
        for u, v, attr in self._edges(moving_agent, data=True):
            other = v if u.uid == moving_agent.uid else u
            if other.local_rank != self.rank:
                edges_to_remove.append((u, v))
                if self.num_edges(other) == 1 and (not agent_manager.is_requested(other.uid)):
                    nodes_to_remove.append(other)
                    agent_manager.remove_ghost(other)
                    if agent_manager.get_ghost(other.uid, incr=0) is None:
                        self._no_longer_ghosts[other.local_rank].append(other.uid)
            else:
                if len(moving_agent_data) == 1:
                    moving_agent_data.append({})
                moving_agent_data[1][self.rank] = moving_agent_data[1].get(self.rank, 0) + 1
                agent_manager.add_ghost(dest_rank, moving_agent, incr=0)
                self._agent_moved_edges.append((u.uid, v.uid, attr))
        for edge in edges_to_remove:
            self._discard_edge_sync(edge)
            self.graph.remove_edge(*edge)
            self._remove_edge_key(*edge)
        for node in nodes_to_remove:
            self.graph.remove_node(node)
        self.graph.remove_node(moving_agent)

    def _agent_moving_rank__or2(self, moving_agent, dest_rank, moving_agent_data, agent_manager):
        nodes_to_remove = []
        edges_to_remove = []
        for u, v, attr in self._edges(moving_agent, data=True):
            other = v if u.uid == moving_agent.uid else u
            if other.local_rank != self.rank:
                edges_to_remove.append((u, v))
                if self.num_edges(other) == 1 and (not agent_manager.is_requested(other.uid)):
                    nodes_to_remove.append(other)
                    agent_manager.remove_ghost(other)
                    if agent_manager.get_ghost(other.uid, incr=0) is None:
                        self._no_longer_ghosts[other.local_rank].append(other.uid)
            else:
                if len(moving_agent_data) == 1:
                    moving_agent_data.append({})
                if self.rank not in moving_agent_data[1]:
                    moving_agent_data[1][self.rank] = 0
                moving_agent_data[1][self.rank] += 1
                agent_manager.add_ghost(dest_rank, moving_agent, incr=0)
                self._agent_moved_edges.append((u.uid, v.uid, attr))
        for edge in edges_to_remove:
            self._discard_edge_sync(edge)
            self.graph.remove_edge(*edge)
            self._remove_edge_key(*edge)
        for node in nodes_to_remove:
            self.graph.remove_node(node)
        self.graph.remove_node(moving_agent)

    def _agents_moved_rank(self, moved_agents, agent_manager):
        stop_ghosting_ids = self.comm.alltoall(self._no_longer_ghosts)
        for ghost_rank, ids in enumerate(stop_ghosting_ids):
            for id in ids:
                while agent_manager.is_ghosted_to(ghost_rank, id):
                    agent_manager.untag_as_ghosted(ghost_rank, id)
        self._no_longer_ghosts = [[] for _ in range(self.comm.size)]
        for uid, dest in moved_agents:
            if dest == self.rank:
                ghost = agent_manager.get_ghost(uid)
                if ghost is not None and self.graph.has_node(ghost):
                    agent = agent_manager.get_local(uid)
                    edge_list = [e for e in self._edges(ghost, data=True)]
                    for u, v, attr in edge_list:
                        self._discard_edge_sync((u, v))
                        self.graph.remove_edge(u, v)
                        self._remove_edge_key(u, v)
                        if u.uid == agent.uid:
                            u = agent
                        else:
                            v = agent
                        self.graph.add_edge(u, v, **attr)
                        self._add_edge_key(u, v)
                    self.graph.remove_node(ghost)
            else:
                agent = agent_manager.get_ghost(uid, 0)
                if agent is not None:
                    agent.local_rank = dest
                    if not self.graph.has_node(agent):
                        continue
                    for edge in self._edges(agent):
                        edge_key = self._get_edge_key(edge)
                        ge = self.ghosted_edges.get(edge_key, None)
                        if ge is None:
                            other = edge_key[1] if edge_key[0] is agent else edge_key[0]
                            ge = GhostedEdge(other, agent, self.graph.edges[edge_key])
                        self.new_edges[edge_key] = ge

class UndirectedSharedNetwork(SharedNetwork):

    def __init__(self, name, comm):
        super().__init__(name, comm, nx.Graph())
        self.canonical_edge_keys = {}

    @property
    def is_directed(self):
        return False

    def _has_edge(self, agent):
        return len(self.graph.edges(agent)) > 0

    def _get_edge_key(self, edge):
        return self.canonical_edge_keys[edge]

    def _add_edge_key(self, u_agent, v_agent):
        edge_key = (u_agent, v_agent)
        self.canonical_edge_keys[edge_key] = edge_key
        self.canonical_edge_keys[v_agent, u_agent] = edge_key
        return edge_key

    def _remove_edge_key(self, u_agent, v_agent):
        edge_key = (u_agent, v_agent)
        self.canonical_edge_keys.pop(edge_key)
        self.canonical_edge_keys.pop((v_agent, u_agent), None)

    def add_edge(self, u_agent, v_agent, **kwattr):
        if u_agent.local_rank == self.rank and v_agent.local_rank != self.rank:
            if not self.graph.has_node(v_agent):
                self.ghosts_to_ref.append(v_agent)
            self.graph.add_edge(u_agent, v_agent, **kwattr)
            edge_key = self._add_edge_key(u_agent, v_agent)
            ge = GhostedEdge(u_agent, v_agent, self.graph.edges[edge_key])
            self.new_edges[edge_key] = ge
            if self.edges_to_remove.pop(edge_key, None) is not None:
                self.ghosted_edges[edge_key] = ge
        elif u_agent.local_rank != self.rank and v_agent.local_rank == self.rank:
            if not self.graph.has_node(u_agent):
                self.ghosts_to_ref.append(u_agent)
            self.graph.add_edge(u_agent, v_agent, **kwattr)
            edge_key = self._add_edge_key(u_agent, v_agent)
            ge = GhostedEdge(v_agent, u_agent, self.graph.edges[edge_key])
            self.new_edges[edge_key] = ge
            if self.edges_to_remove.pop(edge_key, None) is not None:
                self.ghosted_edges[edge_key] = ge
        else:
            self._add_edge_key(u_agent, v_agent)
            self.graph.add_edge(u_agent, v_agent, **kwattr)

    def _edges(self, agent, data=False):
        return self.graph.edges(agent, data=data)

    def num_edges(self, agent):
        return len(self.graph.edges(agent))

class DirectedSharedNetwork(SharedNetwork):

    def __init__(self, name, comm):
        super().__init__(name, comm, nx.DiGraph())

    @property
    def is_directed(self):
        return True

    def _has_edge(self, agent):
        return len(self.graph.in_edges(agent)) > 0 or len(self.graph.out_edges(agent)) > 0

    def _get_edge_key(self, edge):
        return edge

    def _remove_edge_key(self, u_agent, v_agent):
        pass

    def _add_edge_key(self, u_agent, v_agent):
        pass

    def add_edge(self, u_agent, v_agent, **kwattr):
        if u_agent.local_rank == self.rank and v_agent.local_rank != self.rank:
            if not self.graph.has_node(v_agent):
                self.ghosts_to_ref.append(v_agent)
            self.graph.add_edge(u_agent, v_agent, **kwattr)
            edge_key = (u_agent, v_agent)
            ge = GhostedEdge(u_agent, v_agent, self.graph.edges[edge_key])
            self.new_edges[edge_key] = ge
            if self.edges_to_remove.pop(edge_key, None) is not None:
                self.ghosted_edges[edge_key] = ge
        elif u_agent.local_rank != self.rank and v_agent.local_rank == self.rank:
            if not self.graph.has_node(u_agent):
                self.ghosts_to_ref.append(u_agent)
            self.graph.add_edge(u_agent, v_agent, **kwattr)
            edge_key = (u_agent, v_agent)
            ge = GhostedEdge(v_agent, u_agent, self.graph.edges[edge_key])
            self.new_edges[edge_key] = ge
            if self.edges_to_remove.pop(edge_key, None) is not None:
                self.ghosted_edges[edge_key] = ge
        else:
            self.graph.add_edge(u_agent, v_agent, **kwattr)

    def _edges(self, agent, data=False):
        return chain(self.graph.out_edges(agent, data=data), self.graph.in_edges(agent, data=data))

    def num_edges(self, agent):
        return len(self.graph.out_edges(agent)) + len(self.graph.in_edges(agent))

@dataclass
class GraphData:
    rank: int
    agents: Dict
    remote_agents: Dict
    requested_agents: List
    edges: List
    requested: set = field(default_factory=set)

def _parse_graph_desc(line):
    try:
        vals = line.split(' ')
        if len(vals) != 2:
            raise ValueError
        id = vals[0]
        is_directed = int(vals[1]) != 0
        return (id, is_directed)
    except Exception:
        raise ValueError('Error reading graph description file on line 1. Expected graph description with format: "id [0|1]", where 0 indicates an undirected graph and 1 directed')
_EMPTY_DICT = {}

def _parse_node(line, line_num, graph_data, ctx, create_agent):
    try:
        vals = line.split(None, 3)
        n_vals = len(vals)
        if n_vals < 3 or n_vals > 4:
            raise ValueError
        n_id = int(vals[0])
        agent_type = int(vals[1])
        rank = int(vals[2])
        if rank == graph_data.rank or graph_data.rank == -1:
            attribs = _EMPTY_DICT
            if n_vals == 4:
                attribs = json.loads(vals[3])
            agent = create_agent(n_id, agent_type, rank, **attribs)
            ctx.add(agent)
            graph_data.agents[n_id] = agent
        else:
            graph_data.remote_agents[n_id] = (n_id, agent_type, rank)
    except Exception:
        raise ValueError(f'Error reading graph description file on line {line_num}: "{line}". Expected node description with format: "node_id agent_type rank" following by an optional json agent attribute dictionary')

def _request_remote_agents(graph_data, ctx, create_agent):
    requested_agents = ctx.request_agents(graph_data.requested_agents, create_agent)
    for agent in requested_agents:
        graph_data.agents[agent.uid[0]] = agent

def _parse_edge(line, line_num, graph, graph_data):
    requested = graph_data.requested
    try:
        vals = line.split(None, 2)
        n_vals = len(vals)
        if n_vals < 2 or n_vals > 3:
            raise ValueError
        u_id = int(vals[0])
        v_id = int(vals[1])
        u_in = u_id in graph_data.agents
        v_in = v_id in graph_data.agents
        if u_in and v_in:
            u = graph_data.agents[u_id]
            v = graph_data.agents[v_id]
            if n_vals == 3:
                graph.add_edge(u, v, **json.loads(vals[2]))
            else:
                graph.add_edge(u, v)
        elif u_in and (not v_in):
            v_uid = graph_data.remote_agents[v_id]
            if v_id not in requested:
                graph_data.requested_agents.append((v_uid, v_uid[2]))
                requested.add(v_id)
            u_uid = graph_data.agents[u_id].uid
            if n_vals == 3:
                graph_data.edges.append((u_uid, v_uid, vals[2]))
            else:
                graph_data.edges.append((u_uid, v_uid))
        elif not u_in and v_in:
            u_uid = graph_data.remote_agents[u_id]
            if u_id not in requested:
                graph_data.requested_agents.append((u_uid, u_uid[2]))
                requested.add(u_id)
            v_uid = graph_data.agents[v_id].uid
            if n_vals == 3:
                graph_data.edges.append((u_uid, v_uid, vals[2]))
            else:
                graph_data.edges.append((u_uid, v_uid))
    except KeyError:
        raise ValueError(f'Error reading graph description file on line {line_num}. Agent with {u_id} or {v_id} cannot be found')
    except Exception:
        raise ValueError(f'Error reading graph description file on line {line_num}. Expected edge description with format: "u_id v_id" following by an optional json edge attribute dictionary')

def _create_edges(graph, graph_data):
    for edge in graph_data.edges:
        u = graph_data.agents[edge[0][0]]
        v = graph_data.agents[edge[1][0]]
        if len(edge) == 3:
            graph.add_edge(u, v, **json.loads(edge[2]))
        else:
            graph.add_edge(u, v)

def read_network(fpath, ctx, create_agent, restore_agent):
    with open(fpath) as f_in:
        gid, is_directed = _parse_graph_desc(f_in.readline())
        g = DirectedSharedNetwork(gid, ctx.comm) if is_directed else UndirectedSharedNetwork(gid, ctx.comm)
        ctx.add_projection(g)
        gd_rank = ctx.rank if ctx.comm.size > 1 else -1
        graph_data = GraphData(rank=gd_rank, agents={}, remote_agents={}, requested_agents=[], edges=[])
        parse_nodes = True
        for i, line in enumerate(f_in):
            line = line.strip()
            if parse_nodes:
                if line == 'EDGES':
                    parse_nodes = False
                else:
                    _parse_node(line, i + 2, graph_data, ctx, create_agent)
            else:
                _parse_edge(line, i + 2, g, graph_data)
    _request_remote_agents(graph_data, ctx, restore_agent)
    ctx.comm.Barrier()
    _create_edges(g, graph_data)
    ctx.synchronize(restore_agent)

def _write_node(f_out, node_data, rank):
    n = node_data[0]
    attrib = node_data[1]
    agent_type = 0
    if 'agent_type' in attrib:
        try:
            agent_type = int(attrib['agent_type'])
            if agent_type < 0:
                raise ValueError('Error generating graph description file. Node attribute "agent_type" must be a non-negative integer.')
            attrib = attrib.copy()
            del attrib['agent_type']
        except Exception:
            raise ValueError('Error generating graph description file. Node attribute "agent_type" must be a non-negative integer.')
    line = f'{n} {agent_type} {rank}'
    if len(attrib) > 0:
        line = f'{line} {json.dumps(attrib)}'
    f_out.write(line)
    f_out.write('\n')

def _write_edges(f_out, graph):
    f_out.write('EDGES\n')
    for u, v, attrib in graph.edges(data=True):
        line = f'{u} {v}'
        if len(attrib) > 0:
            line = f'{line} {json.dumps(attrib)}'
        f_out.write(line)
        f_out.write('\n')

def _random_partition(graph, network_name, fpath, n_ranks, **partitioning_args):
    num_nodes = graph.number_of_nodes()
    nodes_per_rank = num_nodes / n_ranks
    a = np.arange(n_ranks)
    assigned_ranks = np.tile(a, math.ceil(nodes_per_rank))
    if 'rng' in partitioning_args:
        rng_val = partitioning_args['rng']
        if rng_val == 'default':
            rng = random.default_rng
        else:
            rng = rng_val
    else:
        rng = random.default_rng
    rng.shuffle(assigned_ranks)
    if len(assigned_ranks) > num_nodes:
        assigned_ranks = assigned_ranks[:num_nodes]
    with open(fpath, 'w') as f_out:
        is_d = 1 if nx.is_directed(graph) else 0
        f_out.write(f'{network_name} {is_d}\n')
        for i, nd in enumerate(graph.nodes(data=True)):
            _write_node(f_out, nd, assigned_ranks[i])
        _write_edges(f_out, graph)

def _metis_partition(graph, network_name, fpath, n_ranks, **partitioning_args):
    import nxmetis
    _, partitions = nxmetis.partition(graph, n_ranks, **partitioning_args)
    with open(fpath, 'w') as f_out:
        is_d = 1 if nx.is_directed(graph) else 0
        f_out.write(f'{network_name} {is_d}\n')
        for i, partition in enumerate(partitions):
            for nid in partition:
                _write_node(f_out, (nid, graph.nodes[nid]), i)
        _write_edges(f_out, graph)

def write_network(graph, network_name, fpath, n_ranks, **partition_args):
    if 'partition_method' in partition_args:
        partition_method = partition_args['partition_method']
        if partition_method == 'random':
            _random_partition(graph, network_name, fpath, n_ranks, **partition_args)
        elif partition_method == 'metis':
            del partition_args['partition_method']
            _metis_partition(graph, network_name, fpath, n_ranks, **partition_args)
        else:
            raise ValueError('Invalid partition method, must be one of "random" or "metis"')
    else:
        _random_partition(graph, network_name, fpath, n_ranks, **partition_args)
