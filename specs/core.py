import collections
import numpy as np
from numpy.typing import NDArray
from ._core import Agent
from typing import Callable, List, Tuple, Dict
from dataclasses import dataclass
try:
    from typing import Protocol, runtime_checkable
except ImportError:
    from typing_extensions import Protocol, runtime_checkable

@dataclass
class GhostAgent:
    agent: Agent
    ref_count: int

@dataclass
class GhostedAgent:
    agent: Agent
    ghost_ranks: Dict

class AgentManager:

    def __init__(self, rank, world_size):
        self._local_agents = collections.OrderedDict()
        self._ghosted_agents = {}
        self._ghost_agents = {}
        self.rank = rank
        self._req_ghosts = set()

    def is_requested(self, agent_id):
        return agent_id in self._req_ghosts

    def add_req_ghost(self, agent_id):
        self._req_ghosts.add(agent_id)

    def delete_local(self, agent_id, ghosted_deleted):
        gh = self._ghosted_agents.pop(agent_id, None)
        if gh:
            ghosted_deleted.append(gh)
        return self._local_agents.pop(agent_id, None)

    def remove_local(self, agent_id):
        return self._local_agents.pop(agent_id, None)

    def add_local(self, agent):
        agent.local_rank = self.rank
        self._local_agents[agent.uid] = agent

    def get_local(self, agent_id):
        return self._local_agents.get(agent_id)

    def is_ghosted_to(self, ghost_rank, agent_id):
        return agent_id in self._ghosted_agents and ghost_rank in self._ghosted_agents[agent_id].ghost_ranks

    def tag_as_ghosted(self, ghost_rank, agent_id):
        if agent_id in self._ghosted_agents:
            gh = self._ghosted_agents[agent_id]
            ranks = gh.ghost_ranks
            if ghost_rank in ranks:
                ranks[ghost_rank] += 1
            else:
                ranks[ghost_rank] = 1
            agent = gh.agent
        else:
            agent = self._local_agents[agent_id]
            self._ghosted_agents[agent_id] = GhostedAgent(agent, {ghost_rank: 1})
        return agent

    def set_as_ghosted(self, ghost_ranks, agent_id):
        if len(ghost_ranks) > 0:
            self._ghosted_agents[agent_id] = GhostedAgent(self._local_agents[agent_id], ghost_ranks)

    def delete_ghosted(self, agent_id):
        return self._ghosted_agents.pop(agent_id).ghost_ranks

    def untag_as_ghosted(self, ghost_rank, agent_id):
        gh = self._ghosted_agents[agent_id]
        ranks = gh.ghost_ranks
        ranks[ghost_rank] -= 1
        if ranks[ghost_rank] == 0:
            del ranks[ghost_rank]

    def remove_ghost(self, agent):
        if agent.uid not in self._req_ghosts:
            ghost_agent = self._ghost_agents[agent.uid]
            ghost_agent.ref_count -= 1
            if ghost_agent.ref_count == 0:
                del self._ghost_agents[agent.uid]

    def delete_ghost(self, agent_id):
        del self._ghost_agents[agent_id]
        self._req_ghosts.discard(agent_id)

    def add_ghost(self, ghosted_rank, agent, incr=1):
        uid = agent.uid
        agent.local_rank = ghosted_rank
        ghost_agent = GhostAgent(agent, incr)
        self._ghost_agents[uid] = ghost_agent

    def add_ghosts_to_projection(self, projection):
        for gh in self._ghost_agents.values():
            gh.ref_count += 1
            projection.add(gh.agent)

    def get_ghost(self, agent_uid, incr=1):
        val = self._ghost_agents.get(agent_uid, None)
        if val is not None:
            val.ref_count += incr
            return val.agent
        return None

@runtime_checkable
class SharedProjection(Protocol):

    def _pre_synch_ghosts(self, agent_manager):
        pass

    def _synch_ghosts(self, agent_manager, create_agent):
        pass

    def _agent_moving_rank(self, moving_agent, dest_rank, moving_agent_data, agent_manager):
        pass

    def _agents_moved_rank(self, moved_agents, agent_manager):
        pass

    def _post_agents_moved_rank(self, agent_manager, create_agent):
        pass

@runtime_checkable
class BoundedProjection(Protocol):

    def _get_oob(self):
        pass

    def _clear_oob(self):
        pass

    def _move_oob_agent(self, agent, location):
        pass
