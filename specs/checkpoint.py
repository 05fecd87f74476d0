from typing import Union, Dict, Callable, Iterable
from dataclasses import dataclass, field
import warnings
import itertools
from mpi4py import MPI
from . import random
from . import schedule
from .core import Agent
from .context import SharedContext
from .network import SharedNetwork, DirectedSharedNetwork, UndirectedSharedNetwork
from .space import SharedCSpace, SharedGrid, DiscretePoint, ContinuousPoint
IGNORE_EVT: int = 0
'Return value indicating that a saved evt should be ignored\nwhen restoring the schedule.'
DEFAULT_TAG: str = '__default'
'The default tag in saved event metadata dictionaries'

@dataclass
class EvtData:
    at: float = 0.0
    order_idx: int = 0
    priority_type: schedule.PriorityType = schedule.PriorityType.RANDOM
    priority: float = 0.0
    interval: float = 0.0
    metadata: Dict = field(default_factory=dict)

class Checkpoint:

    def __init__(self):
        self.checkpoint_at: float = 0.0
        self.random_state = []
        self.schedule_state = {}
        self.agent_state = []
        self.other_state = {}
        self.networks = {}
        self.spaces = {}

    def save_random(self):
        state = random.default_rng.bit_generator.state
        self.random_state = [random.seed, state]

    def restore_random(self):
        random.seed = self.random_state[0]
        random.default_rng.bit_generator.state = self.random_state[1]

    def _to_evt_data(self, evt):
        evt_data = EvtData()
        meta = {}
        for k, v in evt.metadata.items():
            if isinstance(v, Callable):
                meta[k] = v(evt.evt)
            else:
                meta[k] = v
        evt_data.metadata = meta
        evt_data.at = evt.at
        evt_data.order_idx = evt.order_idx
        evt_data.priority_type = evt.priority_type
        evt_data.priority = evt.priority
        if meta['__type'] == schedule.EvtType.REPEATING:
            evt_data.interval = evt.interval
        return evt_data

    def save_agents(self, agents):
        for agent in agents:
            self.agent_state.append(agent.save())

    def restore_agents(self, restore_agent):
        for agent_state in self.agent_state:
            agent = restore_agent(agent_state)
            yield agent

    def save_schedule(self):
        runner = schedule.runner()
        ss = self.schedule_state
        ss['last_count'] = runner.schedule.last_count
        ss['tick'] = runner.schedule.tick
        evts = [self._to_evt_data(evt) for evt in runner.end_evts if evt.metadata['__type'] != schedule.EvtType.VOID]
        evts += [self._to_evt_data(item[2]) for item in runner.schedule.queue if item[2].metadata['__type'] != schedule.EvtType.VOID]
        ss['evts'] = evts

    def _schedule_evt(self, runner, evt_type, evt_data, evt):
        runner.schedule.counter = iter((evt_data.order_idx,))
        scheduled_evt = None
        if evt_type == schedule.EvtType.ONE_TIME:
            scheduled_evt = runner.schedule_event(evt_data.at, evt, priority_type=evt_data.priority_type, priority=evt_data.priority, metadata=evt_data.metadata)
        elif evt_type == schedule.EvtType.REPEATING:
            scheduled_evt = runner.schedule_repeating_event(evt_data.at, evt_data.interval, evt, priority_type=evt_data.priority_type, priority=evt_data.priority, metadata=evt_data.metadata)
        elif evt_type == schedule.EvtType.STOP:
            scheduled_evt = runner.schedule_stop(evt_data.at)
        elif evt_type == schedule.EvtType.END:
            scheduled_evt = runner.schedule_end_event(evt, metadata=evt_data.metadata)
        return scheduled_evt

    def restore_schedule(self, comm, evt_creator, evt_processor=lambda x, y: None, tag=DEFAULT_TAG, initialize=True, restore_stop_at=False):
        schedule_state = self.schedule_state
        if initialize:
            runner = schedule.init_schedule_runner(comm)
            runner.schedule.tick = schedule_state['tick']
        else:
            runner = schedule.runner()
        for evt_data in schedule_state['evts']:
            metadata = evt_data.metadata
            evt_tag = metadata.get('tag', DEFAULT_TAG)
            if evt_tag == tag:
                evt_type = metadata['__type']
                evt = None
                if evt_type != schedule.EvtType.STOP:
                    evt = evt_creator(metadata)
                    if evt is None:
                        warnings.warn(f'No callable evt returned for {metadata}')
                elif restore_stop_at:
                    if schedule_state['tick'] == evt_data.at:
                        warnings.warn(f'Scheduling stop at first tick {evt_data.at} in restored schedule')
                    evt = runner.stop
                else:
                    evt = IGNORE_EVT
                if evt != IGNORE_EVT:
                    scheduled_evt = self._schedule_evt(runner, evt_type, evt_data, evt)
                    evt_processor(metadata, scheduled_evt)
        last_count = schedule_state['last_count']
        runner.schedule.counter = itertools.count(last_count + 1)
        runner.schedule.last_count = last_count
        return runner

    def save(self, key, value):
        self.other_state[key] = value

    def restore(self, key, restorer, *args):
        return restorer(self.other_state[key], *args)

    def save_space(self, context, space):
        locations = {}
        for agent in context.agents():
            location = space.get_location(agent)
            locations[agent.uid] = None if location is None else location.coordinates.copy()
        self.spaces[space.name] = locations

    def restore_space(self, context, space):
        locations = self.spaces[space.name]
        if isinstance(space, SharedGrid):
            for agent in context.agents():
                location = locations[agent.uid]
                if location is not None:
                    space.move(agent, DiscretePoint(location[0], location[1], location[2]))
        else:
            for agent in context.agents():
                location = locations[agent.uid]
                if location is not None:
                    space.move(agent, ContinuousPoint(location[0], location[1], location[2]))

    def save_network(self, network, rank):
        data = []
        if network.is_directed:
            for nd in filter(lambda n: n.local_rank == rank, network.graph.nodes):
                edge_data = [nd.uid]
                edge_data.append([(o.uid, o.local_rank, dict(network.graph[nd][o])) for o in network.graph.successors(nd)])
                edge_data.append([(o.uid, o.local_rank, dict(network.graph[o][nd])) for o in network.graph.predecessors(nd)])
                data.append(edge_data)
        else:
            for nd in filter(lambda n: n.local_rank == rank, network.graph.nodes):
                edge_data = [nd.uid]
                edge_data.append([(n.uid, n.local_rank, dict(network.graph[nd][n])) for n in network.graph.neighbors(nd)])
                data.append(edge_data)
        net_data = {'name': network.name, 'directed': network.is_directed, 'data': data}
        self.networks[network.name] = net_data

    def restore_network(self, context, network, create_agent):
        requests = {}
        network_data = self.networks[network.name]
        restorers = []
        restorer = NetworkRestorer(context, network, network_data)
        restorer.restore(requests)
        restorers.append(restorer)
        requested_agents = context.request_agents([request for request in requests.values()], create_agent)
        for agent in requested_agents:
            requests[agent.uid] = agent
        for restorer in restorers:
            restorer.create_ghost_edges(requests)

class NetworkRestorer:

    def __init__(self, context, network, network_data):
        self.network = network
        self.network_save = network_data
        self.context = context
        self.ghost_edges = []

    def _make_suc_edge(self, node_uid, other_uid, e_attribs):
        return (0, node_uid, other_uid, e_attribs)

    def _make_pre_edge(self, node_uid, other_uid, e_attribs):
        return (1, other_uid, node_uid, e_attribs)

    def _add_suc_edge(self, node, other, e_attribs):
        self.network.add_edge(node, other, **e_attribs)

    def _add_pre_edge(self, node, other, e_attribs):
        self.network.add_edge(other, node, **e_attribs)

    def _add_edges(self, node, others, edge_tuple_maker, edge_adder):
        for other_uid, other_local_rank, e_attributes in others:
            other_node = self.context.agent(other_uid)
            if other_node is None:
                other_node = self.context.ghost_agent(other_uid)
            if other_node is None:
                self.requests[other_uid] = (other_uid, other_local_rank)
                self.ghost_edges.append(edge_tuple_maker(node.uid, other_uid, e_attributes))
            else:
                edge_adder(node, other_node, e_attributes)

    def create_ghost_edges(self, requests):
        for edge_t, u, v, e_attribs in self.ghost_edges:
            if edge_t == 0:
                self.network.add_edge(self.context.agent(u), requests[v], **e_attribs)
            else:
                self.network.add_edge(requests[u], self.context.agent(v), **e_attribs)

    def restore(self, requests):
        self.requests = requests
        edges = self.network_save['data']
        try:
            if self.network.is_directed:
                for node_uid, successors, predecessors in edges:
                    node = self.context.agent(node_uid)
                    self._add_edges(node, successors, self._make_suc_edge, self._add_suc_edge)
                    self._add_edges(node, predecessors, self._make_pre_edge, self._add_pre_edge)
            else:
                for node_uid, others in edges:
                    node = self.context.agent(node_uid)
                    self._add_edges(node, others, self._make_suc_edge, self._add_suc_edge)
        except KeyError:
            raise ValueError('Expected agent not found in context. Have agents been restored to the context?')
