"""Planted changes in the Python modules, second batch."""
from tools_seeds_common import P, AG

SEEDS = [
    dict(id='p11-shared-iterator', property='P11', ranks=2, timeout=60,
         edits=[(P + 'context.py', """            for proj in projs:
                proj._agents_moved_rank(itertools.chain(*all_moved_agents), self._agent_manager)""",
                 """            moved = itertools.chain(*all_moved_agents)
            for proj in projs:
                proj._agents_moved_rank(moved, self._agent_manager)""")],
         needs='two networks in the context; an agent with edges in the second one moves',
         breaks='the moved agents are an iterator only the first projection gets to see, so the edges in the other networks still end at the stale ghost',
         demo=AG + '''
def main():
    ctx = context.SharedContext(comm)
    n1 = network.UndirectedSharedNetwork('n1', comm)
    n2 = network.UndirectedSharedNetwork('n2', comm)
    ctx.add_projection(n1)
    ctx.add_projection(n2)
    a, b = A(0, 0, rank), A(1, 0, rank)
    ctx.add(a)
    ctx.add(b)
    other = (1, 0, 1 - rank)
    got = ctx.request_agents([(other, 1 - rank)] if rank == 0 else [], make)
    if rank == 0:
        n2.add_edge(a, got[0], w=3)
    ctx.synchronize(make)
    ctx.move_agents([(a.uid, 1)] if rank == 0 else [], make)
    if rank == 1:
        m = ctx.agent((0, 0, 0))
        assert m is not None
        es = [(u.uid, v.uid) for u, v in n2.graph.edges(b)]
        assert n2.graph.has_edge(b, m), es
        for n in n2.graph.nodes:
            if n.uid == m.uid:
                assert n is m, 'stale copy of the agent in the network'
'''),
    dict(id='p01-any-moved-order', property='P01', ranks=2, timeout=40,
         edits=[(P + 'context.py', """        any_moved = not is_empty(all_moved_agents)
        # replace agents""", """        # replace agents"""), (P + 'context.py', """        all_moved_agents[self.rank] = []
""", """        all_moved_agents[self.rank] = []
        any_moved = not is_empty(all_moved_agents)
""")],
         needs='agents leaving the local bounds of exactly one rank',
         breaks='the only rank that moved agents believes nothing moved and skips the collective steps that follow',
         demo=AG + '''
def main():
    ctx = context.SharedContext(comm)
    box = space.BoundingBox(0, 20, 0, 10)
    g = space.SharedGrid('g', box, space.BorderType.Sticky, space.OccupancyType.Multiple, 1, comm)
    n = network.UndirectedSharedNetwork('n', comm)
    ctx.add_projection(g)
    ctx.add_projection(n)
    a = A(0, 0, rank)
    ctx.add(a)
    g.move(a, DPt(5 + 10 * rank, 5))
    ctx.synchronize(make)
    if rank == 1:
        g.move(a, DPt(2, 2))
    ctx.synchronize(make)
    ctx.synchronize(make)
    assert ctx.size()[-1] == (2 if rank == 0 else 0)
'''),
    dict(id='p01-request-when-needed', property='P01', ranks=2, timeout=40,
         edits=[(P + 'network.py', """    requested_agents = ctx.request_agents(graph_data.requested_agents, create_agent)
    for agent in requested_agents:""", """    if len(graph_data.requested_agents) == 0:
        return
    requested_agents = ctx.request_agents(graph_data.requested_agents, create_agent)
    for agent in requested_agents:""")],
         needs='a network file in which some rank has no edge to an agent of another rank while other ranks have',
         breaks='ranks without remote neighbours do not take part in the exchange the others are waiting in',
         demo=AG + '''
def main():
    import tempfile, os
    d = comm.bcast(tempfile.mkdtemp() if rank == 0 else None, root=0)
    f = os.path.join(d, 'net.txt')
    if rank == 0:
        with open(f, 'w') as out:
            out.write('n 0\\n0 0 0\\n1 0 1\\n2 0 1\\nEDGES\\n1 2\\n')
    comm.Barrier()
    ctx = context.SharedContext(comm)
    ids = []
    network.read_network(f, ctx, lambda i, t, r, **k: A(i, t, r), make)
    # all of rank 1 edges are local: now one that is not, held by rank 1 only
    comm.Barrier()
    if rank == 0:
        with open(f, 'w') as out:
            out.write('m 1\\n5 0 0\\n6 0 1\\nEDGES\\n5 5\\n')
    comm.Barrier()
    network.read_network(f, ctx, lambda i, t, r, **k: A(i, t, r), make)
    assert ctx.get_projection('m').edge_count == (1 if rank == 0 else 0)
    # three nodes, one of which stays on its own rank
    calls = []
    orig = ctx.request_agents

    def counted(reqs, create):
        calls.append(len(reqs))
        return orig(reqs, create)
    ctx.request_agents = counted
    if rank == 0:
        with open(f, 'w') as out:
            out.write('k 1\\n7 0 0\\n8 0 1\\nEDGES\\n7 7\\n8 8\\n')
    comm.Barrier()
    network.read_network(f, ctx, lambda i, t, r, **k: A(i, t, r), make)
    all_calls = comm.allgather(len(calls))
    if rank == 0:
        os.remove(f)
        os.rmdir(d)
    assert all_calls == [1] * comm.size, all_calls
'''),
    dict(id='p01-tabular-close', property='P01', ranks=2, timeout=40,
         edits=[(P + 'logging.py', """        \"\"\"Closes this TabularLogger, writing any rows of
        data to the file.
        \"\"\"
        self.write()""", """        \"\"\"Closes this TabularLogger, writing any rows of
        data to the file.
        \"\"\"
        if len(self._rows) > 0:
            self.write()""")],
         needs='a tabular logger closed when one rank has logged rows since the last write and another has not',
         breaks='the rank without rows does not take part in the gather',
         demo=AG + '''
def main():
    import tempfile, os
    from repast4py import logging as lg
    d = comm.bcast(tempfile.mkdtemp() if rank == 0 else None, root=0)
    f = os.path.join(d, 't.csv')
    lo = lg.TabularLogger(comm, f, ['a', 'b'])
    if rank == 1:
        lo.log_row(1, 2)
    lo.close()
    comm.Barrier()
    if rank == 0:
        txt = open(f).read().split()
        os.remove(f)
        os.rmdir(d)
        assert txt == ['a,b', '1,2'], txt
'''),
    dict(id='p08-ghost-of-moved-agent', property='P08', ranks=2, timeout=60,
         edits=[(P + 'network.py', """                agent_manager.add_ghost(dest_rank, moving_agent, incr=0)""",
                 """                agent_manager.add_ghost(dest_rank, moving_agent)""")],
         needs='an agent moves to another rank and leaves an edge to a local agent behind, and that edge is removed later',
         breaks='the ghost the agent leaves behind is counted once too often and never disappears',
         demo=AG + '''
def main():
    ctx = context.SharedContext(comm)
    n1 = network.UndirectedSharedNetwork('n1', comm)
    ctx.add_projection(n1)
    a, b = A(0, 0, rank), A(1, 0, rank)
    ctx.add(a)
    ctx.add(b)
    if rank == 0:
        n1.add_edge(a, b)
    ctx.synchronize(make)
    ctx.move_agents([(a.uid, 1)] if rank == 0 else [], make)
    if rank == 0:
        g = ctx.ghost_agent((0, 0, 0))
        assert g is not None and n1.graph.has_edge(g, b)
    else:
        a = ctx.agent((0, 0, 0))
        g = ctx.ghost_agent((1, 0, 0))
        assert g is not None
        n1.remove_edge(a, g)
    ctx.synchronize(make)
    ctx.synchronize(make)
    if rank == 0:
        assert ctx.ghost_agent((0, 0, 0)) is None, 'ghost is still there'
'''),
    dict(id='p23-second-growth', property='P23',
         edits=[(P + 'logging.py', """        if self._idx == self._data.shape[0]:""", """        if self._idx == ReducingDataLogger._ARRAY_SIZE:""")],
         needs='more than twice the initial array size of values logged before a reduction',
         breaks='the log does not grow a second time: the value is lost',
         demo=AG + '''
def main():
    from dataclasses import dataclass
    from repast4py import logging as lg

    @dataclass
    class D:
        x: int = 0
    d = D()
    lo = lg.create_loggers(d, MPI.SUM, rank)[0]
    n = 2600
    for i in range(n):
        d.x = i + 1
        lo.log()
    r = lo.reduce(comm)
    assert list(r) == list(range(1, n + 1)), r[:5]
'''),
    dict(id='p17-second-projection', property='P17', ranks=2, timeout=60,
         edits=[(P + 'context.py', """                    # add to the projection
                self.bounded_projs[proj_data[0]]._move_oob_agent(agent, proj_data[1])""",
                 """                    # add to the projection
                    self.bounded_projs[proj_data[0]]._move_oob_agent(agent, proj_data[1])""")],
         needs='an agent in a grid and in a continuous space leaves the local bounds of both towards the same rank',
         breaks='the agent arrives without a location in the second space',
         demo=AG + '''
def main():
    ctx = context.SharedContext(comm)
    box = space.BoundingBox(0, 20, 0, 10)
    g = space.SharedGrid('g', box, space.BorderType.Sticky, space.OccupancyType.Multiple, 1, comm)
    s = space.SharedCSpace('s', box, space.BorderType.Sticky, space.OccupancyType.Multiple, 1, comm, 10)
    ctx.add_projection(g)
    ctx.add_projection(s)
    a = A(0, 0, rank)
    ctx.add(a)
    g.move(a, DPt(5 + 10 * rank, 5))
    s.move(a, CPt(5.5 + 10 * rank, 5.5))
    if rank == 0:
        g.move(a, DPt(15, 2))
        s.move(a, CPt(16.5, 3.5))
    ctx.synchronize(make)
    if rank == 1:
        m = ctx.agent((0, 0, 0))
        assert m is not None
        p, q = g.get_location(m), s.get_location(m)
        assert (p.x, p.y) == (15, 2)
        assert q is not None and (q.x, q.y) == (16.5, 3.5), q
'''),
    dict(id='p26-metadata-evaluated-in-place', property='P26',
         edits=[(P + 'checkpoint.py', """        meta = {}
        for k, v in evt.metadata.items():""", """        meta = evt.metadata
        for k, v in list(meta.items()):""")],
         needs='an event whose metadata has a callable, saved by two checkpoints between which the value it gives changes',
         breaks='saving replaces the callable in the live event by its value, so later checkpoints save the old one',
         demo=AG + '''
def main():
    from repast4py.checkpoint import Checkpoint
    r = schedule.init_schedule_runner(comm)
    n = [1]
    r.schedule_event(5, lambda: None, metadata={'n': lambda evt: n[0]})
    c = Checkpoint()
    c.save_schedule()
    assert c.schedule_state['evts'][0].metadata['n'] == 1
    n[0] = 2
    c2 = Checkpoint()
    c2.save_schedule()
    assert c2.schedule_state['evts'][0].metadata['n'] == 2, c2.schedule_state['evts'][0].metadata
    assert c.schedule_state['evts'][0].metadata['n'] == 1
'''),
    dict(id='p27-request-from-birth-rank', property='P27', ranks=2, timeout=60,
         edits=[(P + 'checkpoint.py', """                self.requests[other_uid] = (other_uid, other_local_rank)""",
                 """                self.requests[other_uid] = (other_uid, other_uid[2])""")],
         needs='an agent that lives on another rank than the one it was created on has an edge to an agent of a third one',
         breaks='the ghost for the edge is requested from the rank where the agent was created, which does not have it',
         demo=AG + '''
def main():
    from repast4py.checkpoint import Checkpoint

    def build():
        ctx = context.SharedContext(comm)
        net = network.UndirectedSharedNetwork('n', comm)
        ctx.add_projection(net)
        return ctx, net
    ctx, net = build()
    # created for rank 1, lives on rank 0, and the other way around
    a = A(0, 0, 1 - rank)
    ctx.add(a)
    other = (0, 0, rank)
    got = ctx.request_agents([(other, 1 - rank)] if rank == 0 else [], make)
    if rank == 0:
        net.add_edge(a, got[0], w=4)
    ctx.synchronize(make)
    c = Checkpoint()
    c.save_agents(ctx.agents())
    c.save_network(net, rank)
    ctx2, net2 = build()
    for x in c.restore_agents(make):
        ctx2.add(x)
    c.restore_network(ctx2, net2, make)
    ctx2.synchronize(make)
    assert net2.edge_count == 1, net2.edge_count
    assert [d for _, _, d in net2.graph.edges(data=True)] == [{'w': 4}]
'''),
    dict(id='p25-seed-of-file', property='P25',
         edits=[(P + 'parameters.py', """        params = yaml.load(f_in, Loader=yaml.SafeLoader)
    if parameters != '':
        params.update(json.loads(parameters))

    if 'random.seed' in params:
        random.init(params['random.seed'])
""", """        params = yaml.load(f_in, Loader=yaml.SafeLoader)
    if 'random.seed' in params:
        random.init(params['random.seed'])

    if parameters != '':
        params.update(json.loads(parameters))
""")],
         needs='a seed in the parameter file and another one on the command line',
         breaks='the generators are seeded with the value of the file although the parameters hold the other one',
         demo=AG + '''
def main():
    import tempfile, os
    import numpy as np
    from repast4py import parameters
    fd, f = tempfile.mkstemp(suffix='.yaml')
    os.write(fd, b'random.seed: 3\\nx: 1\\n')
    os.close(fd)
    p = parameters.init_params(f, '{"random.seed": 11}')
    os.remove(f)
    assert p['random.seed'] == 11
    assert random.seed == 11, random.seed
    assert random.default_rng.random() == np.random.default_rng(11).random()
'''),
    dict(id='p24-generator-bound-early', property='P24',
         edits=[(P + 'context.py', """from repast4py import random
""", """from repast4py.random import default_rng
"""), (P + 'context.py', """                random.default_rng.shuffle(lst)""", """                default_rng.shuffle(lst)""")],
         needs='the generators are initialised again with a seed after the module has been imported',
         breaks='shuffling uses the generator that existed at import time, which the seed does not control',
         demo=AG + '''
def main():
    ctx = context.SharedContext(comm)
    for i in range(30):
        ctx.add(A(i, 0, rank))
    out = []
    for _ in range(2):
        random.init(42)
        out.append([a.id for a in ctx.agents(shuffle=True)])
    assert out[0] == out[1]
'''),
    dict(id='p05-name-identity', property='P05',
         edits=[(P + 'context.py', """            if projection.name == prj.name: # type: ignore""", """            if projection.name is prj.name: # type: ignore""")],
         needs='two projections whose equal names are two string objects',
         breaks='the second projection with the same name is accepted',
         demo=AG + '''
def main():
    ctx = context.SharedContext(comm)
    ctx.add_projection(network.UndirectedSharedNetwork('friends', comm))
    try:
        ctx.add_projection(network.DirectedSharedNetwork(''.join(['fri', 'ends']), comm))
    except ValueError:
        return
    raise AssertionError('second projection of that name accepted')
'''),
    dict(id='p07-update-unpacked', property='P07', ranks=2, timeout=60,
         edits=[(P + 'context.py', """                ghost.agent.update(*update[1:])""", """                ghost.agent.update(update[1])""")],
         needs='an agent type that saves more than one state element and is updated as a ghost',
         breaks='only the first element of the saved state reaches the ghosts',
         demo=AG + '''
class B(core.Agent):
    def __init__(self, id, type, rank, v=0, w=0):
        super().__init__(id, type, rank)
        self.v, self.w = v, w

    def save(self):
        return (self.uid, self.v, self.w)

    def update(self, v, w=None):
        self.v = v
        if w is not None:
            self.w = w


def main():
    ctx = context.SharedContext(comm)
    a = B(0, 0, rank, 1, 2)
    ctx.add(a)
    mk = lambda d: B(d[0][0], d[0][1], d[0][2], d[1], d[2])
    g = ctx.request_agents([((0, 0, 1 - rank), 1 - rank)], mk)[0]
    a.v, a.w = 5, 6
    ctx.synchronize(mk)
    assert (g.v, g.w) == (5, 6), (g.v, g.w)
'''),
    dict(id='p06-tag-for-own-rank', property='P06', ranks=2, timeout=60,
         edits=[(P + 'context.py', """                        # remove any ghosted data for this rank
                        # so this rank doesn't try to send to self
                        ghosted_data.pop(self.rank, None)
""", """""")],
         needs='an agent ghosted on the rank that it moves to by leaving its local bounds',
         breaks='the new owner believes that it holds a ghost of its own agent and sends updates to itself',
         demo=AG + '''
def main():
    ctx = context.SharedContext(comm)
    box = space.BoundingBox(0, 20, 0, 10)
    g = space.SharedGrid('g', box, space.BorderType.Sticky, space.OccupancyType.Multiple, 0, comm)
    ctx.add_projection(g)
    a = A(0, 0, rank)
    ctx.add(a)
    g.move(a, DPt(5 + 10 * rank, 5))
    ctx.request_agents([((0, 0, 0), 0)] if rank == 1 else [], make)
    ctx.synchronize(make)
    if rank == 0:
        g.move(a, DPt(15, 2))
    ctx.synchronize(make)
    ctx.synchronize(make)
    if rank == 1:
        assert ctx.agent((0, 0, 0)) is not None and ctx.ghost_agent((0, 0, 0)) is None
'''),
    dict(id='p22-suffix', property='P22', ranks=1,
         edits=[(P + 'util.py', None, None)], needs='', breaks='', demo=''),
]
SEEDS = [s for s in SEEDS if s['demo']]
