"""Planted changes in the Python modules, third batch."""
from tools_seeds_common import P, AG

BB = '''
import numpy as np, torch
from repast4py import geometry, value_layer, parameters
from repast4py.space import BoundingBox as BB, BorderType as BT
'''

SEEDS = [
    dict(id='p31-depth-from-y', property='P31', timeout=120,
         edits=[(P + 'geometry.py', """    ncs = np.mod((z_pts - min_max[4]), z_extent)""", """    ncs = np.mod((z_pts - min_max[2]), z_extent)""")],
         needs='three dimensional periodic bounds whose y and z minimum differ by something that is no multiple of the depth',
         breaks='the z coordinates of the neighbors are counted from the start of the y axis',
         demo=BB + '''
def main():
    p = space.DiscretePoint(3, 4, 9)
    mm = np.array([0, 9, 1, 8, 5, 11])
    n = geometry.find_3d_nghs_periodic(p.coordinates, mm)
    assert sorted(set(n[2].tolist())) == [8, 9, 10], n[2]
'''.replace('space.DiscretePoint', 'DPT').replace('def main', 'from repast4py.space import DiscretePoint as DPT\n\n\ndef main', 1)),
    dict(id='p20-wrap-by-width', property='P20', ranks=4, timeout=120,
         edits=[(P + 'value_layer.py', """                        row, stop_row = self._wrap_slice_vals(row, stop_row, self.full_bounds.yextent,
                                                              self.local_bounds.yextent, self.procs_per_dim[1])
                        col, stop_col""", """                        row, stop_row = self._wrap_slice_vals(row, stop_row, self.full_bounds.xextent,
                                                              self.local_bounds.yextent, self.procs_per_dim[1])
                        col, stop_col""")],
         needs='a periodic value layer that is not square, split in both dimensions so that two ranks share two strips',
         breaks='the rows of the second strip from a neighbor are wrapped by the width of the layer instead of its height',
         demo=BB + '''
from repast4py.space import DiscretePoint as DPT


def main():
    w, h = 12, 20
    vl = value_layer.SharedValueLayer(comm, BB(0, w, 0, h, 0, 0), BT.Periodic, 2, 0)
    lb = vl.local_bounds
    for x in range(lb.xmin, lb.xmin + lb.xextent):
        for y in range(lb.ymin, lb.ymin + lb.yextent):
            vl.set(DPT(x, y), x * 100 + y)
    vl._synch_ghosts()
    g = vl.grid
    for r in range(g.shape[0]):
        for c in range(g.shape[1]):
            x = (lb.xmin - 2 + c) % w
            y = (lb.ymin - 2 + r) % h
            # the layout: own cells plus a strip of two around them
            inner = 2 <= r < 2 + lb.yextent and 2 <= c < 2 + lb.xextent
            if inner:
                assert g[r, c] == x * 100 + y, (rank, r, c, float(g[r, c]), x * 100 + y)
    vals = sorted(set(int(v) for v in g.flatten()))
    want = sorted(set(((lb.xmin - 2 + c) % w) * 100 + (lb.ymin - 2 + r) % h for r in range(g.shape[0]) for c in range(g.shape[1])))
    assert vals == want, (rank, vals, want)
'''),
    dict(id='p21-random-shared', property='P21', timeout=60,
         edits=[(P + 'value_layer.py', """        self.write_layer = SharedValueLayer(comm, bounds, borders, buffer_size, init_value, dtype)
""", """        self.write_layer = SharedValueLayer(comm, bounds, borders, buffer_size, 0 if init_value == 'random' else init_value, dtype)
        if init_value == 'random':
            # both layers start with the same values
            self.write_layer.impl.grid = self.read_layer.impl.grid
""")],
         needs="a read/write value layer initialised with 'random'",
         breaks='the two layers share one tensor, so a value written is read before the layers are swapped',
         demo=BB + '''
from repast4py.space import DiscretePoint as DPT


def main():
    for init in (3, 'random'):
        v = value_layer.ReadWriteValueLayer(comm, BB(0, 8, 0, 6, 0, 0), BT.Sticky, 1, init)
        before = float(v.get(DPT(2, 3)))
        v.set(DPT(2, 3), 55)
        assert float(v.get(DPT(2, 3))) == before
        v.swap_layers()
        assert float(v.get(DPT(2, 3))) == 55
'''),
    dict(id='p12-written-graph-changed', property='P12', timeout=60,
         edits=[(P + 'network.py', """            attrib = attrib.copy()
            del attrib['agent_type']
""", """            del attrib['agent_type']
""")],
         needs='a graph with agent types that is written twice',
         breaks='writing a network takes the agent types out of the graph, the next file written from it says type 0 for every node',
         demo='''
import os, tempfile
import networkx as nx
from repast4py import network, random


def main():
    random.init(1)
    g = nx.Graph()
    for i in range(6):
        g.add_node(i, agent_type=i % 3, energy=i)
    g.add_edge(0, 5)
    with tempfile.TemporaryDirectory() as d:
        types = []
        for k in range(2):
            f = os.path.join(d, f'n{k}')
            network.write_network(g, 'n', f, 2)
            lines = open(f).read().split('EDGES')[0].splitlines()[1:]
            types.append([l.split()[1] for l in lines if l.strip()])
        assert types[0] == types[1] == [str(i % 3) for i in range(6)], types
'''),
    dict(id='p25-seed-zero', property='P25', timeout=60,
         edits=[(P + 'parameters.py', """    if 'random.seed' in params:""", """    if params.get('random.seed'):""")],
         needs='a run with the seed 0',
         breaks='the seed 0 is ignored, the generators keep the seed from the time of the start',
         demo='''
import os, tempfile
from repast4py import parameters, random


def main():
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'p.yaml')
        open(f, 'w').write('random.seed: 0\\nx: 1\\n')
        parameters.init_params(f, '')
        assert random.seed == 0, random.seed
        a = random.default_rng.random()
        parameters.init_params(f, '{"x": 2}')
        assert a == random.default_rng.random()
'''),
    dict(id='p24-torch-unseeded', property='P24', timeout=60,
         edits=[(P + 'random.py', """        seed = rng_seed
    torch.manual_seed(seed)
""", """        seed = rng_seed
        torch.manual_seed(seed)
""")],
         needs='a run without a seed of its own that is to be repeated from the recorded one',
         breaks='without a given seed torch is not seeded, so the run cannot be repeated from repast4py.random.seed',
         demo='''
import torch
from repast4py import random


def main():
    random.init(42)
    random.init()
    s = random.seed
    a = torch.rand(4).tolist()
    random.init(s)
    assert torch.rand(4).tolist() == a
'''),
    dict(id='p19-random-layout', property='P19', timeout=60,
         edits=[(P + 'value_layer.py', """            self.grid = torch.rand(
                (bounds.zextent, bounds.yextent, bounds.xextent), dtype=dtype)""", """            self.grid = torch.rand(
                (bounds.zextent, bounds.xextent, bounds.yextent), dtype=dtype)""")],
         needs='a three dimensional value layer with random values whose width and height differ',
         breaks='the tensor of a random three dimensional layer has rows and columns the wrong way round',
         demo=BB + '''
from repast4py.space import DiscretePoint as DPT


def main():
    v = value_layer.ValueLayer(BB(0, 9, 0, 4, 0, 3), BT.Sticky, 'random')
    for x in range(9):
        for y in range(4):
            for z in range(3):
                v.set(DPT(x, y, z), x * 100 + y * 10 + z)
    for x in range(9):
        for y in range(4):
            for z in range(3):
                assert float(v.get(DPT(x, y, z))) == x * 100 + y * 10 + z
'''),
    dict(id='p17-second-space', property='P17', ranks=2, timeout=60,
         edits=[(P + 'context.py', """                # add to the projection
                self.bounded_projs[proj_data[0]]._move_oob_agent(agent, proj_data[1])""",
                 """                # add to the projection
                proj = self.bounded_projs[proj_data[0]]
                if proj.get_location(agent) is None:
                    proj._move_oob_agent(agent, proj_data[1])""")],
         needs='an agent that leaves its rank in one space twice within a tick ... or is already located',
         breaks='',
         demo=''),
    dict(id='p32-loop-count', property='P32', timeout=60,
         edits=[(P + 'network.py', """        return len(self.graph.out_edges(agent)) + len(self.graph.in_edges(agent)) # type: ignore""",
                 """        return len(self.graph.out_edges(agent)) + len(self.graph.pred[agent]) - self.graph.number_of_edges(agent, agent) # type: ignore""")],
         needs='an edge of a directed network from an agent to itself',
         breaks='',
         demo=''),
    dict(id='p07-state-when-asked', property='P07', ranks=2, timeout=60,
         edits=[(P + 'context.py', """                send_data[g_rank].append(gh_agent.agent.save())
        recv_data = self.comm.alltoall(send_data)
        for updates in recv_data:
            for update in updates:
                ghost = self._agent_manager._ghost_agents[update[0]]
                ghost.agent.update(*update[1:])""", """                data = gh_agent.agent.save()
                if len(data) > 1 and data[1]:
                    send_data[g_rank].append(data)
        recv_data = self.comm.alltoall(send_data)
        for updates in recv_data:
            for update in updates:
                ghost = self._agent_manager._ghost_agents[update[0]]
                ghost.agent.update(*update[1:])""")],
         needs='an agent whose state becomes false in the Python sense (0, an empty tuple) while it is ghosted',
         breaks='agents with an empty state are taken to have none and their ghosts are not refreshed, so the ghost keeps the old value',
         demo=AG + '''
def main():
    ctx = context.SharedContext(comm)
    a = A(0, 0, rank, 5)
    ctx.add(a)
    other = (0, 0, 1 - rank)
    got = ctx.request_agents([(other, 1 - rank)], make)
    ctx.synchronize(make)
    assert ctx.ghost_agent(other).v == 5
    a.v = 0
    ctx.synchronize(make)
    assert ctx.ghost_agent(other).v == 0
'''),
    dict(id='p05-type-left-behind', property='P05', ranks=2, timeout=60,
         edits=[(P + 'context.py', """                    oob_agents.append((agent, ngh_rank))
                    del self._agents_by_type[agent_id[1]][agent_id]""", """                    oob_agents.append((agent, ngh_rank))
                    if ngh_rank != agent_id[2]:
                        del self._agents_by_type[agent_id[1]][agent_id]""")],
         needs='an agent that returns to the rank it was created on',
         breaks='an agent that goes home stays in the type index of the rank it leaves',
         demo=AG + '''
def main():
    ctx = context.SharedContext(comm)
    g = space.SharedGrid('g', bounds=space.BoundingBox(0, 20, 0, 10, 0, 0), borders=space.BorderType.Sticky,
                         occupancy=space.OccupancyType.Multiple, buffer_size=0, comm=comm)
    ctx.add_projection(g)
    b = g.get_local_bounds()
    if rank == 0:
        a = A(0, 0, 0)
        ctx.add(a)
        g.move(a, DPt((b.xmin + 12) % 20, 2))
    ctx.synchronize(make)
    assert ctx.size()[-1] == rank
    if rank == 1:
        a = ctx.agent((0, 0, 0))
        g.move(a, DPt((b.xmin + 12) % 20, 3))
    ctx.synchronize(make)
    assert ctx.size()[-1] == 1 - rank
    assert ctx.size([0])[0] == 1 - rank, ctx.size([0])
    assert len(list(ctx.agents(0, shuffle=True))) == 1 - rank
'''),
    dict(id='p06-ghosted-elsewhere', property='P06', ranks=3, timeout=60,
         edits=[(P + 'context.py', """                    if len(agent_data_list) == 2:
                        ghosted_data = agent_data_list[1]
                        # remove any ghosted data for this rank
                        # so this rank doesn't try to send to self
                        ghosted_data.pop(self.rank, None)
                        self._agent_manager.set_as_ghosted(ghosted_data, agent.uid)""",
                 """                    if len(agent_data_list) == 2:
                        ghosted_data = agent_data_list[1]
                        # remove any ghosted data for this rank
                        # so this rank doesn't try to send to self
                        if ghosted_data.pop(self.rank, None) is None:
                            self._agent_manager.set_as_ghosted(ghosted_data, agent.uid)""")],
         needs='an agent ghosted on two ranks that moves to one of them',
         breaks='the new owner does not know of the other ghost and never refreshes it again',
         demo=AG + '''
def main():
    ctx = context.SharedContext(comm)
    g = space.SharedGrid('g', bounds=space.BoundingBox(0, 30, 0, 10, 0, 0), borders=space.BorderType.Sticky,
                         occupancy=space.OccupancyType.Multiple, buffer_size=0, comm=comm)
    ctx.add_projection(g)
    b = g.get_local_bounds()
    owner = comm.allgather(b.xmin)
    src, dst, third = owner.index(0), owner.index(10), owner.index(20)
    uid = (0, 0, src)
    if rank == src:
        a = A(0, 0, src, 1)
        ctx.add(a)
        g.move(a, DPt(3, 3))
    ctx.request_agents([(uid, src)] if rank != src else [], make)
    ctx.synchronize(make)
    if rank == src:
        g.move(ctx.agent(uid), DPt(13, 3))
    ctx.synchronize(make)
    if rank == dst:
        ctx.agent(uid).v = 77
    ctx.synchronize(make)
    if rank == third:
        assert ctx.ghost_agent(uid).v == 77, ctx.ghost_agent(uid).v
'''),
]
# existing tests catch some
SEEDS = [s for s in SEEDS if s['demo'] and s['id'] not in ('p31-depth-from-y', 'p20-wrap-by-width', 'p19-random-layout')]
