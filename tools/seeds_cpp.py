"""Planted changes in the native modules."""
from tools_seeds_common import P, AG

NP = AG + '''
import numpy as np
BB = space.BoundingBox
'''

SEEDS = [
    dict(id='p17-move-back-inside', property='P17', ranks=2, timeout=60,
         edits=[(P + 'distributed_space.h', """        eraseOOB(agent->aid);
        if (!local_bounds.contains(pt)) {
            // what rank""", """        if (!local_bounds.contains(pt)) {
            eraseOOB(agent->aid);
            // what rank""")],
         needs='an agent that moves off its rank and back again before the next synchronization',
         breaks='the record that the agent left stays when it comes back, so it is sent to a rank whose bounds do not contain it',
         demo=NP + '''
def main():
    ctx = context.SharedContext(comm)
    g = space.SharedGrid('g', bounds=BB(0, 20, 0, 10, 0, 0), borders=space.BorderType.Sticky,
                         occupancy=space.OccupancyType.Multiple, buffer_size=1, comm=comm)
    ctx.add_projection(g)
    a = A(0, 0, rank)
    ctx.add(a)
    b = g.get_local_bounds()
    home = DPt(b.xmin + 5, b.ymin + 3, 0)
    g.move(a, home)
    ctx.synchronize(make)
    away = DPt((b.xmin + 15) % 20, 3, 0)
    g.move(a, away)
    g.move(a, home)
    ctx.synchronize(make)
    assert ctx.agent(a.uid) is a and a.local_rank == rank
    assert [x.uid for x in ctx.agents()] == [a.uid], [x.uid for x in ctx.agents()]
'''),
    dict(id='p18-deep-box', property='P18', ranks=1, timeout=60,
         edits=[(P + 'SpatialTree.h', """    CompositeNode<BoxType, PointType, AccessorType>::children.push_back(std::make_shared<ComponentNode<BoxType, PointType, AccessorType>>(pt6, half_x, half_y, half_z));""",
                 """    CompositeNode<BoxType, PointType, AccessorType>::children.push_back(std::make_shared<ComponentNode<BoxType, PointType, AccessorType>>(pt6, half_x, half_y, half_y));""")],
         needs='a three dimensional space deeper than it is high, more agents in a leaf than the tree threshold, a query that reaches the far end of it',
         breaks='one child of a split node is as deep as it is high, so a query skips agents in the rest of it',
         demo=NP + '''
def main():
    cs = space.ContinuousSpace('s', BB(0, 10, 0, 10, 0, 100), space.BorderType.Sticky,
                               space.OccupancyType.Multiple, 4)
    ags = []
    i = 0
    for x in range(1, 10, 2):
        for z in range(1, 100, 3):
            a = A(i, 0, 0)
            i += 1
            cs.add(a)
            p = (x + .5, (x * z) % 10 + .25, z + .5)
            cs.move(a, CPt(*p))
            ags.append((a, p))
    for b in ((0, 5, 0, 10, 70, 25), (0, 10, 0, 10, 60, 40), (5, 5, 0, 4, 70, 29), (0, 10, 0, 10, 0, 100)):
        got = sorted(x.uid for x in cs.get_agents_within(BB(*b)))
        want = sorted(a.uid for a, p in ags if all(b[2 * k] <= p[k] <= b[2 * k] + b[2 * k + 1] for k in range(3)))
        assert got == want, (b, len(got), len(want))
'''),
    dict(id='p16-strip-of-one', property='P16', ranks=8, timeout=90,
         edits=[(P + 'distributed_space.cpp', """        zmin = local_bounds.zmax_ - buffer_size;
        zmax = zmin + buffer_size;""", """        zmin = local_bounds.zmax_ - buffer_size;
        zmax = zmin + 1;""")],
         needs='a three dimensional grid over ranks that are next to each other along z, a buffer of more than one',
         breaks='the strip sent to the neighbor above has depth one whatever the buffer size, and starts at the far end of the buffer',
         demo=NP + '''
def main():
    ctx = context.SharedContext(comm)
    g = space.SharedGrid('g', bounds=BB(0, 12, 0, 12, 0, 12), borders=space.BorderType.Sticky,
                         occupancy=space.OccupancyType.Multiple, buffer_size=2, comm=comm)
    ctx.add_projection(g)
    b = g.get_local_bounds()
    i = 0
    for z in range(b.zmin, b.zmin + b.zextent):
        a = A(i, 0, rank, (b.xmin + 1, b.ymin + 1, z))
        i += 1
        ctx.add(a)
        g.move(a, DPt(b.xmin + 1, b.ymin + 1, z))
    ctx.synchronize(make)
    # the rank above or below along z with the same x and y
    zs = range(b.zmin - 2, b.zmin) if b.zmin > 0 else range(b.zmin + b.zextent, b.zmin + b.zextent + 2)
    for z in zs:
        x = g.get_agent(DPt(b.xmin + 1, b.ymin + 1, z))
        assert x is not None, (rank, z)
        assert tuple(x.v) == (b.xmin + 1, b.ymin + 1, z)
'''),
    dict(id='p14-sticky-depth', property='P14', ranks=1, timeout=60,
         edits=[(P + 'borders.h', """    t_data[2] = std::max((coord_type)bounds_.zmin_, std::min((coord_type)bounds_.zmax_ - Offset<PointType>::value, data[2]));""",
                 """    t_data[2] = std::max((coord_type)bounds_.zmin_, std::min((coord_type)bounds_.zmax_ - Offset<PointType>::value, std::abs(data[2])));""")],
         needs='a three dimensional space with sticky borders, a move to below its floor',
         breaks='a point below the floor is mirrored into the space instead of stopping at the border',
         demo=NP + '''
def main():
    g = space.Grid('g', BB(0, 10, 0, 10, 0, 10), space.BorderType.Sticky, space.OccupancyType.Multiple)
    a = A(0, 0, 0)
    g.add(a)
    p = g.move(a, DPt(2, 2, -4))
    assert p.coordinates.tolist() == [2, 2, 0], p
    assert g.get_location(a).coordinates.tolist() == [2, 2, 0]
'''),
    dict(id='p28-order-without-rank', property='P28', ranks=1, timeout=60,
         edits=[(P + 'core.h', """        return a1->rank < a2->rank;
    }
};""", """        return false;
    }
};""")],
         needs='two agents with the same id and type that started on different ranks',
         breaks='agents are told apart by id and type only, so the second of the two is taken for the first',
         demo=NP + '''
def main():
    g = space.Grid('g', BB(0, 10, 0, 10, 0, 0), space.BorderType.Sticky, space.OccupancyType.Multiple)
    a, b = A(4, 1, 0), A(4, 1, 1)
    assert g.add(a)
    g.add(b)
    g.move(a, DPt(1, 1))
    g.move(b, DPt(7, 8))
    assert g.get_location(a).coordinates.tolist() == [1, 1, 0]
    assert g.get_location(b).coordinates.tolist() == [7, 8, 0]
    g.remove(a)
    assert g.contains(b) and not g.contains(a)
'''),
    dict(id='p15-second-of-remainder', property='P15', ranks=4, timeout=60,
         edits=[(P + 'distributed_space.cpp', """            (*min) += remainder - (remainder - coord);""", """            (*min) += remainder - 1;""")],
         needs='an extent that does not divide evenly over the ranks, with a remainder of at least three',
         breaks='the second of the ranks that take one cell more starts too far right: cells belong to no rank and others to two',
         demo=NP + '''
def main():
    g = space.SharedGrid('g', bounds=BB(0, 23, 0, 0, 0, 0), borders=space.BorderType.Sticky,
                         occupancy=space.OccupancyType.Multiple, buffer_size=1, comm=comm)
    b = g.get_local_bounds()
    al = sorted(comm.allgather((b.xmin, b.xextent)))
    at = 0
    for x, e in al:
        assert x == at, al
        at = x + e
    assert at == 23
'''),
    dict(id='p29-second-at-location', property='P29', ranks=1, timeout=60,
         edits=[(P + 'occupancy.h', """        location_map.emplace(pt, l);
    } else {
        iter->second->push_back(agent);
    }
    Py_INCREF(agent);
    return true;""", """        location_map.emplace(pt, l);
        Py_INCREF(agent);
    } else {
        iter->second->push_back(agent);
    }
    return true;""")],
         needs='more than one agent at a location',
         breaks='no reference is taken to the second agent at a location but one is given back when it leaves, so an object still in use is freed',
         demo=NP + '''
def main():
    g = space.Grid('g', BB(0, 10, 0, 10, 0, 0), space.BorderType.Sticky, space.OccupancyType.Multiple)
    a, b = A(1, 0, 0), A(2, 0, 0)
    g.add(a)
    g.add(b)
    g.move(a, DPt(1, 1))
    g.move(b, DPt(3, 1))
    n = sys.getrefcount(b)
    g.move(b, DPt(1, 1))
    assert sys.getrefcount(b) == n, (sys.getrefcount(b), n)
'''),
    dict(id='p13-leaves-by-id', property='P13', ranks=1, timeout=60,
         edits=[(P + 'occupancy.h', """    auto agent_iter = std::find(iter->second->begin(), iter->second->end(), agent);
""", """    auto agent_iter = std::find_if(iter->second->begin(), iter->second->end(), [agent](R4Py_Agent* o) {
        return o->aid->id == agent->aid->id && o->aid->type == agent->aid->type;
    });
""")],
         needs='two agents with the same id and type from different ranks at one location, the one that came second leaves',
         breaks='the other agent is taken from the location',
         demo=NP + '''
def main():
    g = space.Grid('g', BB(0, 10, 0, 10, 0, 0), space.BorderType.Sticky, space.OccupancyType.Multiple)
    a, b = A(1, 0, 0), A(1, 0, 1)
    g.add(a)
    g.add(b)
    g.move(a, DPt(1, 1))
    g.move(b, DPt(1, 1))
    g.move(b, DPt(4, 4))
    assert [x.uid for x in g.get_agents(DPt(1, 1))] == [a.uid]
    assert [x.uid for x in g.get_agents(DPt(4, 4))] == [b.uid]
'''),
    dict(id='p15-offset-of-space', property='P15', ranks=4, timeout=60,
         edits=[(P + 'distributed_space.cpp', """        zmin = bounds_.zmin_ +  z_extent * coords[2];
""", """        zmin = bounds_.ymin_ +  z_extent * coords[2];
""")],
         needs='a three dimensional space whose y and z bounds do not start at the same value',
         breaks='the local bounds along z are measured from the start of the y axis, so no rank covers part of the space',
         demo=NP + '''
def main():
    g = space.SharedCSpace('g', bounds=BB(0, 20, -10, 20, 5, 30), borders=space.BorderType.Sticky,
                           occupancy=space.OccupancyType.Multiple, buffer_size=1, comm=comm, tree_threshold=10)
    b = g.get_local_bounds()
    zs = comm.allgather((b.zmin, b.zmin + b.zextent))
    assert min(z[0] for z in zs) == 5 and max(z[1] for z in zs) == 35, zs
'''),
    dict(id='p29-refused-agent', property='P29', ranks=1, timeout=60,
         edits=[(P + 'occupancy.h', """    auto iter = location_map.find(pt);
    if (iter == location_map.end()) {
        location_map.emplace(pt, agent);
        Py_INCREF(agent);
        return true;
    }
    return false;""", """    auto result = location_map.emplace(pt, agent);
    Py_INCREF(agent);
    return result.second;""")],
         needs='a space with single occupancy, a move to a location that is taken',
         breaks='a reference is taken for every refused move and never given back, so the agent is never freed',
         demo=NP + '''
def main():
    g = space.Grid('g', BB(0, 10, 0, 10, 0, 0), space.BorderType.Sticky, space.OccupancyType.Single)
    a, b = A(1, 0, 0), A(2, 0, 0)
    g.add(a)
    g.add(b)
    g.move(a, DPt(1, 1))
    g.move(b, DPt(3, 1))
    n = sys.getrefcount(b)
    for i in range(5):
        assert g.move(b, DPt(1, 1)) is None
    assert sys.getrefcount(b) == n, (sys.getrefcount(b), n)
'''),
]
# caught by existing tests, or do not show
SEEDS = [s for s in SEEDS if s['id'] not in ('p16-strip-of-one', 'p14-sticky-depth', 'p28-order-without-rank', 'p15-second-of-remainder', 'p29-second-at-location', 'p18-deep-box')]
