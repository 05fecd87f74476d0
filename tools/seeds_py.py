"""Planted changes in the Python modules."""
from tools_seeds_common import P, AG

SEEDS = [
    dict(id='p02-stop-tick', property='P02', ranks=2, timeout=40,
         edits=[(P + 'schedule.py', """        sch_evt = self.schedule.schedule_event(at, evt, priority_type, priority, metadata)
        self.next_tick = self.schedule.next_tick()
        return sch_evt""", """        sch_evt = self.schedule.schedule_event(at, evt, priority_type, priority, metadata)
        if self.next_tick < 0:
            self.next_tick = self.schedule.next_tick()
        return sch_evt""")],
         needs='two ranks; on one of them an event is scheduled before execution starts for a tick earlier than one scheduled before, and nothing is scheduled after it',
         breaks='the rank announces a later next tick than its queue holds, so it runs the event after the other ranks went past that tick',
         demo=AG + '''
def main():
    import tempfile, os
    r = schedule.init_schedule_runner(comm)
    d = comm.bcast(tempfile.mkdtemp() if rank == 0 else None, root=0)
    f = os.path.join(d, 'order')

    def note():
        with open(f, 'a') as out:
            out.write(f'{r.tick()}\\n')
    r.schedule_stop(9)
    if rank == 0:
        r.schedule_event(7, note)
        r.schedule_event(3, note)
    else:
        for t in (1, 2, 4, 5):
            r.schedule_event(t, note)
    r.execute()
    comm.Barrier()
    if rank == 0:
        got = [float(x) for x in open(f)]
        os.remove(f)
        os.rmdir(d)
        assert got == sorted(got), got
'''),
    dict(id='p04-shared-metadata', property='P04',
         edits=[(P + 'schedule.py', """        _metadata = {'__type': EvtType.ONE_TIME}
        _metadata.update(metadata)
        super().__init__(at, evt, priority_type, priority, _metadata)""", """        metadata.setdefault('__type', EvtType.ONE_TIME)
        super().__init__(at, evt, priority_type, priority, metadata)""")],
         needs='several one-time events scheduled without metadata (or with the same dictionary), one of which is voided before the schedule is saved',
         breaks='all such events share one metadata dictionary: voiding one marks every one of them as void',
         demo=AG + '''
def main():
    from repast4py.checkpoint import Checkpoint
    r = schedule.init_schedule_runner(comm)
    a = r.schedule_event(3, lambda: None)
    b = r.schedule_event(4, lambda: None)
    a.void()
    assert a.metadata['__type'] == schedule.EvtType.VOID
    assert b.metadata['__type'] == schedule.EvtType.ONE_TIME, b.metadata
    c = Checkpoint()
    c.save_schedule()
    assert [e.at for e in c.schedule_state['evts']] == [4]
'''),
    dict(id='p10-update-second-endpoint', property='P10', ranks=2,
         edits=[(P + 'network.py', """           (u_agent.local_rank != self.rank and v_agent.local_rank == self.rank):
            self.edges_to_update.add(edge_key)""", """           (u_agent.local_rank != self.rank and v_agent.local_rank == u_agent.local_rank):
            self.edges_to_update.add(edge_key)""")],
         needs='update_edge on an edge whose first endpoint is the ghost',
         breaks='the new attribute value never reaches the other rank',
         demo=AG + '''
def main():
    for cls in (network.DirectedSharedNetwork, network.UndirectedSharedNetwork):
        ctx = context.SharedContext(comm)
        net = cls('n', comm)
        ctx.add_projection(net)
        a = A(0, 0, rank)
        ctx.add(a)
        other = (0, 0, 1 - rank)
        got = ctx.request_agents([(other, 1 - rank)] if rank == 0 else [], make)
        if rank == 0:
            net.add_edge(got[0], a, weight=1)
        ctx.synchronize(make)
        if rank == 0:
            net.update_edge(got[0], a, weight=9)
        ctx.synchronize(make)
        g = ctx.ghost_agent(other)
        e = (g, a) if rank == 0 else (a, g)
        assert net.graph.edges[e]['weight'] == 9, (rank, dict(net.graph.edges[e]))
'''),
    dict(id='p30-count-zero', property='P30',
         edits=[(P + 'context.py', """        if shuffle or count is not None:""", """        if shuffle or count:""")],
         needs='agents() called with a count of 0',
         breaks='every agent is returned although none was asked for',
         demo=AG + '''
def main():
    ctx = context.SharedContext(comm)
    for i in range(5):
        ctx.add(A(i, 0, rank))
    assert len(list(ctx.agents(count=0))) == 0
    assert len(list(ctx.agents(count=2))) == 2
    assert len(list(ctx.agents(agent_type=0, count=0))) == 0
'''),
    dict(id='p09-ghost-not-in-grid', property='P09', ranks=2,
         edits=[(P + 'context.py', """                for proj in self.projections.values():
                    if agent not in proj:
                        proj.add(agent)""", """                for proj in self.non_bounded_projs:
                    if agent not in proj:
                        proj.add(agent)""")],
         needs='a request for an agent of which a network made a ghost before, in a context that also has a grid or space',
         breaks='the returned ghost is not a member of the grid or space',
         demo=AG + '''
def main():
    ctx = context.SharedContext(comm)
    grid = space.SharedGrid('g', bounds=space.BoundingBox(0, 20, 0, 10, 0, 0), borders=space.BorderType.Sticky,
                            occupancy=space.OccupancyType.Multiple, buffer_size=0, comm=comm)
    ctx.add_projection(grid)
    net = network.DirectedSharedNetwork('n', comm)
    ctx.add_projection(net)
    a = A(0, 0, rank)
    ctx.add(a)
    got = ctx.request_agents([((0, 0, 1), 1)] if rank == 0 else [], make)
    if rank == 0:
        net.add_edge(a, got[0])
    ctx.synchronize(make)
    got = ctx.request_agents([((0, 0, 0), 0)] if rank == 1 else [], make)
    if rank == 1:
        assert [g.uid for g in got] == [(0, 0, 0)]
        for p in (grid, net):
            assert got[0] in p, p.name
'''),
    dict(id='p22-rows-cleared-on-root', property='P22', ranks=2,
         edits=[(P + 'logging.py', """                for items in all_items:
                    writer.writerows(items)

        self._rows.clear()""", """                for items in all_items:
                    writer.writerows(items)
            self._rows.clear()""")],
         needs='more than one rank and a log written more than once',
         breaks='rows logged on the other ranks are written again at every later write',
         demo=AG + '''
def main():
    import os, tempfile
    from repast4py import logging as lg
    d = comm.bcast(tempfile.mkdtemp() if rank == 0 else None, root=0)
    f = os.path.join(d, 'x.csv')
    lo = lg.TabularLogger(comm, f, ['a', 'b'])
    n = 0
    for k in range(3):
        lo.log_row(rank, k)
        lo.write()
    lo.close()
    comm.Barrier()
    if rank == 0:
        rows = open(f).read().split()
        os.remove(f)
        os.rmdir(d)
        assert len(rows) == 7, rows
'''),
    dict(id='p03-late-last-event', property='P03', timeout=30,
         edits=[(P + 'schedule.py', """        interrupted = self.execute_evts(self.last, queue)
        if interrupted:
            return
        self.executing = False""", """        self.executing = False
        interrupted = self.execute_evts(self.last, queue)
        if interrupted:
            return""")],
         needs='an event with priority LAST that schedules another event for the current tick',
         breaks='the new event is put straight into the lists being executed: events of a lower priority class are never run',
         demo=AG + '''
def main():
    r = schedule.init_schedule_runner(comm)
    out = []

    def last():
        out.append('last')
        r.schedule_event(r.tick(), lambda: out.append('first'), priority_type=schedule.PriorityType.FIRST)
        r.schedule_event(r.tick(), lambda: out.append('last2'), priority_type=schedule.PriorityType.LAST)
    r.schedule_event(1, last, priority_type=schedule.PriorityType.LAST)
    r.schedule_stop(2)
    r.execute()
    assert out == ['last', 'first', 'last2'], out
'''),
    dict(id='p10-out-edges-only', property='P10', ranks=2,
         edits=[(P + 'network.py', """        return len(self.graph.in_edges(agent)) > 0 or len(self.graph.out_edges(agent)) > 0""",
                 """        return self.graph.out_degree(agent) > 0""")],
         needs='two opposite directed edges between the same two agents of different ranks, one of which is removed',
         breaks='the ghost is dropped, and the remaining edge with it, on one of the ranks',
         demo=AG + '''
def main():
    ctx = context.SharedContext(comm)
    net = network.DirectedSharedNetwork('n', comm)
    ctx.add_projection(net)
    a = A(0, 0, rank)
    ctx.add(a)
    got = ctx.request_agents([((0, 0, 1), 1)] if rank == 0 else [], make)
    if rank == 0:
        net.add_edge(a, got[0])
        net.add_edge(got[0], a)
    ctx.synchronize(make)
    if rank == 0:
        net.remove_edge(a, got[0])
    ctx.synchronize(make)
    if rank == 1:
        g = ctx.ghost_agent((0, 0, 0))
        assert g is not None and net.contains_edge(a, g)
    if rank == 0:
        net.add_edge(a, got[0])
    ctx.synchronize(make)
    if rank == 0:
        net.remove_edge(got[0], a)
    ctx.synchronize(make)
    if rank == 1:
        g = ctx.ghost_agent((0, 0, 0))
        assert g is not None and net.contains_edge(g, a)
'''),
]
