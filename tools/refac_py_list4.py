"""More behaviour preserving edits of the Python sources (fourth batch)."""


def fill(r):
    N = 'network.py'
    r('n4-desc', N, """        vals = line.split(' ')
        if len(vals) != 2:
            raise ValueError

        id = vals[0]
        is_directed = int(vals[1]) != 0

        return (id, is_directed)
""", """        parts = line.split(' ')
        if len(parts) == 2:
            name, flag = parts
            return name, bool(int(flag))
        raise ValueError
""")
    r('n4-node', N, """        vals = line.split(None, 3)
        n_vals = len(vals)
        if n_vals < 3 or n_vals > 4:
            raise ValueError
        n_id = int(vals[0])
        agent_type = int(vals[1])
        rank = int(vals[2])

        if rank == graph_data.rank or graph_data.rank == -1:
            attribs = _EMPTY_DICT
            if n_vals == 4:
                attribs = json.loads(vals[3])

            agent = create_agent(n_id, agent_type, rank, **attribs)
""", """        vals = line.split(None, 3)
        if len(vals) not in (3, 4):
            raise ValueError
        n_id, agent_type, rank = (int(v) for v in vals[:3])

        if graph_data.rank in (rank, -1):
            attribs = json.loads(vals[3]) if len(vals) == 4 else _EMPTY_DICT
            agent = create_agent(n_id, agent_type, rank, **attribs)
""")
    r('n4-node-guard', N, """        if rank == graph_data.rank or graph_data.rank == -1:
            attribs = _EMPTY_DICT
            if n_vals == 4:
                attribs = json.loads(vals[3])

            agent = create_agent(n_id, agent_type, rank, **attribs)
            ctx.add(agent)
            graph_data.agents[n_id] = agent
        else:
            graph_data.remote_agents[n_id] = (n_id, agent_type, rank)
""", """        if graph_data.rank != -1 and rank != graph_data.rank:
            graph_data.remote_agents[n_id] = (n_id, agent_type, rank)
            return

        if n_vals == 4:
            agent = create_agent(n_id, agent_type, rank, **json.loads(vals[3]))
        else:
            agent = create_agent(n_id, agent_type, rank)
        ctx.add(agent)
        graph_data.agents[n_id] = agent
""")
    r('n4-reqremote', N, """    requested_agents = ctx.request_agents(graph_data.requested_agents, create_agent)
    for agent in requested_agents:
        graph_data.agents[agent.uid[0]] = agent
""", """    received = ctx.request_agents(graph_data.requested_agents, create_agent)
    graph_data.agents.update({a.uid[0]: a for a in received})
""")
    r('n4-reqremote2', N, """    requested_agents = ctx.request_agents(graph_data.requested_agents, create_agent)
    for agent in requested_agents:
        graph_data.agents[agent.uid[0]] = agent
""", """    agents = graph_data.agents
    for agent in ctx.request_agents(graph_data.requested_agents, create_agent):
        uid = agent.uid
        agents[uid[0]] = agent
""")
    r('n4-parseedge-helper', N, """def _parse_edge(line: str, line_num: int, graph, graph_data: GraphData):
    requested = graph_data.requested
    try:""", """def _request_once(graph_data: GraphData, node_id: int):
    uid = graph_data.remote_agents[node_id]
    if node_id not in graph_data.requested:
        graph_data.requested_agents.append((uid, uid[2]))
        graph_data.requested.add(node_id)
    return uid


def _parse_edge(line: str, line_num: int, graph, graph_data: GraphData):
    try:""", """            v_uid = graph_data.remote_agents[v_id]
            if v_id not in requested:
                graph_data.requested_agents.append((v_uid, v_uid[2]))
                requested.add(v_id)

            u_uid""", """            v_uid = _request_once(graph_data, v_id)
            u_uid""", """            u_uid = graph_data.remote_agents[u_id]
            if u_id not in requested:
                graph_data.requested_agents.append((u_uid, u_uid[2]))
                requested.add(u_id)
            v_uid""", """            u_uid = _request_once(graph_data, u_id)
            v_uid""")
    r('n4-parseedge-star', N, """            u_uid = graph_data.agents[u_id].uid
            if n_vals == 3:
                graph_data.edges.append((u_uid, v_uid, vals[2]))
            else:
                graph_data.edges.append((u_uid, v_uid))

        elif not u_in and v_in:""", """            u_uid = graph_data.agents[u_id].uid
            graph_data.edges.append((u_uid, v_uid, *vals[2:]))

        elif v_in:""")
    r('n4-parseedge-attr', N, """            u = graph_data.agents[u_id]
            v = graph_data.agents[v_id]
            if n_vals == 3:
                graph.add_edge(u, v, **(json.loads(vals[2])))
            else:
                graph.add_edge(u, v)
        elif u_in""", """            attrs = json.loads(vals[2]) if n_vals == 3 else {}
            graph.add_edge(graph_data.agents[u_id], graph_data.agents[v_id], **attrs)
        elif u_in""")
    r('n4-createedges', N, """        u = graph_data.agents[edge[0][0]]
        v = graph_data.agents[edge[1][0]]

        if len(edge) == 3:
            graph.add_edge(u, v, **(json.loads(edge[2])))
        else:
            graph.add_edge(u, v)
""", """        u_uid, v_uid = edge[0], edge[1]
        u = graph_data.agents[u_uid[0]]
        v = graph_data.agents[v_uid[0]]
        attribs = json.loads(edge[2]) if len(edge) > 2 else {}
        graph.add_edge(u, v, **attribs)
""")
    r('n4-createedges2', N, """        u = graph_data.agents[edge[0][0]]
        v = graph_data.agents[edge[1][0]]

        if len(edge) == 3:
            graph.add_edge(u, v, **(json.loads(edge[2])))
        else:
            graph.add_edge(u, v)
""", """        (u_id, _, _), (v_id, _, _) = edge[:2]
        attribs = {}
        if len(edge) == 3:
            attribs = json.loads(edge[2])
        graph.add_edge(graph_data.agents[u_id], graph_data.agents[v_id], **attribs)
""")
    r('n4-read-enumerate', N, """        for i, line in enumerate(f_in):
            line = line.strip()
            if parse_nodes:
                if line == 'EDGES':
                    parse_nodes = False

                else:
                    _parse_node(line, i + 2, graph_data, ctx, create_agent)
            else:
                _parse_edge(line, i + 2, g, graph_data)
""", """        for line_num, raw in enumerate(f_in, 2):
            line = raw.strip()
            if not parse_nodes:
                _parse_edge(line, line_num, g, graph_data)
            elif line == 'EDGES':
                parse_nodes = False
            else:
                _parse_node(line, line_num, graph_data, ctx, create_agent)
""")
    r('n4-read-cls', N, """        g = DirectedSharedNetwork(gid, ctx.comm) if is_directed else UndirectedSharedNetwork(gid, ctx.comm)
        ctx.add_projection(g)""", """        if is_directed:
            g = DirectedSharedNetwork(gid, ctx.comm)
        else:
            g = UndirectedSharedNetwork(gid, ctx.comm)
        ctx.add_projection(g)""")
    r('n4-read-cls2', N, """        g = DirectedSharedNetwork(gid, ctx.comm) if is_directed else UndirectedSharedNetwork(gid, ctx.comm)
""", """        network_class = DirectedSharedNetwork if is_directed else UndirectedSharedNetwork
        g = network_class(gid, ctx.comm)
""")
    r('n4-read-rank', N, """        gd_rank = ctx.rank if ctx.comm.size > 1 else -1
        graph_data = GraphData(rank=gd_rank, agents={}, remote_agents={}, requested_agents=[],
                               edges=[])""", """        gd_rank = -1
        if ctx.comm.size > 1:
            gd_rank = ctx.rank
        graph_data = GraphData(gd_rank, {}, {}, [], [])""")
    r('n4-writenode', N, """    n = node_data[0]
    attrib = node_data[1]
    agent_type = 0
""", """    n, attrib = node_data
    agent_type = 0
""")
    r('n4-writenode2', N, """            attrib = attrib.copy()
            del attrib['agent_type']
""", """            attrib = {k: v for k, v in attrib.items() if k != 'agent_type'}
""")
    r('n4-writenode3', N, """            attrib = attrib.copy()
            del attrib['agent_type']
""", """            attrib = dict(attrib)
            attrib.pop('agent_type')
""")
    r('n4-writenode4', N, """    line = f'{n} {agent_type} {rank}'
    if (len(attrib) > 0):
        line = f'{line} {json.dumps(attrib)}'

    f_out.write(line)
    f_out.write('\\n')


def _write_edges""", """    f_out.write(f'{n} {agent_type} {rank}')
    if attrib:
        f_out.write(f' {json.dumps(attrib)}')
    f_out.write('\\n')


def _write_edges""")
    r('n4-writeedges', N, """        line = f'{u} {v}'
        if (len(attrib) > 0):
            line = f'{line} {json.dumps(attrib)}'

        f_out.write(line)
        f_out.write('\\n')
""", """        suffix = ' ' + json.dumps(attrib) if attrib else ''
        f_out.write(f'{u} {v}{suffix}\\n')
""")
    r('n4-line-helper', N, """def _write_edges(f_out, graph: nx.Graph):
    f_out.write('EDGES\\n')
    for u, v, attrib in graph.edges(data=True):
        line = f'{u} {v}'
        if (len(attrib) > 0):
            line = f'{line} {json.dumps(attrib)}'

        f_out.write(line)
        f_out.write('\\n')
""", """def _write_line(f_out, line, attrib):
    if len(attrib) > 0:
        line = f'{line} {json.dumps(attrib)}'
    f_out.write(line + '\\n')


def _write_edges(f_out, graph: nx.Graph):
    f_out.write('EDGES\\n')
    for u, v, attrib in graph.edges(data=True):
        _write_line(f_out, f'{u} {v}', attrib)
""")
    r('n4-randpart-get', N, """    if 'rng' in partitioning_args:
        rng_val = partitioning_args['rng']
        if rng_val == 'default':
            rng = random.default_rng
        else:
            rng = rng_val
    else:
        rng = random.default_rng
    rng.shuffle(assigned_ranks)
""", """    rng = partitioning_args.get('rng', 'default')
    if rng == 'default':
        rng = random.default_rng
    rng.shuffle(assigned_ranks)
""")
    r('n4-randpart-slice', N, """    if len(assigned_ranks) > num_nodes:
        assigned_ranks = assigned_ranks[: num_nodes]

    with""", """    assigned_ranks = assigned_ranks[:num_nodes]

    with""")
    r('n4-randpart-zip', N, """        for i, nd in enumerate(graph.nodes(data=True)):
            _write_node(f_out, nd, assigned_ranks[i])
""", """        for nd, rank in zip(graph.nodes(data=True), assigned_ranks):
            _write_node(f_out, nd, rank)
""")
    r('n4-header-helper', N, """def _random_partition(""", """def _write_header(f_out, graph, network_name):
    is_d = 1 if nx.is_directed(graph) else 0
    f_out.write(f'{network_name} {is_d}\\n')


def _random_partition(""", """        is_d = 1 if nx.is_directed(graph) else 0
        f_out.write(f'{network_name} {is_d}\\n')
        for i, nd in""", """        _write_header(f_out, graph, network_name)
        for i, nd in""", """        is_d = 1 if nx.is_directed(graph) else 0
        f_out.write(f'{network_name} {is_d}\\n')
        for i, partition in""", """        _write_header(f_out, graph, network_name)
        for i, partition in""")
    r('n4-write-get', N, """    if 'partition_method' in partition_args:
        partition_method = partition_args['partition_method']
        if partition_method == 'random':
            _random_partition(graph, network_name, fpath, n_ranks, **partition_args)
        elif partition_method == 'metis':
            del partition_args['partition_method']
            _metis_partition(graph, network_name, fpath, n_ranks, **partition_args)
        else:
            raise ValueError('Invalid partition method, must be one of "random" or "metis"')
    else:
        _random_partition(graph, network_name, fpath, n_ranks, **partition_args)""", """    method = partition_args.pop('partition_method', 'random')
    if method == 'random':
        _random_partition(graph, network_name, fpath, n_ranks, **partition_args)
    elif method == 'metis':
        _metis_partition(graph, network_name, fpath, n_ranks, **partition_args)
    else:
        raise ValueError('Invalid partition method, must be one of "random" or "metis"')""")
    r('n4-remove', N, """            for edge in [e for e in self.edges_to_remove if agent in e]:
                del self.edges_to_remove[edge]
""", """            stale = [e for e in self.edges_to_remove if agent in e]
            for edge in stale:
                self.edges_to_remove.pop(edge)
""")
    r('n4-remove-dict', N, """            for edge in [e for e in self.edges_to_remove if agent in e]:
                del self.edges_to_remove[edge]
""", """            for edge in list(self.edges_to_remove):
                if edge[0] == agent or edge[1] == agent:
                    del self.edges_to_remove[edge]
""")
    r('n4-discard', N, """        edge_key = self._get_edge_key(edge)
        self.ghosted_edges.pop(edge_key, None)
        self.new_edges.pop(edge_key, None)
        self.edges_to_update.discard(edge_key)
""", """        edge_key = self._get_edge_key(edge)
        self.edges_to_update.discard(edge_key)
        for edges in (self.ghosted_edges, self.new_edges):
            if edge_key in edges:
                del edges[edge_key]
""")
    r('n4-removeedge-guard', N, """        if u_agent.local_rank != self.rank and v_agent.local_rank == self.rank or \\
           u_agent.local_rank == self.rank and v_agent.local_rank != self.rank:
            edge_key = self._get_edge_key((u_agent, v_agent))
            # edge key""", """        u_local = u_agent.local_rank == self.rank
        v_local = v_agent.local_rank == self.rank
        if u_local != v_local:
            edge_key = self._get_edge_key((u_agent, v_agent))
            # edge key""")
    r('n4-clearedges', N, """        for u_agent, v_agent in list(self.graph.edges()):
            self.remove_edge(u_agent, v_agent)
""", """        edges = [edge for edge in self.graph.edges()]
        for edge in edges:
            self.remove_edge(*edge)
""")
    r('n4-synced', N, """        for edges in recv_edges:
            for u_id, v_id, edge_attr in edges:
                u_agent = agent_manager._ghost_agents.get(u_id)
                if u_agent is None:
                    # u_agent is local
                    u_agent = agent_manager._local_agents[u_id]
                    v_agent = ghost = agent_manager._ghost_agents[v_id].agent
                else:
                    # u_agent is GhostAgent so get agent from it
                    u_agent = ghost = u_agent.agent
                    v_agent = agent_manager._local_agents[v_id]
""", """        for edges in recv_edges:
            for u_id, v_id, edge_attr in edges:
                if u_id in agent_manager._ghost_agents:
                    u_agent = agent_manager._ghost_agents[u_id].agent
                    v_agent = agent_manager._local_agents[v_id]
                    ghost = u_agent
                else:
                    u_agent = agent_manager._local_agents[u_id]
                    v_agent = agent_manager._ghost_agents[v_id].agent
                    ghost = v_agent
""")
    r('n4-pre', N, """        for rank, agents in enumerate(recv_msg):
            for agent in agents:
                agent_manager.tag_as_ghosted(rank, agent)
""", """        for rank in range(self.comm.size):
            for uid in recv_msg[rank]:
                agent_manager.tag_as_ghosted(rank, uid)
""")
    r('n4-pre2', N, """            if self.graph.has_node(agent):
                ghost = agent_manager.get_ghost(agent.uid)
                if ghost is None:
                    agent_manager.add_ghost(agent.local_rank, agent)

                # ghosting rank""", """            if self.graph.has_node(agent):
                if agent_manager.get_ghost(agent.uid) is None:
                    agent_manager.add_ghost(agent.local_rank, agent)

                # ghosting rank""")
    r('n4-post', N, """            u = agent_manager.get_local(u_id)
            if u is None:
                # incr 0 because should be already as ghost so
                # ref_count includes this network
                u = agent_manager.get_ghost(u_id, incr=0)

            v = agent_manager.get_local(v_id)
            if v is None:
                # incr 0 because should be already as ghost so
                # ref_count includes this network
                v = agent_manager.get_ghost(v_id, incr=0)
            self.add_edge(u, v, **edge_attr)
""", """            ends = []
            for uid in (u_id, v_id):
                agent = agent_manager.get_local(uid)
                ends.append(agent_manager.get_ghost(uid, incr=0) if agent is None else agent)
            self.add_edge(*ends, **edge_attr)
""")
    r('n4-post-helper', N, """        for u_id, v_id, edge_attr in self._agent_moved_edges:
            u = agent_manager.get_local(u_id)
            if u is None:
                # incr 0 because should be already as ghost so
                # ref_count includes this network
                u = agent_manager.get_ghost(u_id, incr=0)

            v = agent_manager.get_local(v_id)
            if v is None:
                # incr 0 because should be already as ghost so
                # ref_count includes this network
                v = agent_manager.get_ghost(v_id, incr=0)
            self.add_edge(u, v, **edge_attr)
""", """        def find(uid):
            agent = agent_manager.get_local(uid)
            if agent is None:
                return agent_manager.get_ghost(uid, incr=0)
            return agent

        for u_id, v_id, edge_attr in self._agent_moved_edges:
            self.add_edge(find(u_id), find(v_id), **edge_attr)
""")
    r('n4-moving', N, """                if len(moving_agent_data) == 1:
                    moving_agent_data.append({self.rank: 1})
                else:
                    if self.rank in moving_agent_data[1]:
                        moving_agent_data[1][self.rank] += 1
                    else:
                        moving_agent_data[1][self.rank] = 1
""", """                if len(moving_agent_data) == 1:
                    moving_agent_data.append({})
                ghosted_ranks = moving_agent_data[1]
                ghosted_ranks[self.rank] = ghosted_ranks.get(self.rank, 0) + 1
""")
    r('n4-moving-cont', N, """            other = v if u.uid == moving_agent.uid else u
            if other.local_rank != self.rank:""", """            if u.uid == moving_agent.uid:
                other = v
            else:
                other = u
            if self.rank != other.local_rank:""")
    r('n4-moved-while', N, """        stop_ghosting_ids = self.comm.alltoall(self._no_longer_ghosts)
        for ghost_rank, ids in enumerate(stop_ghosting_ids):
            for id in ids:
                while agent_manager.is_ghosted_to(ghost_rank, id):
                    agent_manager.untag_as_ghosted(ghost_rank, id)
        self._no_longer_ghosts = [[] for _ in range(self.comm.size)]
""", """        received = self.comm.alltoall(self._no_longer_ghosts)
        self._no_longer_ghosts = [[] for _ in range(self.comm.size)]
        for ghost_rank, uids in enumerate(received):
            for uid in uids:
                while agent_manager.is_ghosted_to(ghost_rank, uid):
                    agent_manager.untag_as_ghosted(ghost_rank, uid)
""")
    C, X, K, H, G, S, V = 'checkpoint.py', 'context.py', 'core.py', 'schedule.py', 'geometry.py', 'space.py', 'value_layer.py'
    r('c4-locations', C, """        locations = {}

        for agent in context.agents():
            location = space.get_location(agent)
            # None if the agent is in the space, but has not been moved to a location.
            # The location is copied as the space updates it when the agent moves
            locations[agent.uid] = None if location is None else location.coordinates.copy()
        self.spaces[space.name] = locations
""", """        def coordinates(agent):
            location = space.get_location(agent)
            if location is None:
                return None
            return location.coordinates.copy()

        self.spaces[space.name] = {agent.uid: coordinates(agent) for agent in context.agents()}
""")
    r('c4-addedges', C, """            other_node = self.context.agent(other_uid)
            if other_node is None:
                # maybe it's a previously retrived ghost agent
                other_node = self.context.ghost_agent(other_uid) 
            if other_node is None:
                self.requests[other_uid] = (other_uid, other_local_rank)
                self.ghost_edges.append(edge_tuple_maker(node.uid, other_uid, e_attributes))
            else:
                edge_adder(node, other_node, e_attributes)
""", """            other_node = self._find_node(other_uid)
            if other_node is not None:
                edge_adder(node, other_node, e_attributes)
                continue
            self.requests[other_uid] = (other_uid, other_local_rank)
            self.ghost_edges.append(edge_tuple_maker(node.uid, other_uid, e_attributes))

    def _find_node(self, uid):
        node = self.context.agent(uid)
        if node is None:
            node = self.context.ghost_agent(uid)
        return node
""")
    r('c4-restore', C, """                for node_uid, others in edges:
                    node = self.context.agent(node_uid)
                    self._add_edges(node, others, self._make_suc_edge, self._add_suc_edge)
""", """                for entry in edges:
                    self._add_edges(self.context.agent(entry[0]), entry[1], self._make_suc_edge, self._add_suc_edge)
""")
    r('c4-schedevt', C, """        scheduled_evt = None
        if evt_type == schedule.EvtType.ONE_TIME:
            scheduled_evt = runner.schedule_event(evt_data.at, evt, priority_type=evt_data.priority_type,
                                                  priority=evt_data.priority, metadata=evt_data.metadata)
        elif""", """        scheduled_evt = None
        if evt_type == schedule.EvtType.ONE_TIME:
            return runner.schedule_event(evt_data.at, evt, evt_data.priority_type, evt_data.priority, evt_data.metadata)
        elif""")
    r('x4-add', X, """        self._agents_by_type.setdefault(agent.uid[1], collections.OrderedDict())[agent.uid] = agent
        for proj in self.projections.values():
            proj.add(agent)
""", """        agent_type = agent.uid[1]
        if agent_type not in self._agents_by_type:
            self._agents_by_type[agent_type] = collections.OrderedDict()
        self._agents_by_type[agent_type][agent.uid] = agent
        for name in self.projections:
            self.projections[name].add(agent)
""")
    r('x4-synch', X, """        for proj in self.projections.values():
            proj._synch_ghosts(self._agent_manager, restore_agent)

        for vl in self.value_layers:
            vl._synch_ghosts()
""", """        manager = self._agent_manager
        for _, proj in self.projections.items():
            proj._synch_ghosts(manager, restore_agent)

        for i in range(len(self.value_layers)):
            self.value_layers[i]._synch_ghosts()
""")
    r('x4-init', X, """        self._agent_manager = AgentManager(comm.Get_rank(), comm.Get_size())
        self._agents_by_type = {}
        self.projections = {}
        self.removed_ghosteds = []
        self.projection_id = 0
        self.rank = comm.Get_rank()
        self.comm = comm
""", """        self.comm = comm
        self.rank = comm.Get_rank()
        self._agent_manager = AgentManager(self.rank, comm.Get_size())
        self._agents_by_type = dict()
        self.projections = dict()
        self.removed_ghosteds = list()
        self.projection_id = 0
""")
    r('k4-removelocal', K, """        return self._local_agents.pop(agent_id, None)
""", """        agent = self._local_agents.get(agent_id)
        if agent is not None:
            del self._local_agents[agent_id]
        return agent
""")
    r('k4-delghosted', K, """        return self._ghosted_agents.pop(agent_id).ghost_ranks
""", """        ghosted = self._ghosted_agents[agent_id]
        del self._ghosted_agents[agent_id]
        return ghosted.ghost_ranks
""")
    r('k4-delghost', K, """        del self._ghost_agents[agent_id]
        self._req_ghosts.discard(agent_id)
""", """        self._ghost_agents.pop(agent_id)
        if agent_id in self._req_ghosts:
            self._req_ghosts.remove(agent_id)
""")
    r('k4-addghost', K, """        uid = agent.uid
        agent.local_rank = ghosted_rank
        ghost_agent = GhostAgent(agent, incr)
        self._ghost_agents[uid] = ghost_agent
""", """        self._ghost_agents[agent.uid] = GhostAgent(agent, incr)
        agent.local_rank = ghosted_rank
""")
    r('k4-addghosts', K, """        for gh in self._ghost_agents.values():
            gh.ref_count += 1
            projection.add(gh.agent)
""", """        for uid, gh in self._ghost_agents.items():
            gh.ref_count = gh.ref_count + 1
            projection.add(gh.agent)
""")
    r('k4-addlocal', K, """        agent.local_rank = self.rank
        self._local_agents[agent.uid] = agent
""", """        self._local_agents[agent.uid] = agent
        agent.local_rank = self.rank
""")
    r('h4-argevt', H, """    def f():
        evt(*args, **kwargs)
    return f
""", """    return lambda: evt(*args, **kwargs)
""")
    r('h4-argevt2', H, """    def f():
        evt(*args, **kwargs)
    return f
""", """    import functools
    return functools.partial(evt, *args, **kwargs)
""")
    r('h4-runner', H, """    if not __runner:
        raise RuntimeError('Schedule runner must be initialized with schedule.init_schedule_runner before being used')
    return __runner
""", """    if __runner:
        return __runner
    raise RuntimeError('Schedule runner must be initialized with schedule.init_schedule_runner before being used')
""")
    r('h4-execevts', H, """        next_idx = 0
        for evt in evts:
            self.size_ -= 1
            evt()
            evt.reschedule(queue)
            next_idx += 1
            if self.interrupted:
                interrupted = True
                break

        del evts[:next_idx]
""", """        done = 0
        for done, evt in enumerate(evts, 1):
            self.size_ -= 1
            evt()
            evt.reschedule(queue)
            if self.interrupted:
                interrupted = True
                break

        del evts[:done]
""")
    r('h4-execevts2', H, """        interrupted = False

        next_idx = 0
        for evt in evts:
            self.size_ -= 1
            evt()
            evt.reschedule(queue)
            next_idx += 1
            if self.interrupted:
                interrupted = True
                break

        del evts[:next_idx]

        if interrupted:
            self._add_during_ex_evts()
            self.interrupted = False

        return interrupted
""", """        next_idx = 0
        for evt in evts:
            self.size_ -= 1
            evt()
            evt.reschedule(queue)
            next_idx += 1
            if self.interrupted:
                del evts[:next_idx]
                self._add_during_ex_evts()
                self.interrupted = False
                return True

        del evts[:next_idx]
        return False
""")
    r('h4-execute', H, """        interrupted = self.execute_evts(self.first, queue)
        if interrupted:
            return
        interrupted = self.execute_evts(self.prioritized, queue)
        if interrupted:
            return
        interrupted = self.execute_evts(self.last, queue)
        if interrupted:
            return
        self.executing = False
""", """        for evts in (self.first, self.prioritized, self.last):
            if self.execute_evts(evts, queue):
                return
        self.executing = False
""")
    r('h4-execute2', H, """        interrupted = self.execute_evts(self.first, queue)
        if interrupted:
            return
        interrupted = self.execute_evts(self.prioritized, queue)
        if interrupted:
            return
        interrupted = self.execute_evts(self.last, queue)
        if interrupted:
            return
        self.executing = False
""", """        if self.execute_evts(self.first, queue) or self.execute_evts(self.prioritized, queue) or self.execute_evts(self.last, queue):
            return
        self.executing = False
""")
    r('h4-sched', H, """        scheduled_evt = OneTimeEvent(at, evt, priority_type, priority, metadata)
        self._push_event(at, scheduled_evt)
        return scheduled_evt
""", """        one_time = OneTimeEvent(at, evt, priority_type=priority_type, priority=priority, metadata=metadata)
        self._push_event(at, one_time)
        return one_time
""")
    r('h4-nexttick', H, """        if len(self.queue) == 0:
            return -1

        return self.queue[0][0]
""", """        return self.queue[0][0] if self.queue else -1
""")
    r('h4-stop', H, """        sch_evt = self.schedule.schedule_event(at, self.stop, metadata={'__type': EvtType.STOP})
        self.next_tick = self.schedule.next_tick()
        return sch_evt
""", """        metadata = dict(__type=EvtType.STOP)
        evt = self.schedule.schedule_event(at, self.stop, metadata=metadata)
        self.next_tick = self.schedule.next_tick()
        return evt
""")
    r('h4-runexec', H, """            global_next_tick = self.comm.allreduce(self.next_tick, op=MPI.MIN)
            if self.next_tick == global_next_tick:
                self.schedule.execute()
            self.next_tick = self.schedule.next_tick()
""", """            is_next = self.comm.allreduce(self.next_tick, op=MPI.MIN) == self.next_tick
            if is_next:
                self.schedule.execute()
            self.next_tick = self.schedule.next_tick()
""")
    r('h4-update-helper', H, """        sch_evt = self.schedule.schedule_event(at, evt, priority_type, priority, metadata)
        self.next_tick = self.schedule.next_tick()
        return sch_evt
""", """        return self._scheduled(self.schedule.schedule_event(at, evt, priority_type, priority, metadata))

    def _scheduled(self, sch_evt):
        self.next_tick = self.schedule.next_tick()
        return sch_evt
""")
    r('g4-sticky', G, """    x_idxs = (x_pts >= min_max[0]) & (x_pts <= min_max[1])
    # remove out of range xs
    x_pts = x_pts[x_idxs]
    y_pts = y_pts[x_idxs]

    # remove out of range ys
    y_idxs = (y_pts >= min_max[2]) & (y_pts <= min_max[3])
    x_pts = x_pts[y_idxs]
    y_pts = y_pts[y_idxs]

    return np.stack((y_pts, x_pts), axis=0) if pytorch_order else np.stack((x_pts, y_pts), axis=0)
""", """    in_x = (x_pts >= min_max[0]) & (x_pts <= min_max[1])
    x_pts, y_pts = x_pts[in_x], y_pts[in_x]

    in_y = (min_max[2] <= y_pts) & (min_max[3] >= y_pts)
    x_pts, y_pts = x_pts[in_y], y_pts[in_y]

    if pytorch_order:
        return np.stack((y_pts, x_pts), axis=0)
    return np.stack((x_pts, y_pts), axis=0)
""")
    r('g4-order', G, """    return np.stack((z_pts, y_pts, x_pts), axis=0) if pytorch_order else np.stack((x_pts, y_pts, z_pts), axis=0)


""", """    pts = (z_pts, y_pts, x_pts) if pytorch_order else (x_pts, y_pts, z_pts)
    return np.stack(pts, axis=0)


""")
    r('g4-wrap', G, """def find_1d_nghs_periodic(""", """def _wrap(pts, low, high):
    extent = high - low + 1
    ncs = np.mod((pts - low), extent)
    return np.where(ncs < 0, high + ncs, low + ncs)


def find_1d_nghs_periodic(""", """    x_extent = min_max[1] - min_max[0] + 1
    x_pts = pt[0] + _xoffset_1d
    ncs = np.mod((x_pts - min_max[0]), x_extent)
    x_pts = np.where(ncs < 0, min_max[1] + ncs, min_max[0] + ncs)
    return x_pts
""", """    return _wrap(pt[0] + _xoffset_1d, min_max[0], min_max[1])
""", """    y_extent = min_max[3] - min_max[2] + 1
    y_pts = pt[1] + _yoffset_3d
    ncs = np.mod((y_pts - min_max[2]), y_extent)
    y_pts = np.where(ncs < 0, min_max[3] + ncs, min_max[2] + ncs)
""", """    y_pts = _wrap(pt[1] + _yoffset_3d, min_max[2], min_max[3])
""")
    r('s4-random', S, """            def f(rng):
                x = rng.integers(local_bounds.xmin, local_bounds.xmin + local_bounds.xextent)
                y = rng.integers(local_bounds.ymin, local_bounds.ymin + local_bounds.yextent)
                return DiscretePoint(x, y, 0)
            return f
""", """            xmax = local_bounds.xmin + local_bounds.xextent
            ymax = local_bounds.ymin + local_bounds.yextent

            def f(rng):
                x = rng.integers(local_bounds.xmin, xmax)
                y = rng.integers(local_bounds.ymin, ymax)
                return DiscretePoint(x, y, 0)
            return f
""")
    r('s4-fill', S, """        send_data = [[] for i in range(self._cart_comm.size)]
        # bd: (rank, (ranges)) e.g., (1, (8, 10, 0, 0, 0, 0))
        for bd in self._get_buffer_data():
            data_list = send_data[bd[0]]
            ranges = bd[1]

            self.gather(data_list, ranges)

        return send_data
""", """        send_data = [list() for _ in range(self._cart_comm.size)]
        for rank, ranges in self._get_buffer_data():
            self.gather(send_data[rank], ranges)
        return send_data
""")
    r('s4-presynch', S, """        if self.do_synch:
            for agent in self.buffered_agents:
                self.remove(agent)
                agent_manager.remove_ghost(agent)
            self.buffered_agents.clear()
""", """        if not self.do_synch:
            return

        for ghost in self.buffered_agents:
            self.remove(ghost)
            agent_manager.remove_ghost(ghost)
        self.buffered_agents = []
""")
    r('s4-synch', S, """            send_data = self._fill_send_data()
            recv_data = self._cart_comm.alltoall(send_data)
            self._process_recv_data(recv_data, agent_manager, create_agent)
""", """            self._process_recv_data(self._cart_comm.alltoall(self._fill_send_data()), agent_manager, create_agent)
""")
    r('v4-init', V, """        if init_value == 'random':
            self.grid = torch.rand((bounds.xextent,), dtype=dtype)
        else:
            self.grid = torch.full((bounds.xextent,), init_value, dtype=dtype)
        self.pt_translation = np.array([0 - bounds.xmin, 0, 0])
        self.ngh_translation = 0 - bounds.xmin
""", """        shape = (bounds.xextent,)
        self.grid = torch.rand(shape, dtype=dtype) if init_value == 'random' else torch.full(shape, init_value, dtype=dtype)
        self.pt_translation = np.array([-bounds.xmin, 0, 0])
        self.ngh_translation = -bounds.xmin
""")
    r('v4-borders', V, """        if borders == BorderType.Sticky:
            self.borders = GridStickyBorders(bounds)
        elif borders == BorderType.Periodic:
            self.borders = GridPeriodicBorders(bounds)

        if init_value == 'random':
            self.grid = torch.rand(
                (bounds.yextent, bounds.xextent), dtype=dtype)
        else:
            self.grid = torch.full((bounds.yextent, bounds.xextent), init_value, dtype=dtype)
""", """        if borders == BorderType.Periodic:
            self.borders = GridPeriodicBorders(bounds)
        elif borders == BorderType.Sticky:
            self.borders = GridStickyBorders(bounds)

        if init_value != 'random':
            self.grid = torch.full((bounds.yextent, bounds.xextent), init_value, dtype=dtype)
        else:
            self.grid = torch.rand((bounds.yextent, bounds.xextent), dtype=dtype)
""")
    r('v4-ngh', V, """        self.ngh_finder = geometry.find_2d_nghs_sticky if borders == BorderType.Sticky else geometry.find_2d_nghs_periodic
        self.min_max = np.array(
            [bounds.xmin, bounds.xmin + bounds.xextent - 1, bounds.ymin, bounds.ymin + bounds.yextent - 1])
""", """        if borders == BorderType.Sticky:
            self.ngh_finder = geometry.find_2d_nghs_sticky
        else:
            self.ngh_finder = geometry.find_2d_nghs_periodic
        xmax = bounds.xmin + bounds.xextent - 1
        ymax = bounds.ymin + bounds.yextent - 1
        self.min_max = np.array([bounds.xmin, xmax, bounds.ymin, ymax])
""")
    r('v4-get', V, """        self.borders._transform(pt, self.tpt)
        # npt is a np array
        npt = self.tpt.coordinates + self.pt_translation
        return self.grid[npt[1], npt[0]]
""", """        self.borders._transform(pt, self.tpt)
        col, row, _ = self.tpt.coordinates + self.pt_translation
        return self.grid[row, col]
""")
    r('v4-helper', V, """        self.borders._transform(pt, self.tpt)
        # npt is a np array
        npt = self.tpt.coordinates + self.pt_translation
        return self.grid[npt[1], npt[0]]
""", """        npt = self._grid_pt(pt)
        return self.grid[npt[1], npt[0]]

    def _grid_pt(self, pt):
        self.borders._transform(pt, self.tpt)
        return self.tpt.coordinates + self.pt_translation
""")
    r('v4-nghs', V, """        nghs = self.ngh_finder(pt.coordinates, self.min_max, pytorch_order=True)
        grid_idxs = nghs + self.ngh_translation
        # swap to remove the row major
        nghs[[0, 1]] = nghs[[1, 0]]
        return (self.grid[grid_idxs[0], grid_idxs[1]], nghs)
""", """        nghs = self.ngh_finder(pt.coordinates, self.min_max, pytorch_order=True)
        rows, cols = nghs + self.ngh_translation
        vals = self.grid[rows, cols]
        # swap to remove the row major
        nghs[[0, 1]] = nghs[[1, 0]]
        return vals, nghs
""")
    r('v4-recv-helper', V, """        for ngh_rank, data in enumerate(self.ngh_meta_data_recv):
            # data: shape, pytorch_ordered bounds [ 2 30  0 30 80 82  0  0]
            slice_data = []
            if data[0] != 0:
                row = data[2] + r_trans
                col = data[4] + c_trans
                # origin + extent
                stop_row = row + (data[3] - data[2])
                stop_col = col + (data[5] - data[4])

                row, stop_row = self._wrap_slice_vals(row, stop_row, self.full_bounds.yextent, self.local_bounds.yextent,
                                                      self.procs_per_dim[1])
                col, stop_col = self._wrap_slice_vals(col, stop_col, self.full_bounds.xextent, self.local_bounds.xextent,
                                                      self.procs_per_dim[0])
                slice_data.append((ngh_rank, np.prod(data[:2]), data[:2], (slice(row, stop_row), slice(col, stop_col))))

                for i in range(1, num_sent_slices):
                    idx = offset * i
                    if data[idx] != 0:
                        row = data[idx + 2] + r_trans
                        col = data[idx + 4] + c_trans
                        # origin + extent
                        stop_row = row + (data[idx + 3] - data[idx + 2])
                        stop_col = col + (data[idx + 5] - data[idx + 4])

                        row, stop_row = self._wrap_slice_vals(row, stop_row, self.full_bounds.yextent,
                                                              self.local_bounds.yextent, self.procs_per_dim[1])
                        col, stop_col = self._wrap_slice_vals(col, stop_col, self.full_bounds.xextent,
                                                              self.local_bounds.xextent, self.procs_per_dim[0])
                        slice_data.append((ngh_rank, np.prod(data[idx: idx + 2]), data[idx: idx + 2],
                                          (slice(row, stop_row), slice(col, stop_col))))
                    else:
                        break
""", """        def slices(data, idx):
            row = data[idx + 2] + r_trans
            col = data[idx + 4] + c_trans
            # origin + extent
            stop_row = row + (data[idx + 3] - data[idx + 2])
            stop_col = col + (data[idx + 5] - data[idx + 4])
            row, stop_row = self._wrap_slice_vals(row, stop_row, self.full_bounds.yextent, self.local_bounds.yextent,
                                                  self.procs_per_dim[1])
            col, stop_col = self._wrap_slice_vals(col, stop_col, self.full_bounds.xextent, self.local_bounds.xextent,
                                                  self.procs_per_dim[0])
            return (slice(row, stop_row), slice(col, stop_col))

        for ngh_rank, data in enumerate(self.ngh_meta_data_recv):
            # data: shape, pytorch_ordered bounds [ 2 30  0 30 80 82  0  0]
            slice_data = []
            if data[0] != 0:
                slice_data.append((ngh_rank, np.prod(data[:2]), data[:2], slices(data, 0)))

                for i in range(1, num_sent_slices):
                    idx = offset * i
                    if data[idx] == 0:
                        break
                    slice_data.append((ngh_rank, np.prod(data[idx: idx + 2]), data[idx: idx + 2], slices(data, idx)))
""")
    r('v4-displs', V, """        send_displs = np.concatenate((np.zeros(1, dtype=np.int32), np.cumsum(send_counts, dtype=np.int32)[:-1]))
        send_buf = np.empty(np.sum(send_counts), dtype=buf_dtype)
        self.send_data = ((send_buf, (send_counts, send_displs)), ngh_buffers)

        recv_counts = _compute_meta_data_counts(self.ngh_meta_data_recv, 2, offset, num_sent_slices)
        # np.apply_along_axis(lambda row: row[0] * row[1] + row[6] * row[7], 1, self.ngh_meta_data_recv)
        recv_displs = np.concatenate((np.zeros(1, dtype=np.int32), np.cumsum(recv_counts, dtype=np.int32)[:-1]))
        recv_buf = np.empty(np.sum(recv_counts), dtype=buf_dtype)
        recv_buf_data = []

        for ngh_rank, data""", """        def buffer(counts):
            displs = np.concatenate((np.zeros(1, dtype=np.int32), np.cumsum(counts, dtype=np.int32)[:-1]))
            return (np.empty(np.sum(counts), dtype=buf_dtype), (counts, displs))

        self.send_data = (buffer(send_counts), ngh_buffers)

        recv_counts = _compute_meta_data_counts(self.ngh_meta_data_recv, 2, offset, num_sent_slices)
        recv_msg = buffer(recv_counts)
        recv_buf_data = []

        for ngh_rank, data""", """        self.recv_data = ((recv_buf, (recv_counts, recv_displs)), recv_buf_data)
""", """        self.recv_data = (recv_msg, recv_buf_data)
""")
