"""Behaviour preserving edits of network.py."""
N = 'network.py'


def fill(r):
    r('net-move-helper', N, '''                if len(moving_agent_data) == 1:
                    moving_agent_data.append({self.rank: 1})
                else:
                    if self.rank in moving_agent_data[1]:
                        moving_agent_data[1][self.rank] += 1
                    else:
                        moving_agent_data[1][self.rank] = 1
''', '''                self._count_ghost_on(moving_agent_data)
''', '''    def _agent_moving_rank(self,''', '''    def _count_ghost_on(self, moving_agent_data):
        if len(moving_agent_data) == 1:
            moving_agent_data.append({self.rank: 1})
        elif self.rank in moving_agent_data[1]:
            moving_agent_data[1][self.rank] += 1
        else:
            moving_agent_data[1][self.rank] = 1

    def _agent_moving_rank(self,''')
    r('net-move-get', N, '''                if len(moving_agent_data) == 1:
                    moving_agent_data.append({self.rank: 1})
                else:
                    if self.rank in moving_agent_data[1]:
                        moving_agent_data[1][self.rank] += 1
                    else:
                        moving_agent_data[1][self.rank] = 1
''', '''                if len(moving_agent_data) == 1:
                    moving_agent_data.append({self.rank: 1})
                else:
                    counts = moving_agent_data[1]
                    counts[self.rank] = counts.get(self.rank, 0) + 1
''')
    r('net-move-get2', N, '''                if len(moving_agent_data) == 1:
                    moving_agent_data.append({self.rank: 1})
                else:
                    if self.rank in moving_agent_data[1]:
                        moving_agent_data[1][self.rank] += 1
                    else:
                        moving_agent_data[1][self.rank] = 1
''', '''                if len(moving_agent_data) == 1:
                    moving_agent_data.append({})
                counts = moving_agent_data[1]
                if self.rank not in counts:
                    counts[self.rank] = 0
                counts[self.rank] += 1
''')
    r('net-move-invert', N, '''        for edge in edges_to_remove:
            self._discard_edge_sync(edge)
            self.graph.remove_edge(*edge)
            self._remove_edge_key(*edge)

        for node in nodes_to_remove:
            self.graph.remove_node(node)
''', '''        for u, v in edges_to_remove:
            self._discard_edge_sync((u, v))
            self.graph.remove_edge(u, v)
            self._remove_edge_key(u, v)

        self.graph.remove_nodes_from(nodes_to_remove)
''')
    r('net-add-edge-un', N, '''        if u_agent.local_rank == self.rank and v_agent.local_rank != self.rank:
            if not self.graph.has_node(v_agent):
                self.ghosts_to_ref.append(v_agent)
            self.graph.add_edge(u_agent, v_agent, **kwattr)
            edge_key = self._add_edge_key(u_agent, v_agent)
            ge = GhostedEdge(u_agent, v_agent, self.graph.edges[edge_key])
            self.new_edges[edge_key] = ge
            if self.edges_to_remove.pop(edge_key, None) is not None:
                self.ghosted_edges[edge_key] = ge

        elif u_agent.local_rank != self.rank and v_agent.local_rank == self.rank:
            if not self.graph.has_node(u_agent):
                self.ghosts_to_ref.append(u_agent)
            self.graph.add_edge(u_agent, v_agent, **kwattr)
            edge_key = self._add_edge_key(u_agent, v_agent)
            ge = GhostedEdge(v_agent, u_agent, self.graph.edges[edge_key])
            self.new_edges[edge_key] = ge
            if self.edges_to_remove.pop(edge_key, None) is not None:
                self.ghosted_edges[edge_key] = ge
        else:
            self._add_edge_key(u_agent, v_agent)
            self.graph.add_edge(u_agent, v_agent, **kwattr)
''', '''        u_local = u_agent.local_rank == self.rank
        v_local = v_agent.local_rank == self.rank
        if u_local == v_local:
            self._add_edge_key(u_agent, v_agent)
            self.graph.add_edge(u_agent, v_agent, **kwattr)
            return

        local, ghost = (u_agent, v_agent) if u_local else (v_agent, u_agent)
        if not self.graph.has_node(ghost):
            self.ghosts_to_ref.append(ghost)
        self.graph.add_edge(u_agent, v_agent, **kwattr)
        edge_key = self._add_edge_key(u_agent, v_agent)
        ge = GhostedEdge(local, ghost, self.graph.edges[edge_key])
        self.new_edges[edge_key] = ge
        if self.edges_to_remove.pop(edge_key, None) is not None:
            self.ghosted_edges[edge_key] = ge
''')
    r('net-add-edge-un2', N, '''            edge_key = self._add_edge_key(u_agent, v_agent)
            ge = GhostedEdge(u_agent, v_agent, self.graph.edges[edge_key])
            self.new_edges[edge_key] = ge
            if self.edges_to_remove.pop(edge_key, None) is not None:
                self.ghosted_edges[edge_key] = ge
''', '''            self._register_new_edge(self._add_edge_key(u_agent, v_agent), u_agent, v_agent)
''', '''            edge_key = self._add_edge_key(u_agent, v_agent)
            ge = GhostedEdge(v_agent, u_agent, self.graph.edges[edge_key])
            self.new_edges[edge_key] = ge
            if self.edges_to_remove.pop(edge_key, None) is not None:
                self.ghosted_edges[edge_key] = ge
''', '''            self._register_new_edge(self._add_edge_key(u_agent, v_agent), v_agent, u_agent)
''', '''    def update_edge(self,''', '''    def _register_new_edge(self, edge_key, local_agent, ghost_agent):
        ge = GhostedEdge(local_agent, ghost_agent, self.graph.edges[edge_key])
        self.new_edges[edge_key] = ge
        if self.edges_to_remove.pop(edge_key, None) is not None:
            self.ghosted_edges[edge_key] = ge

    def update_edge(self,''')
    r('net-update-edge', N, '''        edge_key = self._get_edge_key((u_agent, v_agent))
        for k, v in kwattr.items():
            self.graph.edges[edge_key][k] = v
''', '''        edge_key = self._get_edge_key((u_agent, v_agent))
        self.graph.edges[edge_key].update(kwattr)
''')
    r('net-update-edge2', N, '''        if (u_agent.local_rank == self.rank and v_agent.local_rank != self.rank) or \\
           (u_agent.local_rank != self.rank and v_agent.local_rank == self.rank):
            self.edges_to_update.add(edge_key)
''', '''        if (u_agent.local_rank == self.rank) != (v_agent.local_rank == self.rank):
            self.edges_to_update.add(edge_key)
''')
    r('net-remove-edge', N, '''            if edge_key in self.ghosted_edges or edge_key not in self.new_edges:
                self.edges_to_remove[edge_key] = 0 if edge_key[1].local_rank == self.rank else 1
''', '''            known = edge_key in self.ghosted_edges or not (edge_key in self.new_edges)
            if known:
                ghost_idx = 1
                if edge_key[1].local_rank == self.rank:
                    ghost_idx = 0
                self.edges_to_remove[edge_key] = ghost_idx
''')
    r('net-clear-edges', N, '''        for u_agent, v_agent in list(self.graph.edges()):
            self.remove_edge(u_agent, v_agent)
''', '''        edges = [e for e in self.graph.edges()]
        for edge in edges:
            self.remove_edge(edge[0], edge[1])
''')
    r('net-clear-edges2', N, '''        for u_agent, v_agent in list(self.graph.edges()):
            self.remove_edge(u_agent, v_agent)
''', '''        for edge in tuple(self.graph.edges):
            self.remove_edge(*edge)
''')
    r('net-sync-removed', N, '''                u_agent = agent_manager.get_local(u_id)
                if u_agent is None:
                    u_agent = ghost = agent_manager.get_ghost(u_id, incr=0)
                    v_agent = agent_manager.get_local(v_id)
                else:
                    v_agent = ghost = agent_manager.get_ghost(v_id, incr=0)

                if ghost is None or not self.graph.has_node(ghost):
                    continue
''', '''                u_agent = agent_manager.get_local(u_id)
                if u_agent is not None:
                    v_agent = agent_manager.get_ghost(v_id, 0)
                    ghost = v_agent
                else:
                    u_agent = agent_manager.get_ghost(u_id, 0)
                    v_agent = agent_manager.get_local(v_id)
                    ghost = u_agent

                if ghost is None:
                    continue
                if ghost not in self.graph:
                    continue
''')
    r('net-sync-removed2', N, '''        sync_edges = [[] for i in range(self.comm.size)]
        for edge, ghost_idx in self.edges_to_remove.items():
            ghost = edge[ghost_idx]
            sync_edges[ghost.local_rank].append((edge[0].uid, edge[1].uid))
''', '''        sync_edges = [[] for _ in range(self.comm.Get_size())]
        for edge in self.edges_to_remove:
            u, v = edge
            ghost_rank = edge[self.edges_to_remove[edge]].local_rank
            sync_edges[ghost_rank].append((u.uid, v.uid))
''')
    r('net-untag-helper', N, '''        for rank, uids in enumerate(self.comm.alltoall(no_longer_ghosts)):
            for uid in uids:
                while agent_manager.is_ghosted_to(rank, uid):
                    agent_manager.untag_as_ghosted(rank, uid)
''', '''        self._untag_all(self.comm.alltoall(no_longer_ghosts), agent_manager)

    def _untag_all(self, ids_by_rank, agent_manager):
        for rank, uids in enumerate(ids_by_rank):
            for uid in uids:
                while agent_manager.is_ghosted_to(rank, uid):
                    agent_manager.untag_as_ghosted(rank, uid)
''')
    r('net-vertices', N, '''        for edge_key in self.edges_to_update:
            ghost_agent = edge_key[1] if edge_key[0].local_rank == self.rank else edge_key[0]
            sync_edges[ghost_agent.local_rank].append((edge_key[0].uid, edge_key[1].uid, self.graph.edges[edge_key]))
''', '''        for u, v in self.edges_to_update:
            dest = v.local_rank if u.local_rank == self.rank else u.local_rank
            data = (u.uid, v.uid, self.graph.edges[(u, v)])
            sync_edges[dest].append(data)
''')
    r('net-vertices2', N, '''            if not agent_manager.is_ghosted_to(other_rank, local_agent.uid):
                sync_agents[other_rank].append(local_agent.save())
                agent_manager.tag_as_ghosted(other_rank, local_agent.uid)
            sync_edges[other_rank].append((nodes[0].uid, nodes[1].uid, ghosted_edge.edge_attr))
''', '''            uid = local_agent.uid
            sync_edges[other_rank].append((nodes[0].uid, nodes[1].uid, ghosted_edge.edge_attr))
            if agent_manager.is_ghosted_to(other_rank, uid):
                continue
            sync_agents[other_rank].append(local_agent.save())
            agent_manager.tag_as_ghosted(other_rank, uid)
''')
    r('net-vertices3', N, '''        recv_agents = self.comm.alltoall(sync_agents)
        for rank, agents in enumerate(recv_agents):
            for agent_data in agents:
                agent = create_agent(agent_data)
                agent_manager.add_ghost(rank, agent, 1)
                self.add(agent)
''', '''        recv_agents = self.comm.alltoall(sync_agents)
        for rank in range(len(recv_agents)):
            for agent_data in recv_agents[rank]:
                agent = create_agent(agent_data)
                agent_manager.add_ghost(rank, agent)
                self.graph.add_node(agent)
''')
    r('net-sync-edges', N, '''                u_agent = agent_manager._ghost_agents.get(u_id)
                if u_agent is None:
                    u_agent = agent_manager._local_agents[u_id]
                    v_agent = ghost = agent_manager._ghost_agents[v_id].agent
                else:
                    u_agent = ghost = u_agent.agent
                    v_agent = agent_manager._local_agents[v_id]
''', '''                if u_id in agent_manager._ghost_agents:
                    u_agent = ghost = agent_manager._ghost_agents[u_id].agent
                    v_agent = agent_manager._local_agents[v_id]
                else:
                    u_agent = agent_manager._local_agents[u_id]
                    v_agent = ghost = agent_manager._ghost_agents[v_id].agent
''')
    r('net-pre-sync', N, '''        for agent in self.ghosts_to_ref:
            if self.graph.has_node(agent):
                ghost = agent_manager.get_ghost(agent.uid)
                if ghost is None:
                    agent_manager.add_ghost(agent.local_rank, agent)
                send_msg[agent.local_rank].append(agent.uid)
        self.ghosts_to_ref.clear()
''', '''        for agent in self.ghosts_to_ref:
            if agent not in self.graph:
                continue
            if not agent_manager.get_ghost(agent.uid):
                agent_manager.add_ghost(agent.local_rank, agent)
            send_msg[agent.local_rank].append(agent.uid)
        self.ghosts_to_ref = []
''')
    r('net-post-moved', N, '''            u = agent_manager.get_local(u_id)
            if u is None:
                u = agent_manager.get_ghost(u_id, incr=0)
            v = agent_manager.get_local(v_id)
            if v is None:
                v = agent_manager.get_ghost(v_id, incr=0)
            self.add_edge(u, v, **edge_attr)
''', '''            u = self._find_agent(agent_manager, u_id)
            v = self._find_agent(agent_manager, v_id)
            self.add_edge(u, v, **edge_attr)
''', '''    def _post_agents_moved_rank(self,''', '''    @staticmethod
    def _find_agent(agent_manager, uid):
        agent = agent_manager.get_local(uid)
        return agent if agent is not None else agent_manager.get_ghost(uid, incr=0)

    def _post_agents_moved_rank(self,''')
    r('net-moved-rank', N, '''                    edge_list = [e for e in self._edges(ghost, data=True)]
                    for u, v, attr in edge_list:
                        self._discard_edge_sync((u, v))
                        self.graph.remove_edge(u, v)
                        self._remove_edge_key(u, v)
                        if u.uid == agent.uid:
                            u = agent
                        else:
                            v = agent
''', '''                    for u, v, attr in list(self._edges(ghost, data=True)):
                        self._discard_edge_sync((u, v))
                        self.graph.remove_edge(u, v)
                        self._remove_edge_key(u, v)
                        u, v = (agent, v) if u.uid == uid else (u, agent)
''')
    r('net-moved-rank2', N, '''                        ge = self.ghosted_edges.get(edge_key, None)
                        if ge is None:
                            other = edge_key[1] if edge_key[0] is agent else edge_key[0]
                            ge = GhostedEdge(other, agent, self.graph.edges[edge_key])
                        self.new_edges[edge_key] = ge
''', '''                        if edge_key in self.ghosted_edges:
                            ge = self.ghosted_edges[edge_key]
                        else:
                            u, v = edge_key
                            ge = GhostedEdge(v if u is agent else u, agent, self.graph.edges[edge_key])
                        self.new_edges[edge_key] = ge
''')
    r('net-keys', N, '''        edge_key = (u_agent, v_agent)
        self.canonical_edge_keys[edge_key] = edge_key
        self.canonical_edge_keys[(v_agent, u_agent)] = edge_key
        return edge_key
''', '''        key = (u_agent, v_agent)
        for k in (key, (v_agent, u_agent)):
            self.canonical_edge_keys[k] = key
        return key
''')
    r('net-keys2', N, '''        edge_key = (u_agent, v_agent)
        self.canonical_edge_keys.pop(edge_key)
        self.canonical_edge_keys.pop((v_agent, u_agent), None)
''', '''        del self.canonical_edge_keys[u_agent, v_agent]
        self.canonical_edge_keys.pop((v_agent, u_agent), None)
''')
    r('net-has-edge', N, '''        return len(self.graph.in_edges(agent)) > 0 or len(self.graph.out_edges(agent)) > 0''', '''        if len(self.graph.out_edges(agent)) > 0:
            return True
        return len(self.graph.in_edges(agent)) != 0''')
    r('net-num-edges', N, '''        return len(self.graph.out_edges(agent)) + len(self.graph.in_edges(agent))''', '''        n_in = len(self.graph.in_edges(agent))
        n_out = len(self.graph.out_edges(agent))
        return n_in + n_out''')
    r('net-desc', N, '''        id = vals[0]
        is_directed = int(vals[1]) != 0
        return (id, is_directed)
''', '''        graph_id, directed = vals
        return graph_id, bool(int(directed))
''')
    r('net-node', N, '''            attribs = _EMPTY_DICT
            if n_vals == 4:
                attribs = json.loads(vals[3])
            agent = create_agent(n_id, agent_type, rank, **attribs)
''', '''            attribs = json.loads(vals[3]) if n_vals == 4 else {}
            agent = create_agent(n_id, agent_type, rank, **attribs)
''')
    r('net-node2', N, '''        n_vals = len(vals)
        if n_vals < 3 or n_vals > 4:
            raise ValueError
        n_id = int(vals[0])
''', '''        n_vals = len(vals)
        if not 3 <= n_vals <= 4:
            raise ValueError
        n_id = int(vals[0])
''')
    r('net-node3', N, '''        n_vals = len(vals)
        if n_vals < 3 or n_vals > 4:
            raise ValueError
        n_id = int(vals[0])
''', '''        n_vals = len(vals)
        if n_vals not in (3, 4):
            raise ValueError
        n_id = int(vals[0])
''')
    r('net-request', N, '''        graph_data.agents[agent.uid[0]] = agent
''', '''        n_id = agent.uid[0]
        graph_data.agents[n_id] = agent
''')
    r('net-edge-parse', N, '''        u_in = u_id in graph_data.agents
        v_in = v_id in graph_data.agents
        if u_in and v_in:
            u = graph_data.agents[u_id]
            v = graph_data.agents[v_id]
            if n_vals == 3:
                graph.add_edge(u, v, **(json.loads(vals[2])))
            else:
                graph.add_edge(u, v)
''', '''        agents = graph_data.agents
        u_in = u_id in agents
        v_in = v_id in agents
        if u_in and v_in:
            attribs = json.loads(vals[2]) if n_vals == 3 else {}
            graph.add_edge(agents[u_id], agents[v_id], **attribs)
''')
    r('net-edge-parse2', N, '''            v_uid = graph_data.remote_agents[v_id]
            if v_id not in requested:
                graph_data.requested_agents.append((v_uid, v_uid[2]))
                requested.add(v_id)
            u_uid = graph_data.agents[u_id].uid
''', '''            v_uid = graph_data.remote_agents[v_id]
            u_uid = graph_data.agents[u_id].uid
            if not v_id in graph_data.requested:
                graph_data.requested.add(v_id)
                graph_data.requested_agents.append((v_uid, v_uid[2]))
''')
    r('net-create-edges', N, '''        u = graph_data.agents[edge[0][0]]
        v = graph_data.agents[edge[1][0]]
        if len(edge) == 3:
            graph.add_edge(u, v, **(json.loads(edge[2])))
        else:
            graph.add_edge(u, v)
''', '''        u_uid, v_uid = edge[0], edge[1]
        attribs = {}
        if len(edge) == 3:
            attribs = json.loads(edge[2])
        graph.add_edge(graph_data.agents[u_uid[0]], graph_data.agents[v_uid[0]], **attribs)
''')
    r('net-read', N, '''        for i, line in enumerate(f_in):
            line = line.strip()
            if parse_nodes:
                if line == 'EDGES':
                    parse_nodes = False
                else:
                    _parse_node(line, i + 2, graph_data, ctx, create_agent)
            else:
                _parse_edge(line, i + 2, g, graph_data)
''', '''        for line_num, line in enumerate(f_in, start=2):
            line = line.strip()
            if not parse_nodes:
                _parse_edge(line, line_num, g, graph_data)
            elif line == 'EDGES':
                parse_nodes = False
            else:
                _parse_node(line, line_num, graph_data, ctx, create_agent)
''')
    r('net-read2', N, '''        g = DirectedSharedNetwork(gid, ctx.comm) if is_directed else UndirectedSharedNetwork(gid, ctx.comm)
''', '''        network_class = DirectedSharedNetwork if is_directed else UndirectedSharedNetwork
        g = network_class(gid, ctx.comm)
''')
    r('net-write-node', N, '''    line = f'{n} {agent_type} {rank}'
    if (len(attrib) > 0):
        line = f'{line} {json.dumps(attrib)}'
    f_out.write(line)
    f_out.write('\\n')
''', '''    if attrib:
        f_out.write(f'{n} {agent_type} {rank} {json.dumps(attrib)}\\n')
    else:
        f_out.write(f'{n} {agent_type} {rank}\\n')
''')
    r('net-write-edges', N, '''        line = f'{u} {v}'
        if (len(attrib) > 0):
            line = f'{line} {json.dumps(attrib)}'
        f_out.write(line)
        f_out.write('\\n')
''', '''        parts = f'{u} {v}'
        if attrib:
            parts += ' ' + json.dumps(attrib)
        f_out.write(parts + '\\n')
''')
    r('net-remove', N, '''        if self.graph.has_node(agent):
            for edge in list(self._edges(agent)):
                self._discard_edge_sync(edge)
                self._remove_edge_key(*edge)
''', '''        if agent in self.graph:
            for u, v in list(self._edges(agent)):
                self._discard_edge_sync((u, v))
                self._remove_edge_key(u, v)
''')
    r('net-init', N, '''        self.edges_to_update = set()
        self.ghosted_edges = {}
        self.new_edges = {}
        self.edges_to_remove = {}
''', '''        self.ghosted_edges = dict()
        self.new_edges = dict()
        self.edges_to_remove = dict()
        self.edges_to_update = set()
''')
    r('net-contains', N, '''        return self.graph.has_node(node)
''', '''        return node in self.graph
''')
    r('net-iter', N, '''        return self.graph.__iter__()
''', '''        return iter(self.graph)
''')
