"""Behaviour-preserving edits: spaces, value layers, checkpoints, geometry, parameters, random, util."""
S = 'space.py'


def fill(r):
    r('sp-init', S, '''        self.gather = self._gather_1d

        if bounds.yextent > 0:
            self.gather = self._gather_2d

        if bounds.zextent > 0:
            self.gather = self._gather_3d
''', '''        if bounds.zextent > 0:
            self.gather = self._gather_3d
        elif bounds.yextent > 0:
            self.gather = self._gather_2d
        else:
            self.gather = self._gather_1d
''')
    r('sp-init2', S, '''        local_bounds = self.get_local_bounds()
        self.random_pt = self._create_random_pt_func(local_bounds)
''', '''        self.random_pt = self._create_random_pt_func(self.get_local_bounds())
''')
    r('sp-random', S, '''        if nd == 1:
            def f(rng):
                x = rng.integers(local_bounds.xmin, local_bounds.xmin + local_bounds.xextent)
                return DiscretePoint(x, 0, 0)

            return f

        elif nd == 2:''', '''        x_min, x_max = local_bounds.xmin, local_bounds.xmin + local_bounds.xextent
        if nd == 1:
            return lambda rng: DiscretePoint(rng.integers(x_min, x_max), 0, 0)

        if nd == 2:''')
    r('sp-random2', S, '''            def f(rng):
                x = rng.uniform(local_bounds.xmin, local_bounds.xmin + local_bounds.xextent)
                y = rng.uniform(local_bounds.ymin, local_bounds.ymin + local_bounds.yextent)
                return ContinuousPoint(x, y, 0)

            return f
''', '''            def random_2d(gen):
                x_max = local_bounds.xmin + local_bounds.xextent
                y_max = local_bounds.ymin + local_bounds.yextent
                px = gen.uniform(local_bounds.xmin, x_max)
                py = gen.uniform(local_bounds.ymin, y_max)
                return ContinuousPoint(px, py, 0)

            return random_2d
''')
    r('sp-fill', S, '''        for bd in self._get_buffer_data():
            data_list = send_data[bd[0]]
            ranges = bd[1]
            self.gather(data_list, ranges)
        return send_data
''', '''        for nghr_rank, nghr_ranges in self._get_buffer_data():
            self.gather(send_data[nghr_rank], nghr_ranges)
        return send_data
''')
    r('sp-fill2', S, '''        send_data = [[] for i in range(self._cart_comm.size)]
        for bd in self._get_buffer_data():
            data_list = send_data[bd[0]]
            ranges''', '''        comm_size = self._cart_comm.size
        send_data = []
        for _ in range(comm_size):
            send_data.append([])
        for bd in self._get_buffer_data():
            data_list = send_data[bd[0]]
            ranges''')
    r('sp-recv', S, '''            for data in data_list:
                agent_data = data[0]
                pt_data = data[1]
                agent = agent_manager.get_ghost(agent_data[0])
                if agent is None:
                    agent = create_agent(agent_data)
                    agent_manager.add_ghost(sending_rank, agent)

                self.buffered_agents.append(agent)
                self.add(agent)
                pt._reset(pt_data)
                self.move(agent, pt)
''', '''            for agent_data, pt_data in data_list:
                ghost = self._ghost_for(agent_data, sending_rank, agent_manager, create_agent)
                self.add(ghost)
                pt._reset(pt_data)
                self.move(ghost, pt)
                self.buffered_agents.append(ghost)

    def _ghost_for(self, agent_data, sending_rank, agent_manager, create_agent):
        uid = agent_data[0]
        ghost = agent_manager.get_ghost(uid)
        if ghost is not None:
            return ghost
        ghost = create_agent(agent_data)
        agent_manager.add_ghost(sending_rank, ghost)
        return ghost
''')
    r('sp-recv2', S, '''        pt = DiscretePoint(0, 0, 0)
        for sending_rank, data_list in enumerate(recv_data):
            for data in data_list:
                agent_data = data[0]
                pt_data = data[1]
''', '''        pt = DiscretePoint(0, 0, 0)
        for sending_rank in range(len(recv_data)):
            for data in recv_data[sending_rank]:
                agent_data, pt_data = data
''')
    r('sp-recv3', S, '''                pt._reset(pt_data)
                self.move(agent, pt)
''', '''                self.move(agent, DiscretePoint(pt_data[0], pt_data[1], pt_data[2]))
''')
    r('sp-pre', S, '''        if self.do_synch:
            for agent in self.buffered_agents:
                self.remove(agent)
                agent_manager.remove_ghost(agent)

            self.buffered_agents.clear()
''', '''        if not self.do_synch:
            return
        for ghost in self.buffered_agents:
            agent_manager.remove_ghost(ghost)
            self.remove(ghost)
        self.buffered_agents = []
''')
    r('sp-pre2', S, '''            for agent in self.buffered_agents:
                self.remove(agent)
                agent_manager.remove_ghost(agent)

            self.buffered_agents.clear()
''', '''            while self.buffered_agents:
                agent = self.buffered_agents.pop(0)
                self.remove(agent)
                agent_manager.remove_ghost(agent)
''')
    r('sp-synch', S, '''        if self.do_synch:
            send_data = self._fill_send_data()
            recv_data = self._cart_comm.alltoall(send_data)
            self._process_recv_data(recv_data, agent_manager, create_agent)
''', '''        if not self.do_synch:
            return
        received = self._cart_comm.alltoall(self._fill_send_data())
        self._process_recv_data(received, agent_manager, create_agent)
''')
    r('sp-gather1', S, '''        for x in range(ranges[0], ranges[1]):
            pt._reset1D(x)
            agents = self.get_agents(pt)
            for a in agents:
                data_list.append((a.save(), (pt.x, pt.y, pt.z)))
''', '''        x_start, x_end = ranges[0], ranges[1]
        for x in range(x_start, x_end):
            pt._reset1D(x)
            data_list.extend((a.save(), (pt.x, pt.y, pt.z)) for a in self.get_agents(pt))
''')
    r('sp-gather2', S, '''        pt = DiscretePoint(0, 0, 0)
        for x in range(ranges[0], ranges[1]):
            for y in range(ranges[2], ranges[3]):
                pt._reset2D(x, y)
                agents = self.get_agents(pt)
                for a in agents:
                    data_list.append((a.save(), (pt.x, pt.y, pt.z)))
''', '''        x_start, x_end, y_start, y_end = ranges[:4]
        pt = DiscretePoint(0, 0, 0)
        for x in range(x_start, x_end):
            for y in range(y_start, y_end):
                pt._reset2D(x, y)
                self._gather_at(pt, data_list)

    def _gather_at(self, pt, data_list):
        coords = (pt.x, pt.y, pt.z)
        for agent in self.get_agents(pt):
            data_list.append((agent.save(), coords))
''')
    r('sp-gather3', S, '''        for x in range(ranges[0], ranges[1]):
            for y in range(ranges[2], ranges[3]):
                for z in range(ranges[4], ranges[5]):
                    pt._reset3D(x, y, z)
                    agents = self.get_agents(pt)
                    for a in agents:
                        data_list.append((a.save(), (pt.x, pt.y, pt.z)))
''', '''        xs = range(ranges[0], ranges[1])
        ys = range(ranges[2], ranges[3])
        zs = range(ranges[4], ranges[5])
        for x in xs:
            for y in ys:
                for z in zs:
                    pt._reset3D(x, y, z)
                    for a in self.get_agents(pt):
                        item = (a.save(), (pt.x, pt.y, pt.z))
                        data_list.append(item)
''')
    r('sp-gather3b', S, '''        pt = DiscretePoint(0, 0, 0)
        for x in range(ranges[0], ranges[1]):
            for y in range(ranges[2], ranges[3]):
                for z in range(ranges[4], ranges[5]):
                    pt._reset3D(x, y, z)
                    agents = self.get_agents(pt)
                    for a in agents:
                        data_list.append((a.save(), (pt.x, pt.y, pt.z)))
''', '''        for x in range(ranges[0], ranges[1]):
            for y in range(ranges[2], ranges[3]):
                for z in range(ranges[4], ranges[5]):
                    for a in self.get_agents(DiscretePoint(x, y, z)):
                        data_list.append((a.save(), (x, y, z)))
''')
    r('sp-cfill', S, '''            data_list = send_data[bd[0]]
            box = bd[1]
            bounds = BoundingBox(box[0], box[1] - box[0], box[2], box[3] - box[2],
                                 box[4], box[5] - box[4])
            for a in self.get_agents_within(bounds):
                pt = self.get_location(a)
                data_list.append((a.save(), (pt.x, pt.y, pt.z)))
''', '''            rank, box = bd
            x1, x2, y1, y2, z1, z2 = box
            bounds = BoundingBox(xmin=x1, xextent=x2 - x1, ymin=y1, yextent=y2 - y1, zmin=z1, zextent=z2 - z1)
            for agent in self.get_agents_within(bounds):
                location = self.get_location(agent)
                coords = (location.x, location.y, location.z)
                send_data[rank].append((agent.save(), coords))
''')
    r('sp-crecv', S, '''            for agent_data, pt_data in data_list:
                agent = agent_manager.get_ghost(agent_data[0])
                if agent is None:
                    agent = create_agent(agent_data)
                    agent_manager.add_ghost(sending_rank, agent)
                self.buffered_agents.append(agent)
''', '''            for agent_data, pt_data in data_list:
                uid = agent_data[0]
                agent = agent_manager.get_ghost(uid)
                if agent is None:
                    agent = create_agent(agent_data)
                    agent_manager.add_ghost(sending_rank, agent)
                self.buffered_agents += [agent]
''')
    r('sp-contains', S, '''        return self.contains(agent)
''', '''        is_member = self.contains(agent)
        return is_member
''')
    r('sp-moving', S, '''        self.remove(moving_agent)

    def _agents_moved_rank(''', '''        agent = moving_agent
        self.remove(agent)

    def _agents_moved_rank(''')

    V = 'value_layer.py'
    G = 'geometry.py'
    K = 'checkpoint.py'
    P = 'parameters.py'
    r('vl-impl2-get', V, '''        self.borders._transform(pt, self.tpt)
        npt = self.tpt.coordinates + self.pt_translation
        return self.grid[npt[1], npt[0]]
''', '''        x, y = self._index(pt)
        return self.grid[y, x]

    def _index(self, pt):
        self.borders._transform(pt, self.tpt)
        npt = self.tpt.coordinates + self.pt_translation
        return npt[0], npt[1]
''')
    r('vl-impl2-set', V, '''        npt = self.tpt.coordinates + self.pt_translation
        self.grid[npt[1], npt[0]] = val
''', '''        npt = self.pt_translation + self.tpt.coordinates
        row, col = npt[1], npt[0]
        self.grid[row, col] = val
''')
    r('vl-impl1-init', V, '''        if borders == BorderType.Sticky:
            self.borders = GridStickyBorders(bounds)
        elif borders == BorderType.Periodic:
            self.borders = GridPeriodicBorders(bounds)
        if init_value == 'random':
            self.grid = torch.rand((bounds.xextent,), dtype=dtype)
        else:
            self.grid = torch.full((bounds.xextent, ), init_value, dtype=dtype)
''', '''        if borders == BorderType.Periodic:
            self.borders = GridPeriodicBorders(bounds)
        elif borders == BorderType.Sticky:
            self.borders = GridStickyBorders(bounds)
        shape = (bounds.xextent, )
        self.grid = torch.rand(shape, dtype=dtype) if init_value == 'random' else torch.full(shape, init_value, dtype=dtype)
''')
    r('vl-nghs', V, '''        grid_idxs = nghs + self.ngh_translation
        return (self.grid[grid_idxs], nghs)
''', '''        values = self.grid[nghs + self.ngh_translation]
        return values, nghs
''')
    r('vl-nghs2', V, '''        grid_idxs = nghs + self.ngh_translation
        nghs[[0, 1]] = nghs[[1, 0]]
        return (self.grid[grid_idxs[0], grid_idxs[1]], nghs)
''', '''        grid_idxs = nghs + self.ngh_translation
        values = self.grid[grid_idxs[0], grid_idxs[1]]
        nghs[[0, 1]] = nghs[[1, 0]]
        return (values, nghs)
''')
    r('vl-nghs3', V, '''        grid_idxs = nghs + self.ngh_translation
        nghs[[0, 1]] = nghs[[1, 0]]
        return (self.grid[grid_idxs[0], grid_idxs[1]], nghs)
''', '''        rows, cols = nghs + self.ngh_translation
        nghs[[0, 1]] = nghs[[1, 0]]
        return (self.grid[rows, cols], nghs)
''')
    r('vl-init', V, '''        if bounds.yextent == 0:
            self.impl = _Impl1D(bounds, borders, init_value, dtype)
        elif bounds.zextent == 0:
            self.impl = _Impl2D(bounds, borders, init_value, dtype)
        else:
            self.impl = _Impl3D(bounds, borders, init_value, dtype)
''', '''        if bounds.yextent == 0:
            impl_class = _Impl1D
        elif bounds.zextent == 0:
            impl_class = _Impl2D
        else:
            impl_class = _Impl3D
        self.impl = impl_class(bounds, borders, init_value, dtype)
''')
    r('vl-counts', V, '''    if num_slices == 1:
        return np.apply_along_axis(lambda row: np.prod(row[:num_dims]), 1, meta_data)
    elif num_slices == 2:''', '''    if num_slices == 1:
        def count(row):
            return np.prod(row[:num_dims])
        return np.apply_along_axis(count, 1, meta_data)
    if num_slices == 2:''')
    r('vl-bufx', V, '''        self.grid[:, -self.buffer_size:] = self.grid[:, self.buffer_size: self.buffer_size * 2]
        # set left buffer to right unbuffered
        self.grid[:, 0: self.buffer_size] = self.grid[:, -self.buffer_size * 2: -self.buffer_size]
''', '''        bs = self.buffer_size
        self.grid[:, -bs:] = self.grid[:, bs:2 * bs]
        self.grid[:, :bs] = self.grid[:, -2 * bs:-bs]
''')
    r('vl-bufself', V, '''        for func in self.buffer_self:
            func()
''', '''        for buffer_func in self.buffer_self:
            buffer_func()
''')
    r('vl-wrap', V, '''        if procs_per_dim > 1:
            if start_val < 0:
                start_val += full_extent
                end_val += full_extent
            elif start_val >= full_extent:
                start_val -= full_extent
                end_val -= full_extent
''', '''        if procs_per_dim <= 1:
            return (start_val, end_val)
        shift = 0
        if start_val < 0:
            shift = full_extent
        elif start_val >= full_extent:
            shift = -full_extent
        start_val += shift
        end_val += shift
''')
    r('vl-initval', V, '''        if init_value != 'random':
            lb = self.local_bounds
            x1 = lb.xmin + self.impl.pt_translation[0]
            x2 = lb.xmin + lb.xextent + self.impl.pt_translation[0]
''', '''        if init_value != 'random':
            lb = self.local_bounds
            x1 = lb.xmin + self.impl.pt_translation[0]
            x2 = x1 + lb.xextent
''')
    r('vl-buffered', V, '''            self.non_buff_grid_offsets[0:2] = buffer_size
            if self.local_bounds.xmin > bounds.xmin:
                xmin = self.local_bounds.xmin - buffer_size
''', '''            lb = self.local_bounds
            self.non_buff_grid_offsets[0:2] = buffer_size
            if lb.xmin > bounds.xmin:
                xmin = lb.xmin - buffer_size
''')
    r('vl-buffered2', V, '''            if self.local_bounds.xmin > bounds.xmin:
                xmin = self.local_bounds.xmin - buffer_size

            # extent is x2 to create buffer on both sides
            xextent = self.local_bounds.xextent + (buffer_size * 2)
''', '''            lb = self.local_bounds
            xextent, xmin = lb.xextent, lb.xmin
            if lb.xmin > bounds.xmin:
                xmin -= buffer_size
            xextent += 2 * buffer_size
''')
    r('vl-buffered3', V, '''                if self.local_bounds.xmin + self.local_bounds.xextent < xmax:
                    # min is buffer_size less so need to increase extent to cover the space
                    xextent = self.local_bounds.xextent + (buffer_size * 2)
                    self.non_buff_grid_offsets[1] = buffer_size
                else:
                    xextent = self.local_bounds.xextent + buffer_size
''', '''                lb = self.local_bounds
                xextent = lb.xextent + buffer_size
                if lb.xmin + lb.xextent < xmax:
                    xextent += buffer_size
                    self.non_buff_grid_offsets[1] = buffer_size
''')
    r('vl-sync1', V, '''            row = bounds[0] + r_trans
            shape = (bounds[1] - bounds[0],)
            stop_row = row + shape[0]
            ngh_buffers.append(
                (ngh_rank, shape[0], shape, bounds, (slice(row, stop_row),)))
''', '''            n_rows = bounds[1] - bounds[0]
            row = bounds[0] + r_trans
            rows = slice(row, row + n_rows)
            ngh_buffers.append((ngh_rank, n_rows, (n_rows, ), bounds, (rows,)))
''')
    r('vl-sort', V, '''        ngh_buffers.sort(key=lambda data: data[0])
''', '''        ngh_buffers = sorted(ngh_buffers, key=lambda data: data[0])
''')
    r('vl-synch', V, '''        for ngh_rank, size, _, _, tslice in ngh_buffers:
            disp = send_displs[ngh_rank]
            send_buf[disp: disp + size] = self.grid[tslice].numpy().reshape(size)
            send_displs[ngh_rank] += size
''', '''        for ngh_buffer in ngh_buffers:
            ngh_rank, size, tslice = ngh_buffer[0], ngh_buffer[1], ngh_buffer[4]
            start = send_displs[ngh_rank]
            stop = start + size
            send_buf[start:stop] = self.grid[tslice].numpy().reshape(size)
            send_displs[ngh_rank] = stop
''')
    r('vl-synch2', V, '''        if self.cart_comm.Get_size() == 1:
            return
''', '''        if self.cart_comm.Get_size() < 2:
            return
''')
    r('vl-synch3', V, '''        self.cart_comm.Alltoallv(self.send_data[0], self.recv_data[0])
        recv_msg, recv_buf_data = self.recv_data
''', '''        recv_msg, recv_buf_data = self.recv_data
        self.cart_comm.Alltoallv(send_msg, recv_msg)
''')
    r('vl-swap', V, '''        self.read_layer, self.write_layer = self.write_layer, self.read_layer
''', '''        read_layer = self.read_layer
        self.read_layer = self.write_layer
        self.write_layer = read_layer
''')
    r('geo-dims', G, '''    if box.yextent == 0 and box.zextent == 0:
        return 1
    elif box.zextent == 0:
        return 2
    return 3
''', '''    if box.zextent != 0:
        return 3
    return 1 if box.yextent == 0 else 2
''')
    r('geo-1ds', G, '''    x_pts = pt[0] + _xoffset_1d
    x_idxs = (x_pts >= min_max[0]) & (x_pts <= min_max[1])
    in_range_pts = x_pts[x_idxs]
    return in_range_pts
''', '''    xs = pt[0] + _xoffset_1d
    return xs[(xs <= min_max[1]) & (xs >= min_max[0])]
''')
    r('geo-2dp', G, '''    x_extent = min_max[1] - min_max[0] + 1
    x_pts = pt[0] + _xoffset_2d
    ncs = np.mod((x_pts - min_max[0]), x_extent)
    x_pts = np.where(ncs < 0, min_max[1] + ncs, min_max[0] + ncs)
''', '''    x_min, x_max = min_max[0], min_max[1]
    x_extent = 1 + x_max - x_min
    x_pts = _xoffset_2d + pt[0]
    ncs = np.mod(x_pts - x_min, x_extent)
    x_pts = np.where(ncs < 0, x_max + ncs, x_min + ncs)
''')
    r('cp-random', K, '''        state = random.default_rng.bit_generator.state
        self.random_state = [random.seed, state]
''', '''        self.random_state = [random.seed, random.default_rng.bit_generator.state]
''')
    r('cp-random2', K, '''        random.seed = self.random_state[0]
        random.default_rng.bit_generator.state = self.random_state[1]
''', '''        seed, state = self.random_state
        random.default_rng.bit_generator.state = state
        random.seed = seed
''')
    r('cp-evtdata', K, '''            if isinstance(v, Callable):
                meta[k] = v(evt.evt)
            else:
                meta[k] = v
''', '''            meta[k] = v(evt.evt) if isinstance(v, Callable) else v
''')
    r('cp-evtdata2', K, '''        evt_data = EvtData()
        meta = {}
''', '''        evt_data = EvtData()
        evt_data.at = evt.at
        meta = dict()
''')
    r('cp-agents', K, '''        for agent in agents:
            self.agent_state.append(agent.save())
''', '''        self.agent_state.extend(agent.save() for agent in agents)
''')
    r('cp-agents2', K, '''        for agent_state in self.agent_state:
            agent = restore_agent(agent_state)
            yield agent
''', '''        for state in self.agent_state:
            yield restore_agent(state)
''')
    r('cp-sched', K, '''        ss = self.schedule_state
        ss['last_count'] = runner.schedule.last_count
        ss['tick'] = runner.schedule.tick
''', '''        ss = self.schedule_state
        sched = runner.schedule
        ss['tick'] = sched.tick
        ss['last_count'] = sched.last_count
''')
    r('cp-sched2', K, '''        ss['evts'] = evts
''', '''        self.schedule_state['evts'] = evts
''')
    r('cp-space', K, '''            location = space.get_location(agent)
            locations[agent.uid] = None if location is None else location.coordinates.copy()
        self.spaces[space.name] = locations
''', '''            location = space.get_location(agent)
            if location is not None:
                locations[agent.uid] = location.coordinates.copy()
            else:
                locations[agent.uid] = None
        self.spaces[space.name] = locations
''')
    r('cp-space2', K, '''        if isinstance(space, SharedGrid):
            for agent in context.agents():
                location = locations[agent.uid]
                if location is not None:
                    space.move(agent, DiscretePoint(location[0], location[1], location[2]))
        else:
            for agent in context.agents():
                location = locations[agent.uid]
                if location is not None:
                    space.move(agent, ContinuousPoint(location[0], location[1], location[2]))
''', '''        point_class = DiscretePoint if isinstance(space, SharedGrid) else ContinuousPoint
        for agent in context.agents():
            location = locations[agent.uid]
            if location is None:
                continue
            space.move(agent, point_class(location[0], location[1], location[2]))
''')
    r('cp-net', K, '''                edge_data = [nd.uid]
                edge_data.append([(n.uid, n.local_rank, dict(network.graph[nd][n])) for n in network.graph.neighbors(nd)])
                data.append(edge_data)
''', '''                neighbors = [(ngh.uid, ngh.local_rank, dict(network.graph[nd][ngh])) for ngh in network.graph.neighbors(nd)]
                data.append([nd.uid, neighbors])
''')
    r('cp-net2', K, '''            for nd in filter(lambda n: n.local_rank == rank, network.graph.nodes):
                edge_data = [nd.uid]
                edge_data.append([(n.uid,''', '''            local_nodes = [n for n in network.graph.nodes if n.local_rank == rank]
            for nd in local_nodes:
                edge_data = [nd.uid]
                edge_data.append([(n.uid,''')
    r('cp-addedges', K, '''            other_node = self.context.agent(other_uid)
            if other_node is None:
                other_node = self.context.ghost_agent(other_uid)
            if other_node is None:
                self.requests[other_uid] = (other_uid, other_local_rank)
                self.ghost_edges.append(edge_tuple_maker(node.uid, other_uid, e_attributes))
            else:
                edge_adder(node, other_node, e_attributes)
''', '''            other = self._find(other_uid)
            if other is not None:
                edge_adder(node, other, e_attributes)
                continue
            self.ghost_edges.append(edge_tuple_maker(node.uid, other_uid, e_attributes))
            self.requests[other_uid] = (other_uid, other_local_rank)

    def _find(self, uid):
        agent = self.context.agent(uid)
        return self.context.ghost_agent(uid) if agent is None else agent
''')
    r('cp-ghostedges', K, '''        for edge_t, u, v, e_attribs in self.ghost_edges:
            if edge_t == 0:
                self.network.add_edge(self.context.agent(u), requests[v], **e_attribs)
            else:
                self.network.add_edge(requests[u], self.context.agent(v), **e_attribs)
''', '''        for edge in self.ghost_edges:
            edge_t, u, v, e_attribs = edge
            if edge_t == 0:
                source, target = self.context.agent(u), requests[v]
            else:
                source, target = requests[u], self.context.agent(v)
            self.network.add_edge(source, target, **e_attribs)
''')
    r('cp-restore-net', K, '''        restorers = []
''', '''        restorers = list()
''')
    r('cp-restorenet2', K, '''        requested_agents = context.request_agents([request for request in requests.values()],
                                                  create_agent)
        for agent in requested_agents:
            requests[agent.uid] = agent
''', '''        for agent in context.request_agents(list(requests.values()), create_agent):
            requests[agent.uid] = agent
''')
    r('cp-restsched', K, '''            if evt_tag == tag:
                evt_type = metadata['__type']
                evt = None
''', '''            if evt_tag != tag:
                pass
            else:
                evt_type = metadata['__type']
                evt = None
''')
    r('cp-init', K, '''        self.random_state = []
        self.schedule_state = {}
        self.agent_state = []
        self.other_state = {}
''', '''        self.agent_state = list()
        self.random_state = list()
        self.schedule_state = dict()
        self.other_state = dict()
''')
    r('pa-init', P, '''    if parameters != '':
        params.update(json.loads(parameters))
''', '''    if len(parameters) > 0:
        overrides = json.loads(parameters)
        params.update(overrides)
''')
    r('pa-seed', P, '''    if 'random.seed' in params:
        random.init(params['random.seed'])
''', '''    if 'random.seed' in params:
        rng_seed = params['random.seed']
        random.init(rng_seed)
''')
    r('pa-loader', P, '''        params = yaml.load(f_in, Loader=yaml.SafeLoader)
''', '''        params = yaml.safe_load(f_in)
''')
    r('ra-init', 'random.py', '''    if rng_seed is None:
        seed = int(time.time())
    else:
        seed = rng_seed
''', '''    seed = int(time.time()) if rng_seed is None else rng_seed
''')
    r('ra-order', 'random.py', '''    torch.manual_seed(seed)
    default_rng = np.random.default_rng(seed)
''', '''    default_rng = np.random.default_rng(seed)
    torch.manual_seed(seed)
''')
    r('ut-empty', 'util.py', '''    for nl in lst:
        if len(nl) > 0:
            return False
    return True
''', '''    return all(len(nl) == 0 for nl in lst)
''')
    r('ut-empty2', 'util.py', '''    for nl in lst:
        if len(nl) > 0:
            return False
    return True
''', '''    return not any(lst)
''')
    r('ut-free', 'util.py', '''    op = Path(file_path)
    p = Path(file_path)
    suffix = p.suffix
    infix = 1
    while (p.exists()):
        p = op.with_name(f'{op.stem}_{infix}{suffix}')
        infix += 1

    return p
''', '''    original = Path(file_path)
    candidate = original
    infix = 1
    while candidate.exists():
        candidate = original.with_name(f'{original.stem}_{infix}{original.suffix}')
        infix = infix + 1
    return candidate
''')
