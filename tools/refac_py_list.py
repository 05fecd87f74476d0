def fill(r):
    C, K, SC, L = 'context.py', 'core.py', 'schedule.py', 'logging.py'
    # ---- context
    r('ctx-oob-helper', C, '''    def _gather_oob_data(self, oob_agents: List):
''', '''    def _collect_moving(self, agent, agent_id, dest, proj):
        data = [agent.save()]
        if agent_id in self._agent_manager._ghosted_agents:
            ranks = self._agent_manager.delete_ghosted(agent_id)
            data.append(ranks)
        proj._agent_moving_rank(agent, dest, data, self._agent_manager)
        for nb_proj in self.non_bounded_projs:
            nb_proj._agent_moving_rank(agent, dest, data, self._agent_manager)
        return data

    def _gather_oob_data(self, oob_agents: List):
''', '''                    data = [agent.save()]
                    if agent_id in self._agent_manager._ghosted_agents:
                        data.append(self._agent_manager.delete_ghosted(agent_id))

                    proj._agent_moving_rank(agent, ngh_rank, data, self._agent_manager)
                    for nb_proj in self.non_bounded_projs:
                        nb_proj._agent_moving_rank(agent, ngh_rank, data, self._agent_manager)
''', '''                    data = self._collect_moving(agent, agent_id, ngh_rank, proj)
''')
    r('ctx-oob-cond', C, '''                if agent is None:
                    # already removed
                    data = [(agent_id,)]
                else:
                    oob_agents.append((agent, ngh_rank))
                    del self._agents_by_type[agent_id[1]][agent_id]
                    data = [agent.save()]
                    if agent_id in self._agent_manager._ghosted_agents:
                        data.append(self._agent_manager.delete_ghosted(agent_id))

                    proj._agent_moving_rank(agent, ngh_rank, data, self._agent_manager)
                    for nb_proj in self.non_bounded_projs:
                        nb_proj._agent_moving_rank(agent, ngh_rank, data, self._agent_manager)

                # send to ngh rank a list of lists - inner list
                # is [(agent_id, agent_state), (projection id, and projection data)]
                send_data[ngh_rank].append([data, (pid, pt)])
''', '''                if agent is None:
                    # already removed
                    send_data[ngh_rank].append([[(agent_id,)], (pid, pt)])
                    continue
                am = self._agent_manager
                agents_of_type = self._agents_by_type[agent_id[1]]
                del agents_of_type[agent_id]
                oob_agents.append((agent, ngh_rank))
                data = [agent.save()]
                if agent_id in am._ghosted_agents:
                    data.append(am.delete_ghosted(agent_id))

                proj._agent_moving_rank(agent, ngh_rank, data, am)
                for nb_proj in self.non_bounded_projs:
                    nb_proj._agent_moving_rank(agent, ngh_rank, data, am)

                send_data[ngh_rank].append([data, (pid, pt)])
''')
    r('ctx-recv-unpack', C, '''            for data in data_list:
                # agent_data_list: [(agent id tuple, agent state), optional ghosting data]
                agent_data_list = data[0]
                # (projection_id, new location as np.array)
                proj_data = data[1]

                uid = agent_data_list[0][0]
''', '''            for agent_data_list, proj_data in data_list:
                uid = agent_data_list[0][0]
''', '''                self.bounded_projs[proj_data[0]]._move_oob_agent(agent, proj_data[1])
''', '''                proj_id, location = proj_data
                self.bounded_projs[proj_id]._move_oob_agent(agent, location)
''')
    r('ctx-ghosted-helper', C, '''    def _process_recv_oob_data(''', '''    def _adopt_ghosting(self, agent_data, uid):
        if len(agent_data) != 2:
            return
        ghosted_data = agent_data[1]
        # this rank should not send to self
        ghosted_data.pop(self.rank, None)
        self._agent_manager.set_as_ghosted(ghosted_data, uid)

    def _process_recv_oob_data(''', '''                    if len(agent_data_list) == 2:
                        ghosted_data = agent_data_list[1]
                        # remove any ghosted data for this rank
                        # so this rank doesn't try to send to self
                        ghosted_data.pop(self.rank, None)
                        self._agent_manager.set_as_ghosted(ghosted_data, agent.uid)
''', '''                    self._adopt_ghosting(agent_data_list, agent.uid)
''', '''                if len(agent_data) == 2:
                    ghosted_data = agent_data[1]
                    # remove any ghosted data for this rank
                    # so this rank doesn't try to send to self
                    ghosted_data.pop(self.rank, None)
                    self._agent_manager.set_as_ghosted(ghosted_data, agent.uid)
''', '''                self._adopt_ghosting(agent_data, agent.uid)
''')
    r('ctx-removed-ghosts', C, '''        send_data = [[] for i in range(self.comm.size)]
        for gh in self.removed_ghosteds:
            for rank in gh.ghost_ranks:
                send_data[rank].append(gh.agent.uid)
        recv_data = self.comm.alltoall(send_data)
        for updates in recv_data:
            for removed_id in updates:
                ghost = self._agent_manager.get_ghost(removed_id)
                for proj in self.projections.values():
                    if ghost in proj:
                        proj.remove(ghost)
                self._agent_manager.delete_ghost(removed_id)

        self.removed_ghosteds.clear()
''', '''        removed_by_rank = [list() for _ in range(self.comm.size)]
        for removed in self.removed_ghosteds:
            uid = removed.agent.uid
            for rank in removed.ghost_ranks.keys():
                removed_by_rank[rank].append(uid)
        self.removed_ghosteds.clear()
        mgr = self._agent_manager
        for removed_id in itertools.chain(*self.comm.alltoall(removed_by_rank)):
            ghost = mgr.get_ghost(removed_id)
            for proj in self.projections.values():
                if ghost in proj:
                    proj.remove(ghost)
            mgr.delete_ghost(removed_id)
''')
    r('ctx-update-ghosts', C, '''        for _, gh_agent in self._agent_manager._ghosted_agents.items():
            for g_rank in gh_agent.ghost_ranks:
                send_data[g_rank].append(gh_agent.agent.save())
        recv_data = self.comm.alltoall(send_data)
        for updates in recv_data:
            for update in updates:
                ghost = self._agent_manager._ghost_agents[update[0]]
                ghost.agent.update(*update[1:])
''', '''        for gh_agent in self._agent_manager._ghosted_agents.values():
            agent = gh_agent.agent
            for g_rank in gh_agent.ghost_ranks:
                send_data[g_rank].append(agent.save())
        ghosts = self._agent_manager._ghost_agents
        for updates in self.comm.alltoall(send_data):
            for update in updates:
                uid, state = update[0], update[1:]
                ghosts[uid].agent.update(*state)
''')
    r('ctx-sync-split', C, '''    def synchronize(self, restore_agent: Callable, sync_ghosts: bool = True):
''', '''    def _exchange_oob(self, restore_agent, moved, ghosts_to_remove):
        self._process_recv_oob_data(self.comm.alltoall(self._gather_oob_data(moved)), ghosts_to_remove, restore_agent)

    def synchronize(self, restore_agent: Callable, sync_ghosts: bool = True):
''', '''        send_data = self._gather_oob_data(oob_moved_agents)
        recv_data = self.comm.alltoall(send_data)
        ghosts_to_remove = []
        self._process_recv_oob_data(recv_data, ghosts_to_remove, restore_agent)
        any_moved''', '''        ghosts_to_remove = []
        self._exchange_oob(restore_agent, oob_moved_agents, ghosts_to_remove)
        any_moved''')
    r('ctx-sync-post', C, '''                for pid, proj in self.projections.items():
                    if pid not in self.bounded_projs:
                        proj._synch_ghosts(self._agent_manager, restore_agent)
''', '''                for pid in self.projections:
                    if pid in self.bounded_projs:
                        continue
                    self.projections[pid]._synch_ghosts(self._agent_manager, restore_agent)
''')
    r('ctx-contains-type', C, '''        return True if agent_type in self._agents_by_type and len(self._agents_by_type[agent_type]) > 0 else False
''', '''        return len(self._agents_by_type.get(agent_type, {})) > 0
''')
    r('ctx-contains-type2', C, '''        return True if agent_type in self._agents_by_type and len(self._agents_by_type[agent_type]) > 0 else False
''', '''        if agent_type not in self._agents_by_type:
            return False
        return bool(self._agents_by_type[agent_type])
''')
    r('ctx-agents-early', C, '''        if shuffle or count is not None:
            if agent_type is None:
                lst = list(self._agent_manager._local_agents.values())
            else:
                lst = list(self._agents_by_type[agent_type].values())

            if shuffle:
                random.default_rng.shuffle(lst)
            if count is not None:
                lst = lst[:count]
            return lst

        else:
            if agent_type is None:
                return self._agent_manager._local_agents.values().__iter__()
            else:
                return self._agents_by_type[agent_type].values().__iter__()
''', '''        source = self._agent_manager._local_agents if agent_type is None else self._agents_by_type[agent_type]
        if not shuffle and count is None:
            return iter(source.values())

        lst = [a for a in source.values()]
        if shuffle:
            random.default_rng.shuffle(lst)
        return lst if count is None else lst[:count]
''')
    r('ctx-size', C, '''        counts = {}
        if agent_type_ids:
            for i in agent_type_ids:
                counts[i] = len(self._agents_by_type.get(i, ()))
        else:
            counts[-1] = len(self._agent_manager._local_agents)

        return counts
''', '''        if not agent_type_ids:
            return {-1: len(self._agent_manager._local_agents)}
        return {i: len(self._agents_by_type.get(i, [])) for i in agent_type_ids}
''')
    r('ctx-size2', C, '''            for i in agent_type_ids:
                counts[i] = len(self._agents_by_type.get(i, ()))
''', '''            for type_id in agent_type_ids:
                if type_id in self._agents_by_type:
                    counts[type_id] = len(self._agents_by_type[type_id])
                else:
                    counts[type_id] = 0
''')
    r('ctx-requests', C, '''        for request in requested_agents:
            # 1 is the rank to request from
            # 0 is the id of the agent we are requesting
            agent = self._agent_manager.get_ghost(request[0], 0)
            if agent is None:
                lst = requests[request[1]]
                if lst is None:
                    requests[request[1]] = [request[0]]
                elif request[0] not in lst:
                    requests[request[1]].append(request[0])
            else:
                kept_ghosts[request[1]].append(request[0])
                existing_ghosts.append(agent)
                self._agent_manager.add_req_ghost(agent.uid)
                for proj in self.projections.values():
                    if agent not in proj:
                        proj.add(agent)
''', '''        for uid, owner in requested_agents:
            agent = self._agent_manager.get_ghost(uid, incr=0)
            if agent is not None:
                existing_ghosts.append(agent)
                kept_ghosts[owner].append(uid)
                self._agent_manager.add_req_ghost(agent.uid)
                for proj in self.projections.values():
                    if agent not in proj:
                        proj.add(agent)
                continue
            if requests[owner] is None:
                requests[owner] = []
            if uid not in requests[owner]:
                requests[owner].append(uid)
''')
    r('ctx-request-agents', C, '''        for rank, requests in enumerate(requested):
            if requests:
                for requested_id in requests:
                    agent = self._agent_manager.tag_as_ghosted(rank, requested_id)
                    # self._agent_manager.add_req_ghosted(requested_id)
                    sent_agents[rank].append(agent.save())
''', '''        for rank in range(len(requested)):
            for requested_id in requested[rank] or []:
                sent_agents[rank].append(self._agent_manager.tag_as_ghosted(rank, requested_id).save())
''')
    r('ctx-moved', C, '''        moved_ids = [(x.uid, dest) for x, dest in moved_agents]
        all_moved_agents = self.comm.allgather(moved_ids)
''', '''        moved_ids = []
        for agent, dest in moved_agents:
            moved_ids.append((agent.uid, dest))
        all_moved_agents = self.comm.allgather(moved_ids)
''', '''        if any_moved:
            for proj in projs:
                proj._agents_moved_rank(itertools.chain(*all_moved_agents), self._agent_manager)
        return any_moved
''', '''        if not any_moved:
            return False
        for proj in projs:
            moved_elsewhere = itertools.chain.from_iterable(all_moved_agents)
            proj._agents_moved_rank(moved_elsewhere, self._agent_manager)
        return True
''')
    r('ctx-move-agents', C, '''            agent = self._agent_manager.remove_local(uid)
            del self._agents_by_type[uid[1]][uid]
            moved_agents.append((agent, rank))
            data = [agent.save()]
            sent_agents[rank].append(data)

            if uid in self._agent_manager._ghosted_agents:
                data.append(self._agent_manager.delete_ghosted(uid))

            for proj in self.projections.values():
                proj._agent_moving_rank(agent, rank, data, self._agent_manager)
''', '''            agent = self._agent_manager.remove_local(uid)
            self._agents_by_type[uid[1]].pop(uid)
            data = [agent.save()]
            if uid in self._agent_manager._ghosted_agents:
                data += [self._agent_manager.delete_ghosted(uid)]

            for proj in self.projections.values():
                proj._agent_moving_rank(agent, rank, data, self._agent_manager)
            sent_agents[rank].append(data)
            moved_agents.append((agent, rank))
''')
    r('ctx-rename', C, '''    def _gather_oob_data(''', '''    def _collect_oob_data(''', '''self._gather_oob_data(oob_moved_agents)''', '''self._collect_oob_data(oob_moved_agents)''',
      '''self._gather_oob_data([])''', '''self._collect_oob_data([])''')
    r('ctx-inline-sendreq', C, '''        requested, ghosts = self._send_requests(requested_agents)
        for rank, requests in enumerate(requested):
''', '''        result = self._send_requests(requested_agents)
        requested = result[0]
        ghosts = result[1]
        for rank, requests in enumerate(requested):
''')
    r('ctx-addproj', C, '''        for prj in self.projections.values():
            if projection.name == prj.name: # type: ignore
                raise ValueError('Context already contains the named projection "{}"'.format(prj.name))

        self.projections[self.projection_id] = projection
''', '''        if any(prj.name == projection.name for prj in self.projections.values()):
            raise ValueError(f'Context already contains the named projection "{projection.name}"')

        pid = self.projection_id
        self.projections[pid] = projection
''')
    r('ctx-getproj', C, '''        for prj in self.projections.values():
            if prj.name == projection_name:
                return prj

        raise''', '''        found = next((prj for prj in self.projections.values() if prj.name == projection_name), None)
        if found is not None:
            return found

        raise''')
    r('ctx-remove', C, '''        self._agent_manager.delete_local(agent.uid, self.removed_ghosteds)
        del self._agents_by_type[agent.uid[1]][agent.uid]
''', '''        uid = agent.uid
        agent_type = uid[1]
        self._agent_manager.delete_local(uid, self.removed_ghosteds)
        self._agents_by_type[agent_type].pop(uid)
''')
    # ---- core
    r('core-tag', K, '''        if agent_id in self._ghosted_agents:
            gh = self._ghosted_agents[agent_id]
            ranks = gh.ghost_ranks
            if ghost_rank in ranks:
                ranks[ghost_rank] += 1
            else:
                ranks[ghost_rank] = 1
            agent = gh.agent
        else:
            agent = self._local_agents[agent_id]
            self._ghosted_agents[agent_id] = GhostedAgent(agent, {ghost_rank: 1})
        return agent
''', '''        gh = self._ghosted_agents.get(agent_id)
        if gh is None:
            gh = GhostedAgent(self._local_agents[agent_id], {ghost_rank: 1})
            self._ghosted_agents[agent_id] = gh
        else:
            gh.ghost_ranks[ghost_rank] = gh.ghost_ranks.get(ghost_rank, 0) + 1
        return gh.agent
''')
    r('core-untag', K, '''        gh = self._ghosted_agents[agent_id]
        ranks = gh.ghost_ranks
        ranks[ghost_rank] -= 1
        if ranks[ghost_rank] == 0:
            del ranks[ghost_rank]
''', '''        ranks = self._ghosted_agents[agent_id].ghost_ranks
        count = ranks[ghost_rank] - 1
        if count == 0:
            del ranks[ghost_rank]
        else:
            ranks[ghost_rank] = count
''')
    r('core-rmghost', K, '''        if agent.uid not in self._req_ghosts:
            ghost_agent = self._ghost_agents[agent.uid]
            ghost_agent.ref_count -= 1
            if ghost_agent.ref_count == 0:
                del self._ghost_agents[agent.uid]
''', '''        uid = agent.uid
        if self.is_requested(uid):
            return
        ghost = self._ghost_agents[uid]
        ghost.ref_count = ghost.ref_count - 1
        if not ghost.ref_count:
            self._ghost_agents.pop(uid)
''')
    r('core-getghost', K, '''        val = self._ghost_agents.get(agent_uid, None)
        if val is not None:
            val.ref_count += incr
            return val.agent
        return None
''', '''        if agent_uid not in self._ghost_agents:
            return None
        ghost = self._ghost_agents[agent_uid]
        ghost.ref_count += incr
        return ghost.agent
''')
    r('core-dellocal', K, '''        gh = self._ghosted_agents.pop(agent_id, None)
        if gh:
            ghosted_deleted.append(gh)

        return self._local_agents.pop(agent_id, None)
''', '''        agent = self.remove_local(agent_id)
        if agent_id in self._ghosted_agents:
            ghosted_deleted.append(self._ghosted_agents.pop(agent_id))
        return agent
''')
    r('core-setghosted', K, '''        if len(ghost_ranks) > 0:
            self._ghosted_agents''', '''        if ghost_ranks:
            self._ghosted_agents''')
    r('core-isghosted', K, '''        return agent_id in self._ghosted_agents and ghost_rank in self._ghosted_agents[agent_id].ghost_ranks
''', '''        ghosted = self._ghosted_agents.get(agent_id)
        if ghosted is None:
            return False
        return ghost_rank in ghosted.ghost_ranks
''')
    # ---- schedule
    r('sch-resched', SC, '''        self.at += self.interval
        heapq.heappush(queue, (self.at, self.order_idx, self))
''', '''        next_at = self.at + self.interval
        self.at = next_at
        heapq.heappush(queue, (next_at, self.order_idx, self))
''')
    r('sch-meta', SC, '''        _metadata = {'__type': EvtType.REPEATING}
        _metadata.update(metadata)
        super().__init__(at, evt, priority_type, priority, _metadata)
        self.interval''', '''        super().__init__(at, evt, priority_type, priority, {'__type': EvtType.REPEATING, **metadata})
        self.interval''')
    r('sch-meta2', SC, '''        _metadata = {'__type': EvtType.ONE_TIME}
        _metadata.update(metadata)
        super().__init__(at, evt, priority_type, priority, _metadata)
''', '''        super().__init__(at, evt, priority_type, priority, dict({'__type': EvtType.ONE_TIME}, **metadata))
''')
    r('sch-add-evt', SC, '''        p_type = evt.priority_type
        if p_type == PriorityType.RANDOM:
            self.random.append(evt)
        elif p_type == PriorityType.FIRST:
            self.first.append(evt)
        elif p_type == PriorityType.LAST:
            self.last.append(evt)
        else:
            self.prioritized.append(evt)
        self.size_ += 1
''', '''        self.size_ += 1
        p_type = evt.priority_type
        if p_type == PriorityType.FIRST:
            target = self.first
        elif p_type == PriorityType.LAST:
            target = self.last
        elif p_type == PriorityType.RANDOM:
            target = self.random
        else:
            target = self.prioritized
        target.append(evt)
''')
    r('sch-add-evt2', SC, '''        if self.executing:
            self.evts_added_during_execution.append(evt)
            self.interrupted = True
        else:
            self._add_evt(evt)
''', '''        if not self.executing:
            self._add_evt(evt)
            return
        self.interrupted = True
        self.evts_added_during_execution.append(evt)
''')
    r('sch-sort-order', SC, '''        self.random.sort(key=lambda evt: evt.order_idx)
        self.prioritized.sort(key=lambda evt: evt.order_idx)
        # first and last order_idx determines execution order
        self.first.sort(key=lambda evt: evt.order_idx)
        self.last.sort(key=lambda evt: evt.order_idx)
''', '''        # first and last order_idx determines execution order
        for evts in (self.first, self.last, self.random, self.prioritized):
            evts.sort(key=lambda e: e.order_idx)
''')
    r('sch-sort-key', SC, '''        self.random.sort(key=lambda evt: evt.order_idx)
        self.prioritized.sort(key=lambda evt: evt.order_idx)
''', '''        def by_order(e):
            return e.order_idx
        self.random.sort(key=by_order)
        self.prioritized.sort(key=by_order)
''')
    r('sch-sort-rng', SC, '''            rng = random.default_rng
            # add random actions randomly to prioritized actions
            self.prioritized.sort(key=lambda evt: evt.priority)
            for evt in self.random:
                idx = rng.integers(0, len(self.prioritized), endpoint=True)
                self.prioritized.insert(idx, evt)
''', '''            self.prioritized.sort(key=lambda evt: evt.priority)
            # add random actions randomly to prioritized actions
            for evt in self.random:
                n = len(self.prioritized)
                self.prioritized.insert(random.default_rng.integers(0, n, endpoint=True), evt)
''')
    r('sch-exec-evts', SC, '''        interrupted = False
        next_idx = 0
        for evt in evts:
            self.size_ -= 1
            evt()
            evt.reschedule(queue)
            next_idx += 1
            if self.interrupted:
                interrupted = True
                break

        del evts[:next_idx]

        if interrupted:
            self._add_during_ex_evts()
            self.interrupted = False

        return interrupted
''', '''        interrupted = False
        executed = 0
        for executed, evt in enumerate(evts, 1):
            self.size_ -= 1
            evt()
            evt.reschedule(queue)
            if self.interrupted:
                interrupted = True
                break

        del evts[:executed]

        if not interrupted:
            return False
        self._add_during_ex_evts()
        self.interrupted = False
        return True
''')
    r('sch-group-exec', SC, '''        interrupted = self.execute_evts(self.first, queue)
        if interrupted:
            return

        interrupted = self.execute_evts(self.prioritized, queue)
        if interrupted:
            return

        interrupted = self.execute_evts(self.last, queue)
        if interrupted:
            return
''', '''        for evts in (self.first, self.prioritized, self.last):
            if self.execute_evts(evts, queue):
                return
''')
    r('sch-group-exec2', SC, '''        interrupted = self.execute_evts(self.first, queue)
        if interrupted:
            return

        interrupted = self.execute_evts(self.prioritized, queue)
        if interrupted:
            return

        interrupted = self.execute_evts(self.last, queue)
        if interrupted:
            return

        self.executing = False
''', '''        interrupted = self.execute_evts(self.first, queue) or \\
            self.execute_evts(self.prioritized, queue) or self.execute_evts(self.last, queue)
        if not interrupted:
            self.executing = False
''')
    r('sch-push', SC, '''        if at >= self.tick:
            self.last_count = next(self.counter)
            evt.order_idx = self.last_count
            if at == self.tick:
                self.executing_group.add_evt(evt)
            else:
                heapq.heappush(self.queue, (at, self.last_count, evt))
''', '''        if at < self.tick:
            return
        count = next(self.counter)
        self.last_count = count
        evt.order_idx = count
        if at > self.tick:
            heapq.heappush(self.queue, (at, count, evt))
        else:
            self.executing_group.add_evt(evt)
''')
    r('sch-next-tick', SC, '''        if len(self.queue) == 0:
            return -1
        return self.queue[0][0]
''', '''        return self.queue[0][0] if self.queue else -1
''')
    r('sch-execute', SC, '''            self.tick, _, evt = self.queue[0]
            go = True
            while go:
                heapq.heappop(self.queue)
                self.executing_group.add_evt(evt)
                if len(self.queue) == 0:
                    go = False
                else:
                    next_tick, _, evt = self.queue[0]
                    go = next_tick == self.tick
''', '''            self.tick = self.queue[0][0]
            while self.queue and self.queue[0][0] == self.tick:
                _, _, evt = heapq.heappop(self.queue)
                self.executing_group.add_evt(evt)
''')
    r('sch-execute2', SC, '''        if len(self.queue) > 0:
            # fill''', '''        if self.queue:
            # fill''')
    r('sch-execute3', SC, '''            while go:
                heapq.heappop(self.queue)
                self.executing_group.add_evt(evt)
                if len(self.queue) == 0:
                    go = False
                else:
                    next_tick, _, evt = self.queue[0]
                    go = next_tick == self.tick
''', '''            while True:
                heapq.heappop(self.queue)
                self.executing_group.add_evt(evt)
                if not self.queue:
                    break
                next_tick, _, evt = self.queue[0]
                if next_tick != self.tick:
                    break
''')
    r('sch-runner', SC, '''            global_next_tick = self.comm.allreduce(self.next_tick, op=MPI.MIN)
            if self.next_tick == global_next_tick:
                self.schedule.execute()

            self.next_tick = self.schedule.next_tick()
''', '''            mine = self.next_tick
            if mine == self.comm.allreduce(mine, op=MPI.MIN):
                self.schedule.execute()
            self._update_next_tick()
''', '''    def tick(self) -> float:
        """Gets the current tick.
''', '''    def _update_next_tick(self):
        self.next_tick = self.schedule.next_tick()

    def tick(self) -> float:
        """Gets the current tick.
''')
    r('sch-endevt', SC, '''        _metadata = {'__type': EvtType.END}
        _metadata.update(metadata)
        sch_evt = OneTimeEvent(float('inf'), evt, metadata=_metadata)
        self.end_evts.append(sch_evt)
        return sch_evt
''', '''        evt_metadata = dict(metadata)
        evt_metadata.setdefault('__type', EvtType.END)
        end_evt = OneTimeEvent(float('inf'), evt, metadata=evt_metadata)
        self.end_evts.append(end_evt)
        return end_evt
''')
    r('sch-reset', SC, '''        self.first.clear()
        self.last.clear()
        self.random.clear()
        self.prioritized.clear()
        self.evts_added_during_execution.clear()
        self.size_ = 0
        self.interrupted = False
''', '''        self.interrupted = False
        self.size_ = 0
        for lst in [self.first, self.last, self.random, self.prioritized, self.evts_added_during_execution]:
            lst.clear()
''')
    r('sch-during', SC, '''        for evt in self.evts_added_during_execution:
            self._add_evt(evt)
        self.sort()
        self.evts_added_during_execution.clear()
''', '''        added = list(self.evts_added_during_execution)
        self.evts_added_during_execution.clear()
        for evt in added:
            self._add_evt(evt)
        self.sort()
''')
    r('sch-argevt', SC, '''    def f():
        evt(*args, **kwargs)

    return f
''', '''    def bound_evt():
        evt(*args, **kwargs)

    return bound_evt
''')
    r('sch-argevt2', SC, '''    def f():
        evt(*args, **kwargs)

    return f
''', '''    return lambda: evt(*args, **kwargs)
''')
    # ---- logging
    r('log-grow', L, '''        if self._idx == self._data.shape[0]:
            self._data = np.concatenate((self._data, np.zeros(ReducingDataLogger._ARRAY_SIZE,
                                                              dtype=self._data_source.dtype)))
        self._data[self._idx] = self._data_source.value
        self._idx += 1
''', '''        idx = self._idx
        if idx == len(self._data):
            extra = np.zeros(self._ARRAY_SIZE, dtype=self.dtype)
            self._data = np.concatenate([self._data, extra])
        self._data[idx] = self._data_source.value
        self._idx = idx + 1
''')
    r('log-reduce', L, '''        recv_buf = None
        if self._rank == 0:
            recv_buf = np.empty(self._idx, dtype=self._data_source.dtype)

        comm.Reduce(self._data[:self._idx], recv_buf, self._op, 0)
        self._idx = 0
''', '''        n = self._idx
        recv_buf = np.empty(n, dtype=self._data_source.dtype) if self._rank == 0 else None
        comm.Reduce(self._data[0:n], recv_buf, op=self._op, root=0)
        self._idx = 0
''')
    r('log-dtype', L, '''        self._dtype = None
        for f in fields(self.data_class):
            if f.name == field_name:
                self._dtype = np.dtype(f.type)
                break

        if self._dtype is None:
            raise ValueError''', '''        matching = [f for f in fields(self.data_class) if f.name == field_name]
        self._dtype = np.dtype(matching[0].type) if matching else None

        if self._dtype is None:
            raise ValueError''')
    r('log-dsname', L, '''        if ds_name is None:
            self.ds_name = self.field_name
        else:
            self.ds_name = ds_name
''', '''        self.ds_name = self.field_name if ds_name is None else ds_name
''')
    r('log-create', L, '''    loggers = []
    if names is None:
        for f in fields(data_class):
            source = DCDataSource(data_class, f.name)
            loggers.append(ReducingDataLogger(source, op, rank))
    else:
''', '''    loggers = []
    if names is None:
        loggers = [ReducingDataLogger(DCDataSource(data_class, f.name), op, rank) for f in fields(data_class)]
    else:
''')
    r('log-create2', L, '''                ds_name = f.name if names[f.name] is None else names[f.name]
                source = DCDataSource(data_class, f.name, ds_name)
''', '''                source = DCDataSource(data_class, f.name, names[f.name])
''')
    r('log-write-join', L, '''                for i in range(nrows):
                    first = True
                    for vals in val_arrays:
                        if first:
                            f_out.write(str(vals[i]))
                            first = False
                        else:
                            f_out.write(self._delimiter)
                            f_out.write(str(vals[i]))
                    f_out.write('\\n')
''', '''                for i in range(nrows):
                    f_out.write(self._delimiter.join(str(vals[i]) for vals in val_arrays))
                    f_out.write('\\n')
''')
    r('log-write-first', L, '''                    first = True
                    for vals in val_arrays:
                        if first:
                            f_out.write(str(vals[i]))
                            first = False
                        else:
                            f_out.write(self._delimiter)
                            f_out.write(str(vals[i]))
''', '''                    for j, vals in enumerate(val_arrays):
                        if j > 0:
                            f_out.write(self._delimiter)
                        f_out.write(str(vals[i]))
''')
    r('log-header', L, '''                f_out.write('tick')
                for dl in data_loggers:
                    f_out.write(self._delimiter)
                    f_out.write(dl.name)
                f_out.write('\\n')
''', '''                header = ['tick'] + [dl.name for dl in data_loggers]
                f_out.write(self._delimiter.join(header) + '\\n')
''')
    r('log-header2', L, '''                for dl in data_loggers:
                    f_out.write(self._delimiter)
                    f_out.write(dl.name)
                f_out.write('\\n')
''', '''                for dl in data_loggers:
                    f_out.write(self._delimiter + dl.name)
                f_out.write('\\n')
''')
    r('log-parent', L, '''            parent = os.path.dirname(self._fpath)
            if parent and not os.path.exists(parent):
                os.makedirs(parent)
''', '''            self._make_parent()
''', '''    def log_row(self, *args):
''', '''    def _make_parent(self):
        directory = os.path.dirname(self._fpath)
        if directory and not os.path.exists(directory):
            os.makedirs(directory)

    def log_row(self, *args):
''')
    r('log-tab-write', L, '''                writer = csv.writer(fout, delimiter=self._delimiter)
                for items in all_items:
                    writer.writerows(items)
''', '''                writer = csv.writer(fout, delimiter=self._delimiter)
                for items in all_items:
                    for row in items:
                        writer.writerow(row)
''')
    r('log-tab-gather', L, '''        all_items = self._comm.gather(self._rows, root=0)
        if self._rank == 0:
''', '''        rows = self._comm.gather(self._rows)
        all_items = rows
        if all_items is not None:
''')
    r('log-dataset-log', L, '''        if self._rank == 0:
            self.ticks.append(tick)

        for logger in self._data_loggers:
            logger.log()

        if self._data_loggers[0].size >= self._buffer_size:
            self.write()
''', '''        for logger in self._data_loggers:
            logger.log()

        if self._rank == 0:
            self.ticks.append(tick)

        first_logger = self._data_loggers[0]
        if first_logger.size < self._buffer_size:
            return
        self.write()
''')
