import heapq
import itertools
from typing import Callable, List, Dict
import types
from enum import IntEnum
from mpi4py import MPI
from . import random

def _noop_evt():
    pass

def _noop_reschedule(self, queue):
    pass

class PriorityType(IntEnum):
    FIRST = 0
    LAST = 1
    RANDOM = 2
    BY_PRIORITY = 3

class EvtType(IntEnum):
    STOP = 0
    REPEATING = 1
    ONE_TIME = 2
    END = 3
    VOID = 4

class ScheduledEvent:

    def __init__(self, at, evt, priority_type, priority, metadata):
        self.evt = evt
        self.at = at
        self.order_idx = 0
        self.priority_type = priority_type
        self.priority = priority
        self.metadata = metadata

    def __call__(self):
        self.evt()

    def reschedule(self, queue):
        pass

    def void(self):
        pass

class RepeatingEvent(ScheduledEvent):

    def __init__(self, at, interval, evt, priority_type=PriorityType.RANDOM, priority=float('nan'), metadata={}):
        _metadata = {'__type': EvtType.REPEATING}
        _metadata.update(metadata)
        super().__init__(at, evt, priority_type, priority, _metadata)
        self.interval = interval

    def reschedule(self, queue):
        self.at += self.interval
        heapq.heappush(queue, (self.at, self.order_idx, self))

    def void(self):
        self.evt = _noop_evt
        self.reschedule = types.MethodType(_noop_reschedule, self)
        self.metadata['__type'] = EvtType.VOID

class OneTimeEvent(ScheduledEvent):

    def __init__(self, at, evt, priority_type=PriorityType.RANDOM, priority=float('nan'), metadata={}):
        _metadata = {'__type': EvtType.ONE_TIME}
        _metadata.update(metadata)
        super().__init__(at, evt, priority_type, priority, _metadata)

    def reschedule(self, queue):
        pass

    def void(self):
        self.evt = _noop_evt
        self.metadata['__type'] = EvtType.VOID

class ScheduleGroup:

    def __init__(self):
        self.first = []
        self.last = []
        self.random = []
        self.prioritized = []
        self.evts_to_execute = []
        self.evts_added_during_execution = []
        self.executing = False
        self.interrupted = False
        self.size_ = 0

    def reset(self):
        self.first.clear()
        self.last.clear()
        self.random.clear()
        self.prioritized.clear()
        self.evts_added_during_execution.clear()
        self.size_ = 0
        self.interrupted = False

    @property
    def size(self):
        return self.size_

    def add_evt(self, evt):
        if self.executing:
            self.evts_added_during_execution.append(evt)
            self.interrupted = True
        else:
            self._add_evt(evt)

    def _add_evt(self, evt):
        p_type = evt.priority_type
        if p_type == PriorityType.RANDOM:
            self.random.append(evt)
        elif p_type == PriorityType.FIRST:
            self.first.append(evt)
        elif p_type == PriorityType.LAST:
            self.last.append(evt)
        else:
            self.prioritized.append(evt)
        self.size_ += 1

    def sort(self):
        self.random.extend((evt for evt in self.prioritized if evt.priority_type == PriorityType.RANDOM))
        self.prioritized[:] = [evt for evt in self.prioritized if evt.priority_type != PriorityType.RANDOM]
        self.random.sort(key=lambda evt: evt.order_idx)
        self.prioritized.sort(key=lambda evt: evt.order_idx)
        self.first.sort(key=lambda evt: evt.order_idx)
        self.last.sort(key=lambda evt: evt.order_idx)
        if self.prioritized:
            rng = random.default_rng
            self.prioritized.sort(key=lambda evt: evt.priority)
            for evt in self.random:
                idx = rng.integers(0, len(self.prioritized), endpoint=True)
                self.prioritized.insert(idx, evt)
        else:
            random.default_rng.shuffle(self.random)
            self.prioritized.extend(self.random)
        self.random.clear()

    def _add_during_ex_evts(self):
        for evt in self.evts_added_during_execution:
            self._add_evt(evt)
        self.sort()
        self.evts_added_during_execution.clear()

    def execute_evts(self, evts, queue):
        interrupted = False
        next_idx = 0
        for evt in evts:
            self.size_ -= 1
            evt()
            evt.reschedule(queue)
            next_idx += 1
            if self.interrupted:
                interrupted = True
                break
        del evts[:next_idx]
        if interrupted:
            self._add_during_ex_evts()
            self.interrupted = False
        return interrupted

    def execute_evts__or1(self, evts, queue):
        interrupted = False
        next_idx = 0
        for next_idx, evt in enumerate(evts, 1):
            self.size_ -= 1
            evt()
            evt.reschedule(queue)
            if self.interrupted:
                interrupted = True
                break
        del evts[:next_idx]
        if interrupted:
            self._add_during_ex_evts()
            self.interrupted = False
        return interrupted

    def execute_evts__or2(self, evts, queue):
        done = 0
        for evt in evts:
            self.size_ -= 1
            evt()
            evt.reschedule(queue)
            done += 1
            if self.interrupted:
                del evts[:done]
                self._add_during_ex_evts()
                self.interrupted = False
                return True
        del evts[:done]
        return False

    def execute_evts__or3(self, evts, queue):
        done = 0
        for evt in evts:
            self.size_ -= 1
            evt()
            evt.reschedule(queue)
            done += 1
            if self.interrupted:
                break
        del evts[:done]
        if self.interrupted:
            self._add_during_ex_evts()
            self.interrupted = False
            return True
        return False

    def execute(self, queue):
        self.executing = True
        interrupted = self.execute_evts(self.first, queue)
        if interrupted:
            return
        interrupted = self.execute_evts(self.prioritized, queue)
        if interrupted:
            return
        interrupted = self.execute_evts(self.last, queue)
        if interrupted:
            return
        self.executing = False

class Schedule:

    def __init__(self):
        self.queue = []
        self.tick = -1e-39
        self.counter = itertools.count()
        self.last_count: int = 0
        self.executing_group = ScheduleGroup()

    def _push_event(self, at, evt):
        if at >= self.tick:
            self.last_count = next(self.counter)
            evt.order_idx = self.last_count
            if at == self.tick:
                self.executing_group.add_evt(evt)
            else:
                heapq.heappush(self.queue, (at, self.last_count, evt))

    def schedule_event(self, at, evt, priority_type=PriorityType.RANDOM, priority=float('nan'), metadata={}):
        scheduled_evt = OneTimeEvent(at, evt, priority_type, priority, metadata)
        self._push_event(at, scheduled_evt)
        return scheduled_evt

    def schedule_repeating_event(self, at, interval, evt, priority_type=PriorityType.RANDOM, priority=float('nan'), metadata={}):
        scheduled_evt = RepeatingEvent(at, interval, evt, priority_type, priority, metadata)
        self._push_event(at, scheduled_evt)
        return scheduled_evt

    def next_tick(self):
        if len(self.queue) == 0:
            return -1
        return self.queue[0][0]

    def execute(self):
        if len(self.queue) > 0:
            self.executing_group.reset()
            self.tick, _, evt = self.queue[0]
            go = True
            while go:
                heapq.heappop(self.queue)
                self.executing_group.add_evt(evt)
                if len(self.queue) == 0:
                    go = False
                else:
                    next_tick, _, evt = self.queue[0]
                    go = next_tick == self.tick
            self.executing_group.sort()
            while self.executing_group.size > 0:
                self.executing_group.execute(self.queue)

    def execute__or1(self):
        if len(self.queue) > 0:
            self.executing_group.reset()
            self.tick = self.queue[0][0]
            while len(self.queue) > 0 and self.queue[0][0] == self.tick:
                _, _, evt = heapq.heappop(self.queue)
                self.executing_group.add_evt(evt)
            self.executing_group.sort()
            while self.executing_group.size > 0:
                self.executing_group.execute(self.queue)

    def execute__or2(self):
        if len(self.queue) > 0:
            self.executing_group.reset()
            self.tick, _, evt = self.queue[0]
            while True:
                heapq.heappop(self.queue)
                self.executing_group.add_evt(evt)
                if len(self.queue) == 0:
                    break
                next_tick, _, evt = self.queue[0]
                if next_tick != self.tick:
                    break
            self.executing_group.sort()
            while self.executing_group.size > 0:
                self.executing_group.execute(self.queue)

    def execute__or3(self):
        if len(self.queue) > 0:
            self.executing_group.reset()
            self.tick, _, evt = heapq.heappop(self.queue)
            self.executing_group.add_evt(evt)
            while len(self.queue) > 0 and self.queue[0][0] == self.tick:
                _, _, evt = heapq.heappop(self.queue)
                self.executing_group.add_evt(evt)
            self.executing_group.sort()
            while self.executing_group.size > 0:
                self.executing_group.execute(self.queue)

    def execute__or4(self):
        if len(self.queue) > 0:
            self.executing_group.reset()
            self.tick = self.queue[0][0]
            while len(self.queue) > 0 and self.queue[0][0] == self.tick:
                self.executing_group.add_evt(heapq.heappop(self.queue)[2])
            self.executing_group.sort()
            while True:
                if self.executing_group.size == 0:
                    break
                self.executing_group.execute(self.queue)

def create_arg_evt(evt, *args, **kwargs):

    def f():
        evt(*args, **kwargs)
    return f

def create_arg_evt__or1(evt, *args, **kwargs):
    return lambda: evt(*args, **kwargs)

class SharedScheduleRunner:

    def __init__(self, comm):
        self.comm = comm
        self.schedule = Schedule()
        self.next_tick = -1
        self.end_evts = []
        self.go = True

    def schedule_event(self, at, evt, priority_type=PriorityType.RANDOM, priority=float('nan'), metadata={}):
        sch_evt = self.schedule.schedule_event(at, evt, priority_type, priority, metadata)
        self.next_tick = self.schedule.next_tick()
        return sch_evt

    def schedule_repeating_event(self, at, interval, evt, priority_type=PriorityType.RANDOM, priority=float('nan'), metadata={}):
        sch_evt = self.schedule.schedule_repeating_event(at, interval, evt, priority_type, priority, metadata)
        self.next_tick = self.schedule.next_tick()
        return sch_evt

    def schedule_end_event(self, evt, metadata={}):
        _metadata = {'__type': EvtType.END}
        _metadata.update(metadata)
        sch_evt = OneTimeEvent(float('inf'), evt, metadata=_metadata)
        self.end_evts.append(sch_evt)
        return sch_evt

    def schedule_end_event__or1(self, evt, metadata={}):
        _metadata = dict(metadata)
        if '__type' not in _metadata:
            _metadata['__type'] = EvtType.END
        sch_evt = OneTimeEvent(float('inf'), evt, metadata=_metadata)
        self.end_evts.append(sch_evt)
        return sch_evt

    def schedule_stop(self, at):
        sch_evt = self.schedule.schedule_event(at, self.stop, metadata={'__type': EvtType.STOP})
        self.next_tick = self.schedule.next_tick()
        return sch_evt

    def stop(self):
        self.go = False

    def tick(self):
        return self.schedule.tick

    def execute(self):
        while self.go:
            global_next_tick = self.comm.allreduce(self.next_tick, op=MPI.MIN)
            if self.next_tick == global_next_tick:
                self.schedule.execute()
            self.next_tick = self.schedule.next_tick()
        for evt in self.end_evts:
            evt()
__runner = None

def init_schedule_runner(comm):
    global __runner
    __runner = SharedScheduleRunner(comm)
    return __runner

def runner():
    if not __runner:
        raise RuntimeError('Schedule runner must be initialized with schedule.init_schedule_runner before being used')
    return __runner
