#!/usr/bin/env python3
"""Writes ../properties.jsonl.  Kept so that wording and anchors are edited in one place."""
import json, os
S = 'src/repast4py/'
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe='the public API of the module'):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[S + f for f in files],
                               state=[dict(name=n, meaning=m) for n, m in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=[observe], hook_needed=None)))


prop('P01', 'Every rank takes part in every collective operation',
     'All the communication the library performs on a communicator is performed by every rank of it, in the same '
     'order: whether and how often a collective operation is reached never depends on the rank number, on which '
     'agents, ghosts or edges a rank happens to hold, or on data other ranks do not share. Operations documented as '
     'collective (synchronising a context, moving or requesting agents, executing the schedule, logging and writing '
     'reduced or tabular data, reading a network, creating shared spaces and layers) therefore pair up across ranks.',
     ['schedules', 'programs', 'configurations'],
     'every number of ranks, every distribution of agents over ranks, every path through a library operation',
     'Tests run a few fixed agent distributions on at most nine ranks; a collective skipped only on a rank with no '
     'ghosts (or entered twice there) hangs or mis-pairs messages only for distributions no test has.',
     ['context.py', 'network.py', 'space.py', 'value_layer.py', 'logging.py', 'schedule.py', 'checkpoint.py'],
     [('synchronize / move_agents / request_agents', S + 'context.py:SharedContext'),
      ('network synchronisation', S + 'network.py:SharedNetwork._synch_ghosts'),
      ('ghost exchange', S + 'space.py:SharedGrid._synch_ghosts, SharedCSpace._synch_ghosts'),
      ('buffer exchange', S + 'value_layer.py:SharedValueLayer'),
      ('reductions and gathers', S + 'logging.py')],
     [('comm', 'the communicator shared by all ranks')], 'collective calls reached by each rank')

prop('P02', 'Ranks execute ticks in global minimum order and never in the past',
     'In every iteration of the shared schedule, all ranks agree on the minimum of the ranks\' next scheduled ticks '
     'and exactly the ranks whose next tick equals that minimum execute it, all of their events for that tick and no '
     'others, after which every rank publishes its new next tick. The tick a rank reports never decreases, an event '
     'scheduled for a time before the current tick is never executed, and an event scheduled for the current tick is '
     'executed within it.',
     ['schedules', 'histories', 'configurations'],
     'every set of scheduled events, every number of ranks, and events scheduled before and during execution',
     'The tests use a handful of schedules; a missed refresh of the next tick or a wrong comparison shows only for '
     'particular combinations of times on several ranks.',
     ['schedule.py'],
     [('lock step loop', S + 'schedule.py:SharedScheduleRunner.execute'),
      ('event admission', S + 'schedule.py:Schedule._push_event'),
      ('one tick', S + 'schedule.py:Schedule.execute')],
     [('queue', 'pending events ordered by time and sequence number'), ('tick', 'the current tick'),
      ('next_tick', 'the time of the earliest pending event, as published to the other ranks')],
     'order and ticks of executed events')

prop('P03', 'Events of one tick run in their declared priority order',
     'Within a tick, events scheduled as first run before all prioritised and random events, which run before all '
     'events scheduled as last; first and last events run in the order they were scheduled, and prioritised events '
     'run in ascending order of their priority. Randomly ordered events are placed by the seeded default random '
     'generator only, every event of the tick runs exactly once, and events added to the tick while it executes '
     'obey the same order among those not yet run.',
     ['schedules', 'inputs'],
     'every multiset of events in a tick, every priority assignment, and additions to the tick while it executes',
     'Only a few combinations of priority types and additions during execution are tested; the order is a property '
     'of every combination.',
     ['schedule.py'],
     [('grouping and ordering', S + 'schedule.py:ScheduleGroup.sort, _add_evt, add_evt'),
      ('execution', S + 'schedule.py:ScheduleGroup.execute, execute_evts, _add_during_ex_evts')],
     [('first/last/random/prioritized', 'pending events of the tick by declared kind'),
      ('order_idx', 'the sequence number in which an event was scheduled')],
     'order of executed events within a tick')

prop('P04', 'Repeating, one-time, stop, end and voided events keep their contract',
     'A repeating event runs at its start and then every interval after, a one-time event runs once, and a voided '
     'event neither runs nor is rescheduled. A stop event ends the run after the tick in which it executes, and '
     'every end event then runs exactly once, in the order scheduled; the event returned to the caller is the one '
     'that will run.',
     ['schedules', 'histories'],
     'every history of scheduling, voiding, stopping and executing events',
     'Tests void or stop in a few fixed positions; the contract covers voiding before, during and after a tick and '
     'any mixture of event kinds.',
     ['schedule.py'],
     [('rescheduling', S + 'schedule.py:RepeatingEvent.reschedule'),
      ('voiding', S + 'schedule.py:RepeatingEvent.void, OneTimeEvent.void'),
      ('stop and end', S + 'schedule.py:SharedScheduleRunner.stop, schedule_stop, schedule_end_event, execute'),
      ('arguments bound to an event', S + 'schedule.py:create_arg_evt')],
     [('go', 'whether the runner continues'), ('end_evts', 'events run when the schedule ends'),
      ('metadata', 'the kind recorded with each event')], 'executed events')

prop('P05', 'Context membership agrees with its projections and type index',
     'After any sequence of adding, removing, moving and synchronising, the local agents of a context, its per-type '
     'index and each of its projections contain the same local agents: an agent added is found by id, by type and in '
     'every projection, and an agent removed or moved away is found in none of them. Adding a projection gives it '
     'every local agent and every ghost already in the context, and a second projection with the same name is '
     'rejected.',
     ['histories', 'programs'],
     'every history of add, remove, move, request, add_projection and synchronise operations',
     'Each test exercises one short history; an index left stale on one path (for example when an agent is moved by '
     'a space rather than by request) is only visible in longer ones.',
     ['context.py', 'core.py'],
     [('add/remove', S + 'context.py:SharedContext.add, remove'),
      ('projections', S + 'context.py:SharedContext.add_projection, get_projection'),
      ('agents leaving and arriving', S + 'context.py:SharedContext.move_agents, _gather_oob_data, _process_recv_oob_data'),
      ('local agent store', S + 'core.py:AgentManager')],
     [('_agents_by_type', 'local agents indexed by type'), ('_local_agents', 'local agents by id'),
      ('projections', 'all projections of the context')], 'queries on the context and its projections')

prop('P06', 'Moving an agent between ranks neither loses nor duplicates it',
     'Whenever agents move between ranks, by request or by leaving their rank\'s part of a space, each one leaves its '
     'old rank and becomes a local agent of exactly the destination rank, with the identity and state it saved, in '
     'every projection. Ranks that hold a ghost of the moved agent continue to do so and its new owner is told about '
     'each of them, while a ghost of the agent on the destination is replaced by the agent itself.',
     ['histories', 'schedules', 'configurations'],
     'every set of simultaneous moves between any ranks, with any ghosts of the moving agents',
     'Tests move a few agents between two or three ranks; hand-over of ghost bookkeeping matters when third ranks '
     'hold ghosts and several agents move at once.',
     ['context.py', 'core.py', 'space.py', 'network.py'],
     [('requested moves', S + 'context.py:SharedContext.move_agents'),
      ('moves caused by a space', S + 'context.py:SharedContext._gather_oob_data, _process_recv_oob_data, synchronize'),
      ('announcing moves', S + 'context.py:SharedContext._agents_moved'),
      ('projections', S + 'network.py, space.py:_agent_moving_rank, _agents_moved_rank, _post_agents_moved_rank')],
     [('_ghosted_agents', 'local agents that other ranks hold as ghosts, with those ranks'),
      ('_ghost_agents', 'copies of other ranks\' agents held here')], 'agents of all ranks after a move')

prop('P07', 'Synchronising refreshes every ghost and drops ghosts of removed agents',
     'After a synchronisation with ghosts enabled, every ghost of an agent on another rank carries the state that '
     'agent saved on its own rank, and a ghost of an agent that has been removed by its owner no longer exists on '
     'any rank or in any projection. The set of ranks an agent reports updates to is exactly the set of ranks that '
     'hold a ghost of it, and value layers of the context are synchronised too.',
     ['histories', 'schedules', 'configurations'],
     'every history of updates, removals and synchronisations over any number of ranks',
     'A stale ghost shows only when a specific agent is ghosted on several ranks, or in several projections, and '
     'then changed or removed.',
     ['context.py', 'core.py', 'space.py', 'network.py'],
     [('update', S + 'context.py:SharedContext._update_ghosts, _update_removed_ghosts, _synch_ghosts, synchronize'),
      ('tagging', S + 'core.py:AgentManager.tag_as_ghosted, untag_as_ghosted, delete_local'),
      ('buffered agents', S + 'space.py:SharedGrid/SharedCSpace._pre_synch_ghosts, _synch_ghosts, _fill_send_data')],
     [('removed_ghosteds', 'removed agents whose ghosts have still to be removed'),
      ('ghost_ranks', 'the ranks that hold a ghost of an agent')], 'ghost agents after a synchronisation')

prop('P08', 'Ghost reference counts balance',
     'A ghost is kept exactly as long as something on the rank refers to it: each projection that starts holding it '
     'counts it once and releases it once, an explicitly requested ghost is kept until it is removed or becomes '
     'local, and when the last reference is released the ghost disappears. On the owning rank an agent is tagged '
     'once per projection reference of the other rank and its tag for a rank goes when that rank no longer refers '
     'to it.',
     ['histories'],
     'every history of ghost creation and release by any number of projections',
     'An unbalanced count needs a second projection or a second synchronisation before a ghost vanishes too early '
     'or never; tests mostly look one synchronisation ahead.',
     ['core.py', 'context.py', 'network.py', 'space.py'],
     [('counts', S + 'core.py:AgentManager.add_ghost, get_ghost, remove_ghost, add_ghosts_to_projection'),
      ('owner tags', S + 'core.py:AgentManager.tag_as_ghosted, untag_as_ghosted, set_as_ghosted, delete_ghosted'),
      ('users', S + 'network.py:SharedNetwork; ' + S + 'space.py:_process_recv_data, _pre_synch_ghosts')],
     [('ref_count', 'number of references to a ghost'), ('ghost_ranks', 'per-rank count of references to a local agent')],
     'ghosts present after synchronisations')

prop('P09', 'Requesting agents yields one live ghost per requested agent',
     'Requesting agents from other ranks returns, for each distinct requested agent, a ghost of it that has the '
     'agent\'s saved state, is a member of the context\'s projections and is refreshed by later synchronisations; an '
     'agent that is already a ghost is returned as is. A requested ghost is not discarded because a projection '
     'releases it.',
     ['inputs', 'histories'],
     'every list of requests, including repeated ones and ones for agents that are ghosts already',
     'Repeated requests, requests for existing ghosts and later releases by projections combine in ways tests do not '
     'enumerate.',
     ['context.py', 'core.py'],
     [('requests', S + 'context.py:SharedContext.request_agents, _send_requests, _add_ghost'),
      ('pinning', S + 'core.py:AgentManager.add_req_ghost, is_requested, remove_ghost')],
     [('_req_ghosts', 'ids of explicitly requested ghosts')], 'returned ghosts and later synchronisations')

prop('P10', 'Network edges between ranks agree after synchronisation',
     'After a synchronisation, an edge between agents of two ranks exists on both of them with the same attributes if '
     'it was added or updated on either, and on neither if it was removed on either; the agents at its remote end '
     'are present as ghosts while such an edge exists. This holds for directed and undirected networks, whichever '
     'end is local.',
     ['histories', 'schedules'],
     'every history of adding, updating and removing edges between agents on any ranks, between synchronisations',
     'Each test adds or removes a fixed few edges; combinations of add, update and remove between two '
     'synchronisations, seen from either end, are not enumerated.',
     ['network.py'],
     [('recording changes', S + 'network.py:add_edge, update_edge, remove_edge, clear_edges, remove'),
      ('exchange', S + 'network.py:SharedNetwork._sync_removed, _sync_vertices, _sync_edges, _synch_ghosts, _pre_synch_ghosts')],
     [('new_edges', 'edges to other ranks\' agents that those ranks do not know yet'),
      ('ghosted_edges', 'edges shared with another rank'), ('edges_to_update', 'shared edges with changed attributes'),
      ('edges_to_remove', 'shared edges removed here'), ('ghosts_to_ref', 'ghosts the network starts using')],
     'edges on both ranks after a synchronisation')

prop('P11', 'Network edges follow agents that move between ranks',
     'When an agent moves to another rank, its edges to agents on the old rank, on the new rank and on third ranks '
     'still exist after the move with their attributes, between the same two agents, provided the other end does '
     'not move or change in the same step. No rank is left with an edge to a stale copy of the agent.',
     ['histories', 'configurations'],
     'every network position of a moving agent: edges to local agents, to agents of the destination and of third ranks',
     'The outcome depends on where the other end of each edge lives and on which ghosts exist; tests cover few of '
     'these combinations.',
     ['network.py'],
     [('leaving', S + 'network.py:SharedNetwork._agent_moving_rank'),
      ('arriving and re-targeting', S + 'network.py:SharedNetwork._agents_moved_rank'),
      ('restoring', S + 'network.py:SharedNetwork._post_agents_moved_rank')],
     [('_agent_moved_edges', 'edges of moved agents to be recreated'),
      ('_no_longer_ghosts', 'ghosts that are no longer needed because of a move')], 'edges after a move')

prop('P12', 'Reading a network file recreates the network that was written',
     'Writing a graph partitioned over ranks produces, for each node and edge of the graph, one line with its id, '
     'type, rank and attributes, each node on exactly one of the requested ranks; reading such a file creates on '
     'each rank the nodes assigned to it and every edge with an end there, with the same direction and attributes. '
     'Malformed lines are rejected with an error that names the line.',
     ['inputs', 'configurations'],
     'every graph, attribute dictionary, partitioning and number of ranks',
     'Round trips are tested for two sample graphs; formats of attributes, and edges seen from a rank holding '
     'neither, one or both ends, quantify over all graphs.',
     ['network.py'],
     [('writing', S + 'network.py:write_network, _random_partition, _metis_partition, _write_node, _write_edges'),
      ('reading', S + 'network.py:read_network, _parse_graph_desc, _parse_node, _parse_edge, _request_remote_agents, _create_edges')],
     [], 'the network after reading')

prop('P13', 'An agent\'s location and the occupants of locations agree',
     'In every space, an agent is among the occupants of a location exactly when that location is the one reported '
     'for the agent: moving it removes it from its old location and adds it to the new one, removing it clears both, '
     'and an agent never placed has no location. In a single-occupancy space a move to a location occupied by '
     'another agent fails without changing anything, and moving an agent that is not in the space is an error.',
     ['histories', 'inputs'],
     'every history of add, move and remove with any coordinates, in grids and continuous spaces of 1, 2 and 3 dimensions',
     'Only short histories are tested; coherence of the two maps is an invariant of every history.',
     ['space.h', 'grid.h', 'cspace.h', 'occupancy.h', 'space_types.h', 'spacemodule.cpp'],
     [('location maps', S + 'space.h:BaseSpace'), ('moves', S + 'grid.h:BaseGrid; ' + S + 'cspace.h:BaseCSpace'),
      ('occupancy', S + 'occupancy.h:MultiOccupancyAccessor, SingleOccupancyAccessor'),
      ('bindings', S + 'spacemodule.cpp')],
     [('agent_map', 'each agent\'s current location'), ('location_map', 'the agents at each occupied location')],
     'get_location, get_agent, get_agents, contains')

prop('P14', 'Border rules map every coordinate into the space',
     'For any coordinates, sticky borders yield the nearest coordinates within the bounds and periodic borders the '
     'coordinates congruent to the given ones modulo the extent, in each dimension that the space has; the result is '
     'always inside the space and coordinates already inside are unchanged. A move places the agent at, and returns, '
     'the coordinates so obtained.',
     ['inputs', 'configurations'],
     'every coordinate (including negative and far away ones) and every bounds, discrete and continuous, 1 to 3 dimensions',
     'Tests check chosen coordinates; boundary and negative-origin cases are unbounded in number.',
     ['borders.h', 'grid.h', 'cspace.h'],
     [('sticky and periodic transforms', S + 'borders.h'), ('use in moves', S + 'space.h, grid.h, cspace.h')],
     [], 'the location after a move')

prop('P15', 'The ranks\' local bounds tile the whole space exactly',
     'For every number of ranks and every extent, the local bounds assigned to the ranks cover the whole space '
     'without gaps or overlaps, and local bounds and coordinates reported for a rank are its own. Each process '
     'dimension accounts for its remainder, so every location belongs to exactly one rank.',
     ['configurations', 'inputs'],
     'every extent, origin, dimension and number of ranks, including extents that do not divide evenly',
     'Tests use a few extents and rank counts; a remainder assigned to the wrong rank shows only for specific ones.',
     ['distributed_space.cpp', 'distributed_space.h', 'spacemodule.cpp'],
     [('partition', S + 'distributed_space.cpp:CartesianTopology'), ('local bounds', S + 'distributed_space.h:DistributedCartesianSpace')],
     [('local_bounds', 'the part of the space owned by this rank')], 'get_local_bounds on every rank')

prop('P16', 'Buffer regions sent to each neighbouring rank are the right strips',
     'For every neighbouring rank, the region of the local space sent to it is exactly the strip, of the width of the '
     'buffer, of the local bounds next to that neighbour, with diagonal neighbours getting the corner; there is one '
     'region per neighbour direction in periodic spaces and none across the edge of a sticky space. Agents in these '
     'regions, and no others, become ghosts at the same coordinates on that neighbour.',
     ['configurations', 'inputs', 'histories'],
     'every number of ranks per dimension, buffer size, border type and dimension',
     'The tests fix a few layouts; a wrong edge of one strip in one direction affects only agents there.',
     ['distributed_space.cpp', 'distributed_space.h', 'spacemodule.cpp', 'space.py'],
     [('neighbour enumeration', S + 'distributed_space.cpp'), ('buffer strips', S + 'distributed_space.cpp:CartesianTopology'),
      ('collecting and placing', S + 'space.py:_fill_send_data, _gather_1d/2d/3d, _process_recv_data')],
     [('nghs', 'neighbouring ranks and the regions they get')], 'ghosts after a synchronisation')

prop('P17', 'An agent that leaves the local bounds goes to the rank that owns its location',
     'An agent moved outside its rank\'s local bounds is recorded with the rank that owns its new location and is '
     'handed to exactly that rank at the next synchronisation, arriving at the coordinates it was moved to; an agent '
     'that moves back inside, or is removed, before then is not handed over. Moves inside the local bounds are never '
     'recorded.',
     ['histories', 'configurations'],
     'every sequence of moves in and out of the local bounds between synchronisations, in every direction',
     'Tests step over a border once; back-and-forth moves, corners and periodic wrap-around between two '
     'synchronisations are not enumerated.',
     ['distributed_space.h', 'distributed_space.cpp', 'context.py', 'spacemodule.cpp'],
     [('recording', S + 'distributed_space.h:DistributedCartesianSpace.move, remove'),
      ('handing over', S + 'context.py:SharedContext._gather_oob_data, _process_recv_oob_data')],
     [('out_of_bounds_agents', 'agents outside the local bounds with their destinations')],
     'owner and location of the agent after a synchronisation')

prop('P18', 'Spatial queries on continuous spaces are complete and exact',
     'A query for the agents within a bounding box returns every agent whose current location lies in the box and no '
     'other agent, each once, however the agents were added, moved and removed and however the internal spatial '
     'index has been subdivided. The index always agrees with the locations the space reports.',
     ['histories', 'inputs'],
     'every history of add, move, remove, every box, and every index threshold, in 1, 2 and 3 dimensions',
     'Queries are tested on small fixed sets of agents; index subdivision and co-located agents appear only in '
     'larger histories.',
     ['SpatialTree.h', 'SpatialTree.cpp', 'cspace.h'],
     [('index', S + 'SpatialTree.h:CPSpatialTree, Tree nodes, MOItems, SOItems'), ('use', S + 'cspace.h:BaseCSpace')],
     [('items', 'agents stored in an index node'), ('children', 'subdivisions of an index node')], 'get_agents_within')

prop('P19', 'Value layers address each location by its own cell',
     'Reading a location of a value layer returns the last value set at that location, and setting a location changes '
     'that one cell only, for every origin, dimension and border type; a neighbourhood query returns the values of '
     'exactly the locations it returns. The array exposed by the layer is indexed in the documented dimension order.',
     ['inputs', 'configurations'],
     'every bounds and origin, 1 to 3 dimensions, sticky and periodic borders, every location',
     'Tests mostly use zero origins; an offset applied to the wrong axis cancels out there.',
     ['value_layer.py', 'geometry.py'],
     [('addressing', S + 'value_layer.py:_Impl1D, _Impl2D, _Impl3D get/set/get_nghs'), ('layer', S + 'value_layer.py:ValueLayer')],
     [('pt_translation', 'offset from location to array index')], 'get, set, get_nghs, grid')

prop('P20', 'Value layer buffers hold the neighbouring ranks\' values after synchronising',
     'After a synchronisation, each buffer cell of a shared value layer holds the value of the location it stands '
     'for on the rank that owns that location, and no cell a rank owns is changed by it. This holds for one and two '
     'dimensions, for every process layout including a single rank along a periodic dimension, and for any initial '
     'value.',
     ['configurations', 'inputs'],
     'every number of ranks, layout, buffer size, border type and extent',
     'Which slice of the array goes where depends on layout; tests run two or three of them.',
     ['value_layer.py'],
     [('layout of buffers', S + 'value_layer.py:SharedValueLayer._init_buffered_bounds, _init_sync_data_1d/2d'),
      ('exchange', S + 'value_layer.py:SharedValueLayer._synch_ghosts, _buffer_self')],
     [('send_data/recv_data', 'slices of the array exchanged with each rank')], 'buffer cells after a synchronisation')

prop('P21', 'A read/write value layer isolates writes until the swap',
     'Every read of a read/write layer, of a single location or a neighbourhood, comes from the read layer and every '
     'write goes to the write layer, so that a write becomes visible to reads only through a swap, which exchanges '
     'the two. Synchronising synchronises both layers.',
     ['histories'],
     'every interleaving of reads, writes, swaps and synchronisations',
     'Tests look at one or two swaps; isolation is a property of every interleaving.',
     ['value_layer.py'],
     [('layer pair', S + 'value_layer.py:ReadWriteValueLayer')],
     [('read_layer', 'the layer reads come from'), ('write_layer', 'the layer writes go to')], 'get, get_nghs, set, swap_layers')

prop('P22', 'Tabular logging writes every logged row exactly once',
     'Every row logged on any rank appears in the file exactly once after the next write or close, with its values in '
     'the order given, the header once on top, and rows of a rank in the order logged. An existing file is never '
     'overwritten, and only one rank writes to the file.',
     ['histories', 'configurations'],
     'every interleaving of logging and writing on any number of ranks, every file path',
     'Tests write once or twice; duplicates or losses come from buffers not cleared on some rank or mode.',
     ['logging.py', 'util.py'],
     [('rows', S + 'logging.py:TabularLogger'), ('file naming', S + 'util.py:find_free_filename')],
     [('_rows', 'rows logged and not yet written')], 'the log file')

prop('P23', 'Reduced logging writes one exact row per logged tick',
     'Every tick logged to a reducing data set appears in the file exactly once and in order, each column holding the '
     'reduction over all ranks of the values that source had when that tick was logged. No logged value is lost or '
     'overwritten however many ticks are logged between writes, and ranks reduce the same number of values.',
     ['histories', 'inputs'],
     'every number of logged ticks, buffer size, reduction and set of sources',
     'Array growth and automatic writes occur only after hundreds of ticks; tests cross few of these thresholds.',
     ['logging.py'],
     [('recording', S + 'logging.py:ReducingDataLogger.log, reduce'), ('writing', S + 'logging.py:ReducingDataSet'),
      ('sources', S + 'logging.py:DCDataSource, create_loggers')],
     [('_data', 'values logged and not yet reduced'), ('ticks', 'ticks logged and not yet written')], 'the log file')

prop('P24', 'All randomness comes from the seeded default generators',
     'Every random decision the library makes is drawn from the default generator that the seed initialises (or a '
     'generator the caller passes in), and random initial values of layers from the torch generator it seeds too, so '
     'that a run with a given seed is reproducible. Initialising with a seed always resets both, and no other source '
     'of randomness is used.',
     ['programs', 'configurations'],
     'every use of randomness in the library, every seed',
     'A stray unseeded generator still passes tests that check only distributions; the guarantee is about every '
     'call in the source.',
     ['random.py', 'schedule.py', 'context.py', 'network.py', 'space.py', 'value_layer.py', 'parameters.py', 'checkpoint.py'],
     [('generator', S + 'random.py:init'), ('users', S + 'schedule.py:ScheduleGroup.sort; ' + S + 'context.py:SharedContext.agents; '
                                            + S + 'network.py:_random_partition; ' + S + 'space.py:get_random_local_pt')],
     [('default_rng', 'the default random generator'), ('seed', 'the seed it was initialised with')],
     'random choices of a run with a given seed')

prop('P25', 'Run parameters: command line overrides file, and the seed takes effect',
     'The parameters after initialisation are those of the file, overridden by those given as a JSON string; if they '
     'include a random seed, the random generators are initialised with its final value before initialisation '
     'returns. The dictionary returned is the one later reads see, and a dump file contains the same parameters and '
     'never replaces an existing file.',
     ['inputs', 'configurations'],
     'every parameter file, every override string, with and without a seed and a dump file',
     'Tests use one file; precedence between file, override, seed and dump is about every combination.',
     ['parameters.py', 'util.py', 'random.py'],
     [('initialisation', S + 'parameters.py:init_params'), ('arguments', S + 'parameters.py:create_args_parser')],
     [('params', 'the model parameters')], 'params, random.seed and the dump file')

prop('P26', 'Checkpoints restore agents, random state and the schedule as saved',
     'Restoring a checkpoint recreates every saved agent once, in the order saved, from its saved state, the random '
     'seed and generator state, and every pending event with its time, interval, kind, priority and order relative '
     'to the others; a voided event is neither saved nor restored and events scheduled later come after the restored '
     'ones. The current tick is restored, a stop is restored only when asked for, and events are restored only under '
     'the tag they were given.',
     ['crash_points', 'histories'],
     'every state in which a checkpoint is taken outside event execution, every mixture of pending events',
     'Tests restore a few schedules; which field is lost for which kind of event depends on the mixture.',
     ['checkpoint.py', 'schedule.py'],
     [('saving', S + 'checkpoint.py:Checkpoint.save_schedule, save_random, save_agents, _to_evt_data'),
      ('restoring', S + 'checkpoint.py:Checkpoint.restore_schedule, _schedule_evt, restore_random, restore_agents')],
     [('schedule_state', 'tick, sequence number and pending events'), ('agent_state', 'saved agents')],
     'the restored simulation')

prop('P27', 'Checkpoints restore locations and network edges as saved',
     'Restoring a space puts every saved agent back at the location it had when saved, and leaves unplaced those that '
     'had none. Restoring a network recreates every saved edge, with its direction and the attributes it had when '
     'saved, including edges to agents of other ranks, whatever order ranks and agents are restored in.',
     ['crash_points', 'configurations'],
     'every arrangement of agents and edges over ranks at the time of the checkpoint',
     'Tests restore small single examples; edges between ranks in both directions with shared ends are not covered.',
     ['checkpoint.py'],
     [('spaces', S + 'checkpoint.py:Checkpoint.save_space, restore_space'),
      ('networks', S + 'checkpoint.py:Checkpoint.save_network, restore_network, NetworkRestorer')],
     [('spaces', 'saved locations by agent id'), ('networks', 'saved edges by agent id')], 'the restored projections')

prop('P28', 'An agent\'s identity is fixed and keys everything about it',
     'The id, type and rank an agent is created with determine its unique id, which never changes: the id, type, '
     'uid_rank and uid an agent reports always are those it was created with. Spaces keep an agent under its unique '
     'id, so ids that differ in any of the three parts never share an entry and objects with equal ids always do. '
     'Moving, ghosting and restoring change only the rank an agent currently resides on.',
     ['inputs', 'programs'],
     'every id, type and rank, and every pair of agents',
     'Tests use few agents whose ids differ in one part; that ids are kept apart and never change is about all pairs and all histories.',
     ['coremodule.cpp', 'core.h', 'core.py'],
     [('agent', S + 'coremodule.cpp:Agent_new, Agent_init, Agent_get_*, Agent_set_local_rank'),
      ('ids in native maps', S + 'core.h:agent_id_comp')],
     [('uid', 'id, type and starting rank'), ('local_rank', 'the rank the agent resides on')], 'id, type, uid_rank, uid, local_rank, lookups by agent')

prop('P29', 'The native modules balance references and reject bad arguments',
     'In the compiled modules, a reference to a Python object that is stored is owned for as long as it is stored and '
     'given up exactly once when the entry is removed, what is returned to Python is owned by the caller, and no '
     'reference is used after it was given up. '
     'Arguments are converted with the types the native code stores them in, and a failed conversion or operation '
     'raises a Python exception instead of crashing or continuing.',
     ['histories', 'inputs', 'fault_sequences'],
     'every sequence of calls and every argument, including wrong types, null and errors inside callbacks',
     'A leaked or over-released reference has no visible effect until much later; tests do not look at counts.',
     ['spacemodule.cpp', 'coremodule.cpp', 'space.h', 'occupancy.h', 'grid.h', 'cspace.h', 'SpatialTree.h', 'geometry.cpp', 'core.h'],
     [('bindings', S + 'spacemodule.cpp, coremodule.cpp'), ('owned references', S + 'space.h, occupancy.h, core.h')],
     [], 'reference counts and raised exceptions')

prop('P30', 'Selecting agents of a context returns exactly the agents asked for',
     'Asking a context for its agents yields each local agent, or each local agent of the given type, exactly once; a '
     'count limits the number to at most that many, and shuffling changes only the order and never the context '
     'itself. Sizes and type membership reported agree with what selecting returns, and asking for a requested or '
     'ghost agent by id never creates or alters one.',
     ['histories', 'inputs'],
     'every combination of type, count and shuffle on every state of a context',
     'Tests use few combinations; the counts and the index they come from have to agree in every state.',
     ['context.py', 'core.py'],
     [('selection', S + 'context.py:SharedContext.agents, agent, ghost_agent, size, contains_type')],
     [('_agents_by_type', 'local agents indexed by type')], 'agents, size, contains_type, agent, ghost_agent')

prop('P31', 'Neighbourhood finders return exactly the adjacent locations',
     'The neighbourhood of a location consists of the locations at most one step away in every dimension, including '
     'itself, each in every combination of offsets: with sticky borders those inside the bounds, each once, with '
     'periodic borders the ones obtained by wrapping each coordinate into the bounds. The number of dimensions of a '
     'box is determined by which extents are zero, and coordinates are returned in the documented order.',
     ['inputs', 'configurations'],
     'every location, bounds and border type in 1, 2 and 3 dimensions',
     'Tests sample corners of fixed boxes; offsets and bounds tests are per dimension and per side.',
     ['geometry.py', 'geometry.cpp', 'geometry.h'],
     [('finders', S + 'geometry.py:find_1d/2d/3d_nghs_sticky, _periodic'), ('boxes', S + 'geometry.py:get_num_dims; ' + S + 'geometry.cpp:BoundingBox')],
     [], 'returned coordinates')

prop('P32', 'Network queries reflect exactly the nodes and edges of the network',
     'After any sequence of adding and removing nodes and edges, the network contains exactly the nodes and edges '
     'added and not removed, an undirected edge being the same from either end and a directed one having its '
     'direction; edge attributes are the last ones set. Counts of nodes, edges and the edges of an agent agree with '
     'that, and removing an agent removes all of its edges.',
     ['histories'],
     'every history of node and edge additions, updates and removals, directed and undirected',
     'Tests use a handful of edges; the undirected network keeps a second index of edges that must follow every '
     'addition and removal, in both orientations.',
     ['network.py'],
     [('edges', S + 'network.py:UndirectedSharedNetwork, DirectedSharedNetwork'),
      ('nodes and updates', S + 'network.py:SharedNetwork.add, add_nodes, remove, update_edge, remove_edge, contains_edge, num_edges')],
     [('graph', 'the underlying graph'), ('canonical_edge_keys', 'the stored orientation of each undirected edge')],
     'contains_edge, num_edges, node_count, edge_count, edge attributes')

# --- properties this family cannot decide (not_applicable in MANIFEST.json)
prop('P33', 'Floating point results do not depend on the number of ranks',
     'Reducing logged floating point values over ranks gives the same number whatever the number of ranks and the '
     'order in which their values are combined.',
     ['configurations', 'schedules'], 'every number of ranks and every combination order',
     'Rounding depends on values and on the MPI implementation at run time.',
     ['logging.py'], [('reduction', S + 'logging.py:ReducingDataLogger.reduce')])
prop('P34', 'A simulation over many ranks equals the same simulation on one rank',
     'A model whose agents act only on what they can see produces the same history on one rank as distributed over '
     'several, up to the random choices made.',
     ['programs', 'configurations'], 'every model and every distribution',
     'Quantifies over user models and over the values they compute.',
     ['context.py', 'schedule.py'], [('whole library', S)])
prop('P35', 'A restored run continues bit for bit like the uninterrupted one',
     'A run restored from a checkpoint performs exactly the events, in the order and with the values, that the run '
     'which was not interrupted performs.',
     ['crash_points', 'histories'], 'every model, every checkpoint time',
     'Depends on the state of user agents, of MPI and of generators at run time.',
     ['checkpoint.py'], [('whole module', S + 'checkpoint.py')])
prop('P36', 'Every run terminates and no rank waits for ever',
     'Given user code that terminates, every run ends: the schedule of each rank reaches its stop and no rank is '
     'left waiting in a collective operation.',
     ['programs', 'schedules'], 'every model and every schedule of ranks',
     'Liveness depends on what user code schedules on each rank (for example a stop on one rank only).',
     ['schedule.py'], [('run loop', S + 'schedule.py:SharedScheduleRunner.execute')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P))
