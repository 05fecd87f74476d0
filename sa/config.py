"""What the analysis knows about names: purity, effects, and facts about stored values.

Every entry is about a public interface or a library the code uses; private helpers are always
analysed through (inlined), so nothing here depends on how the code is divided into helpers.
"""

# attributes holding dictionaries whose values are objects, hence never None and always true
OBJ_MAPS = {'_local_agents', '_ghost_agents', '_ghosted_agents', 'new_edges', 'ghosted_edges', 'projections',
            'bounded_projs', 'agents', 'canonical_edge_keys', 'agent_map', 'location_map', 'agent_cache',
            'out_of_bounds_agents'}

# pure readers: name -> resources read beside the receiver's own
READS = {
    'get_local': {'_local_agents'},
    'is_requested': {'_req_ghosts'},
    'is_ghosted_to': {'_ghosted_agents', 'ghost_ranks'},
}
# interface calls with effects: name -> resources written or read in an order-relevant way
EFFECTS = {
    'add_req_ghost': {'_req_ghosts'},
    'delete_local': {'_local_agents', '_ghosted_agents', 'removed_ghosteds'},
    'remove_local': {'_local_agents'},
    'add_local': {'_local_agents'},
    'tag_as_ghosted': {'_ghosted_agents', 'ghost_ranks'},
    'set_as_ghosted': {'_ghosted_agents', 'ghost_ranks', '_local_agents'},
    'delete_ghosted': {'_ghosted_agents', 'ghost_ranks'},
    'untag_as_ghosted': {'_ghosted_agents', 'ghost_ranks'},
    'remove_ghost': {'_ghost_agents', '_req_ghosts'},
    'delete_ghost': {'_ghost_agents'},
    'add_ghost': {'_ghost_agents'},
    'add_ghosts_to_projection': {'_ghost_agents', 'projections'},
    'get_ghost': {'_ghost_agents'},
    '_synch_ghosts': {'comm', 'projections', '_ghost_agents', '_ghosted_agents', 'value_layers'},
    '_pre_synch_ghosts': {'comm', 'projections', '_ghost_agents', '_ghosted_agents'},
    '_agent_moving_rank': {'projections', '_ghost_agents', '_ghosted_agents'},
    '_agents_moved_rank': {'comm', 'projections', '_ghost_agents', '_ghosted_agents'},
    '_post_agents_moved_rank': {'comm', 'projections', '_ghost_agents', '_ghosted_agents'},
    '_move_oob_agent': {'projections'},
    '_clear_oob': {'projections'},
}
# readers of private state another object exposes to the library
PURE_OPAQUE = {'_get_oob', '_get_buffer_data'}
# results that are agents or None
AGENT_RESULTS = {'get_local', 'get_ghost', 'agent', 'ghost_agent', 'remove_local', 'tag_as_ghosted'}

COLLECTIVES = {'alltoall', 'Alltoall', 'Alltoallv', 'Alltoallw', 'allreduce', 'Allreduce', 'allgather', 'Allgather',
               'Allgatherv', 'gather', 'Gather', 'Gatherv', 'reduce', 'Reduce', 'bcast', 'Bcast', 'Barrier', 'barrier',
               'scatter', 'Scatter', 'Scatterv', 'scan', 'Scan', 'exscan', 'Exscan', 'Split', 'Create_cart', 'Dup',
               'Create', 'neighbor_alltoall', 'Neighbor_alltoall', 'ialltoall', 'Ibarrier', 'Create_graph'}
POINT2POINT = {'send', 'recv', 'Send', 'Recv', 'isend', 'irecv', 'Isend', 'Irecv', 'sendrecv', 'Sendrecv', 'ssend',
               'Ssend', 'probe', 'Probe', 'iprobe', 'Iprobe', 'bsend', 'Bsend'}

MUTATORS = {'append', 'add', 'remove', 'pop', 'clear', 'update', 'insert', 'extend', 'discard', 'popitem', 'sort',
            'reverse', 'add_node', 'add_nodes_from', 'add_edge', 'add_edges_from', 'remove_edge', 'remove_node',
            'remove_nodes_from', 'remove_edges_from', 'write', 'writelines', 'writerow', 'writerows', 'fill', 'put',
            'move_to_end', 'appendleft', 'popleft', 'difference_update', 'intersection_update', 'resize', 'itemset',
            'push_back', 'emplace', 'erase', 'insert_or_assign', 'swap', 'reset', '_reset', 'emplace_back', 'pop_back',
            'fill_', 'copy_', 'zero_'}
PURE_METHODS = {'get', 'keys', 'values', 'items', 'copy', 'index', 'count', 'startswith', 'endswith', 'split', 'strip',
                'rstrip', 'lstrip', 'join', 'format', 'lower', 'upper', 'replace', 'has_node', 'has_edge', 'edges', 'nodes',
                'number_of_nodes', 'number_of_edges', 'in_edges', 'out_edges', 'neighbors', 'successors', 'predecessors',
                'Get_rank', 'Get_size', 'save', 'degree', 'in_degree', 'out_degree', 'find', 'reshape', 'numpy', 'astype',
                'tolist', 'flatten', 'ravel', 'item', 'exists', 'with_name', 'with_suffix', 'readline', 'get_location',
                'get_agents', 'get_agent', 'get_agents_within', 'get_local_bounds', 'next_tick', 'contains', '__iter__',
                '__len__', '__contains__', '__getitem__', 'isdisjoint', 'union', 'intersection', 'difference', 'issubset',
                'cumsum', 'sum', 'min', 'max', 'mean', 'all', 'any', 'transpose', 'squeeze', 'clone', 'detach', 'view',
                'adj', 'subgraph', 'is_directed', 'compute_buffer_nghs', 'node_count', 'num_edges', 'contains_edge',
                'agent', 'contains_type', 'size', 'splitlines', 'isdigit', 'bit_length', 'encode', 'decode', 'tobytes',
                'ghost_agent', 'has_predecessor', 'has_successor', 'get_edge_data', 'is_multigraph', 'tick', 'empty',
                'begin', 'end', 'data', 'str', 'c_str', 'front', 'back', 'at', 'first', 'second', 'lower_bound'}
GRAPH_READS = {"has_node", "has_edge", "edges", "in_edges", "out_edges", "get_local", "is_ghosted_to", "is_requested", "get_local_rank"}
BOOL_METHODS = {'has_node', 'has_edge', 'contains_edge', 'contains_type', 'is_requested', 'is_ghosted_to', 'exists', 'startswith',
                'endswith', 'isdisjoint', 'issubset'}
RNG_METHODS = {'shuffle', 'integers', 'random', 'uniform', 'choice', 'permutation', 'normal', 'permuted', 'standard_normal',
               'exponential', 'poisson', 'binomial', 'bytes', 'rand', 'randn', 'randint', 'sample'}

PURE_FUNCS_PREFIX = ('numpy.', 'math.', 'itertools.', 'operator.', 'functools.', 'os.path.', 'copy.', 'typing.',
                     'torch.full', 'torch.zeros', 'torch.as_tensor', 'torch.empty', 'torch.tensor', 'torch.from_numpy',
                     'torch.ones', 'json.', 'dataclasses.', 'networkx.', 'collections.', 'pathlib.', 'repast4py.geometry.',
                     'repast4py._space.DiscretePoint', 'repast4py._space.ContinuousPoint',
                     'yaml.load', 'yaml.safe_load', 'types.', 'mpi4py.', 'std::', 'inspect.')
IMPURE_FUNCS = {'numpy.random.seed', 'json.dump', 'yaml.dump', 'heapq.heappush', 'heapq.heappop'}
# constructors: their results are never None
MAKES = {'repast4py._space.DiscretePoint', 'repast4py._space.ContinuousPoint', 'numpy.dtype', 'numpy.zeros', 'numpy.empty', 'numpy.array', 'numpy.ones', 'numpy.full', 'torch.zeros', 'torch.empty',
         'torch.full', 'torch.ones', 'torch.tensor'}
# functions that change their first argument
ARG0_MUTATORS = {'heapq.heappush', 'heapq.heappop', 'heapq.heapify', 'heapq.heapreplace', 'heapq.heappushpop'}
IGNORED_CALLS = {'print', 'warnings.warn', 'logging.debug', 'logging.info', 'logging.warning', 'sys.stdout.flush',
                 'sys.stdout.write', 'sys.stderr.write', 'gc.collect', 'time.time', 'time.perf_counter', 'time.monotonic'}
IGNORED_HEADS = {'logger', 'log', 'warnings', 'logging', 'sys', '_logger', 'LOGGER'}

# small public functions analysed through wherever they are called
INLINE_FUNCS = {'is_empty'}

# helper classes that are part of an operation, not an interface: analysed through
INLINE_CLASSES = {'NetworkRestorer'}

# attributes user callbacks may change between two reads of one operation
VOLATILE = {'interrupted', 'size_', 'executing'}

# value-like point objects: constructor and resetters set the coordinates
POINTS = {'DiscretePoint', 'ContinuousPoint'}

INT_ATTRS = {'rank', 'size', 'ref_count', 'local_rank', 'size_', 'order_idx', 'last_count', '_rank', '_buffer_size', '_idx',
             'projection_id', 'buffer_size', '_size'}

# private methods that are interfaces between objects (dynamically dispatched): never inlined when called on
# another object; analysed on their own
PROTOCOL = {'_pre_synch_ghosts', '_synch_ghosts', '_agent_moving_rank', '_agents_moved_rank',
            '_post_agents_moved_rank', '_get_oob', '_clear_oob', '_move_oob_agent', '_get_buffer_data'}
