"""Rules over the whole package that are not tied to one contract.

uniform(): every collective operation is reached under conditions, and as often, as all ranks agree on.
randomness(): every source of randomness is one the seed controls.
"""
import ast
import os
import re
import config as C
from terms import *
from interp import strip_ver

# attributes every rank sets to the same value (set from constructor arguments, which are documented to be
# the same on every rank, or by collective registration)
UNIFORM_ATTRS = {'projections', 'bounded_projs', 'non_bounded_projs', 'value_layers', 'do_synch', 'zextent', 'yextent',
                 'xextent', 'comm', '_comm', 'cart_comm', '_cart_comm', 'periodic', '_periodic', 'dims', 'buffer_size',
                 'num_dims', 'go', 'interrupted', 'name', '_data_loggers', '_op', 'dtype', 'topo', 'is_directed',
                 'write_layer', 'read_layer', 'full_bounds', 'box'}
# attributes, calls and values that differ between ranks
LOCAL_ATTRS = {'rank', '_rank', 'local_rank', '_local_agents', '_ghost_agents', '_ghosted_agents', 'removed_ghosteds',
               'ghosts_to_ref', 'new_edges', 'ghosted_edges', 'edges_to_update', 'edges_to_remove', '_agents_by_type',
               '_agent_moved_edges', '_no_longer_ghosts', 'ghost_ranks', 'ref_count', '_req_ghosts', 'next_tick', '_rows',
               'queue', 'agent_map', 'graph', 'out_of_bounds_agents', '_agent_map', 'uid', '_idx', 'start_idx',
               'node_count', 'edge_count', 'local_bounds', 'impl', 'send_data', 'recv_data'}
LOCAL_CALLS = {'Get_rank', '_get_oob', '_get_buffer_data', 'get_local', 'get_ghost', 'agents', 'size', 'remove_local',
               'get_local_bounds', 'has_node', 'num_edges', 'is_ghosted_to', 'is_requested', 'node_count'}
COMBINING = {'allgather', 'Allgather', 'allreduce', 'Allreduce', 'bcast', 'Bcast', 'Allgatherv'}
PER_RANK = {'alltoall', 'Alltoall', 'Alltoallv', 'gather', 'Gather', 'reduce', 'Reduce', 'scatter', 'Scatter', 'Alltoallw',
            'scan', 'Scan', 'exscan', 'Exscan'}


def local_part(t, memo=None):
    """A part of the value that differs from rank to rank, or None."""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    memo[t] = None
    r = None
    if t.op == 'res' and t.args and t.args[0] == 'coll':
        if t.args[1] in PER_RANK:
            r = t
        # the result of a combining collective is the same everywhere whatever went in
    elif t.op == 'attr' and t.args[1] in LOCAL_ATTRS:
        r = t
    elif t.op in ('mcall', 'meth') and len(t.args) > 1 and t.args[1] in LOCAL_CALLS:
        r = t
    else:
        for a in t.args:
            if isinstance(a, T):
                r = local_part(a, memo)
                if r is not None:
                    break
    memo[t] = r
    return r


def is_collective(e, own=()):
    """own: methods of the class analysed that communicate"""
    if e.kind != 'call' or e.head.op != 'meth':
        return False
    o, n = strip_ver(e.head.args[0]), e.head.args[1]
    if n in COMM_PROTOCOL or (n in own and o.op == 'self'):
        return True
    if n not in C.COLLECTIVES or o.op == 'self':
        return False
    return n[0].isupper() or o.op != 'attr' or 'comm' in o.args[1] or n == 'reduce'


COMM_PROTOCOL = {'_synch_ghosts', '_pre_synch_ghosts', '_agents_moved_rank', '_post_agents_moved_rank', 'request_agents',
                 'move_agents', 'synchronize'}


def uniformity(events, own=()):
    """(collective events, [(event, rank-dependent value)])"""
    groups, n, bad = {}, 0, []
    for e in events:
        if is_collective(e, own):
            n += 1
            groups.setdefault((e.head.args[0], e.head.args[1], e.frames), []).append(e)
    for (obj, name, frames), es in groups.items():
        # the same operation reached on several branches is reached whenever one of them is taken
        g = bor(*[e.guard for e in es])
        for part in batoms(g):
            x = local_part(strip_ver(part))
            if x is not None and bdepends(g, part):
                bad.append((es[0], x, 'is reached or not depending on'))
                break
        else:
            for f in frames:
                x = local_part(strip_ver(f))
                if x is not None:
                    bad.append((es[0], x, 'is repeated as often as given by'))
                    break
    return n, bad


# ---------------------------------------------------------------- randomness
ALLOWED_RANDOM_MODULE = 'repast4py.random'


def randomness(code, cdir):
    """[(file, line, text)] and the number of references to random sources looked at."""
    bad, n = [], 0
    for m in code.modules.values():
        isr = m.name == ALLOWED_RANDOM_MODULE
        for node in ast.walk(m.tree):
            if isinstance(node, ast.Import):
                for a in node.names:
                    if a.name.split('.')[0] in ('random', 'secrets', 'uuid'):
                        bad.append((m.path, node.lineno, f'module {a.name} is a source of randomness the seed does not control'))
                    if a.name == 'numpy.random' and not isr:
                        bad.append((m.path, node.lineno, 'numpy.random used directly instead of the default generator'))
            elif isinstance(node, ast.ImportFrom):
                if node.level == 0 and (node.module or '').split('.')[0] in ('secrets', 'uuid'):
                    bad.append((m.path, node.lineno, f'module {node.module} is a source of randomness the seed does not control'))
                if node.level == 0 and node.module == 'random':
                    bad.append((m.path, node.lineno, 'module random is a source of randomness the seed does not control'))
                if node.level == 0 and node.module == 'numpy.random' and not isr:
                    bad.append((m.path, node.lineno, 'numpy.random used directly instead of the default generator'))
                if node.module in ('repast4py.random', 'random') and (node.level > 0 or node.module == 'repast4py.random'):
                    for a in node.names:
                        if a.name == 'default_rng' and node in m.tree.body:
                            bad.append((m.path, node.lineno, 'default_rng is bound when the module is loaded: a later random.init '
                                        'replaces the generator but not this reference'))
            elif isinstance(node, (ast.Attribute, ast.Name)) and isinstance(node.ctx, ast.Load):
                d = dotted(node, m)
                if d is None:
                    continue
                if d in ('numpy.random', 'torch.random'):
                    continue
                if d.startswith('numpy.random.'):
                    n += 1
                    if not isr and d not in ('numpy.random.Generator', 'numpy.random.BitGenerator', 'numpy.random.SeedSequence'):
                        bad.append((m.path, node.lineno, f'{d} used instead of the default generator'))
                elif d in ('os.urandom', 'os.getrandom', 'torch.seed', 'torch.Generator'):
                    n += 1
                    bad.append((m.path, node.lineno, f'{d} is a source of randomness the seed does not control'))
                elif d.endswith('default_rng') or d in ('torch.rand', 'torch.randn', 'torch.randint', 'torch.randperm'):
                    n += 1
            elif isinstance(node, ast.FunctionDef):
                for df in node.args.defaults + [x for x in node.args.kw_defaults if x is not None]:
                    for x in ast.walk(df):
                        if isinstance(x, ast.Attribute) and x.attr == 'default_rng':
                            bad.append((m.path, node.lineno, f'default value of a parameter of {node.name} is the generator that '
                                        'exists when the module is loaded'))
    for root, _, files in os.walk(cdir):
        for f in sorted(files):
            if not f.endswith(('.h', '.cpp')):
                continue
            p = os.path.join(root, f)
            s = strip_comments(open(p, errors='replace').read())
            n += 1
            for k, line in enumerate(s.split('\n'), 1):
                mm = re.search(r'\b(std::random_device|std::mt19937(_64)?|std::default_random_engine|std::shuffle|random_shuffle|'
                               r's?rand\s*\(|drand48\s*\(|random\s*\(\s*\)|getrandom\s*\()', line)
                if mm:
                    bad.append((p, k, f'{mm.group(0).strip()} is a source of randomness the seed does not control'))
    return bad, n


def dotted(node, m):
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if not isinstance(node, ast.Name):
        return None
    base = m.imports.get(node.id)
    if base is None:
        return None
    return '.'.join([base] + parts[::-1])


def strip_comments(s):
    def blank(mm):
        return re.sub(r'[^\n]', ' ', mm.group(0))
    return re.sub(r'//[^\n]*|/\*.*?\*/|"(\\.|[^"\\\n])*"', blank, s, flags=re.S)
