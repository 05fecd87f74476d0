"""Contracts of the native part and the properties they carry.

(class pattern, function pattern, properties); the first row that matches decides.  All contracts of functions Python
does not see are optional: where the code no longer has the function it is analysed in place.
"""
import re

T = [
    # bindings
    (r'PyAgent', r'__(init|new)__|get_.*|set_local_rank|__repr__|__str__', 'P28 P29'),
    (r'PyAgent', r'.*', 'P29'),
    (r'Py(Discrete|Continuous)Point', r'__init__|get_.*|_reset.*|__richcmp__', 'P29 P30'),
    (r'Py(Discrete|Continuous)Point', r'.*', 'P29'),
    (r'Py(AgentIterator|PyObjectIterator)', r'__iter__|__next__', 'P29 P13 P16 P17 P18'),
    (r'Py(AgentIterator|PyObjectIterator)', r'.*', 'P29'),
    (r'PyCartesianTopology', r'compute_buffer_nghs', 'P29 P16'),
    (r'PyCartesianTopology', r'__init__', 'P29 P15 P16'),
    (r'PyCartesianTopology', r'get_(coordinates|local_bounds|procs_per_dim)', 'P29 P15'),
    (r'PyCartesianTopology', r'.*', 'P29'),
    (r'PyGrid(Sticky|Periodic)Borders', r'_transform|__init__', 'P29 P14'),
    (r'PyGrid(Sticky|Periodic)Borders', r'.*', 'P29'),
    (r'Py(Shared)?(Grid|ContinuousSpace)', r'get_local_bounds', 'P29 P15'),
    (r'Py(Shared)?(Grid|ContinuousSpace)', r'__init__', 'P29 P13 P14 P15 P16 P17 P18'),
    (r'Py(Shared)?(Grid|ContinuousSpace)', r'_get_buffer_data', 'P29 P16'),
    (r'Py(Shared)?(Grid|ContinuousSpace)', r'_get_oob|_clear_oob', 'P29 P17'),
    (r'Py(Shared)?(Grid|ContinuousSpace)', r'_move_oob_agent', 'P29 P17 P13 P16'),
    (r'Py(Shared)?(Grid|ContinuousSpace)', r'get_agents_within', 'P29 P18'),
    (r'Py(Shared)?(Grid|ContinuousSpace)', r'move', 'P29 P13 P14 P17'),
    (r'Py(Shared)?(Grid|ContinuousSpace)', r'add|remove|contains|get_location|get_agent|get_agents|get_num_agents|get_name', 'P29 P13'),
    (r'Py(Shared)?(Grid|ContinuousSpace)', r'.*', 'P29'),
    (None, r'PyInit_.*', 'P29'),
    # spaces
    (r'PointComp|PtrPointComp', r'.*', 'P13 P18'),
    (r'BoundingBox', r'__init.*|reset_', 'P14 P15 P16 P17 P18 P31'),
    (r'BoundingBox', r'contains.*', 'P15 P17 P18'),
    (r'StickyBorders|PeriodicBorders', r'.*', 'P14'),
    (None, r'transform(X|XY|XYZ)|wrap', 'P14'),
    (r'agent_id_comp', r'.*', 'P28 P13 P17'),
    (r'.*Iter', r'.*', 'P13 P16 P17 P18 P29'),
    (r'(Multi|Single)OccupancyAccessor', r'.*', 'P13 P29'),
    (r'BaseSpace|BaseGrid', r'move', 'P13 P14 P29'),
    (r'BaseSpace|BaseGrid', r'.*', 'P13 P29'),
    (r'BaseCSpace', r'getAgentsWithin|__init__', 'P13 P18 P29'),
    (r'BaseCSpace', r'move', 'P13 P14 P18 P29'),
    (r'BaseCSpace', r'.*', 'P13 P18 P29'),
    (r'(Shared)?(Grid|CSpace|ContinuousSpace)', r'getOOBData|clearOOBData', 'P17'),
    (r'(Shared)?(Grid|CSpace|ContinuousSpace)', r'getNeighborData', 'P16'),
    (r'(Shared)?(Grid|CSpace|ContinuousSpace)', r'getLocalBounds|getCartesianCommunicator', 'P15'),
    (r'(Shared)?(Grid|CSpace|ContinuousSpace)', r'getAgentsWithin', 'P18'),
    (r'(Shared)?(Grid|CSpace|ContinuousSpace)', r'.*', 'P13'),
    (None, r'(extract_coords|point_equals|update_point|create_point|decref).*', 'P13 P14 P17 P18 P29'),
    # index
    (r'NodePoint|Box2D|Box3D|STNode|MOItems|SOItems|ComponentNode|CompositeNode|Composite2DNode|Composite3DNode|SpatialTree|CPSpatialTree(Impl)?',
     r'.*', 'P18 P29'),
    # distribution
    (r'GetBufferInfo|CTNeighbor', r'.*', 'P16'),
    (r'CartesianTopology', r'getNeighbors', 'P16'),
    (r'CartesianTopology', r'.*', 'P15 P16'),
    (None, r'adjust_min_extent', 'P15'),
    (None, r'compute_.*', 'P16'),
    (r'DistributedCartesianSpace', r'__init.*', 'P15 P16 P17'),
    (r'DistributedCartesianSpace', r'getAllBounds', 'P17'),
    (r'DistributedCartesianSpace', r'move', 'P13 P14 P17 P29'),
    (r'DistributedCartesianSpace', r'eraseOOB|clearOOBData|getOOBData', 'P17 P29'),
    (r'DistributedCartesianSpace', r'remove.*', 'P13 P17'),
    (r'DistributedCartesianSpace', r'getNeighborData', 'P16'),
    (r'DistributedCartesianSpace', r'getLocalBounds|getCartesianCommunicator', 'P15'),
    (r'DistributedCartesianSpace', r'getAgentsWithin', 'P18'),
    (r'DistributedCartesianSpace', r'__del__', 'P29'),
    (r'DistributedCartesianSpace', r'.*', 'P13'),
]
FACTS = [
    (r'.* flags', 'P29'),
    (r'.* member', 'P29'),
    (r'Offset<.*', 'P14'),
    (r'TreeItemSelector<.*', 'P18'),
    (r'TypeSelector<.*', 'P14 P13'),
    (r'is_periodic<.*', 'P15 P16'),
    (r'global (MULT_OT|SINGLE_OT)', 'P13'),
    (r'global (STICKY_BRDR|PERIODIC_BRDR)', 'P14'),
    (r'R4Py_AgentID\..* type', 'P28'),
    (r'R4Py_Agent\..* type', 'P28'),
    (r'BoundingBox\..* type', 'P15'),
    (r'CartesianTopology\..* type', 'P15 P16'),
    (r'CTNeighbor\..* type', 'P16'),
    (r'DistributedCartesianSpace\..* type', 'P16 P17'),
    (r'(NodePoint|Box2D|Box3D|CompositeNode|SpatialTree|MOItems|SOItems)\..* type', 'P18'),
]


def tags(cn, fn):
    for c, f, t in T:
        if (c is None) == (cn is None) and (c is None or re.fullmatch(c, cn)) and re.fullmatch(f, fn):
            return tuple(t.split())
    return ()


def roots(m):
    out = []
    for c in m.classes.values():
        for fn in c.methods:
            t = tags(c.name, fn)
            if t:
                out.append((c.name, fn, t, not c.name.startswith('Py')))
    for fn in m.funcs:
        t = tags(None, fn)
        if t:
            out.append((None, fn, t, not fn.startswith('PyInit')))
    return out


def fact_tags(k):
    for p, t in FACTS:
        if re.fullmatch(p, k):
            return tuple(t.split())
    return ()
