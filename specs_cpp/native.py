@dataclass
class R4Py_DiscretePoint:
    ob_base: '_object'
    coords: 'PyArrayObject *'

@dataclass
class R4Py_ContinuousPoint:
    ob_base: '_object'
    coords: 'PyArrayObject *'

@dataclass
class TypeSelector:
    pass

@dataclass
class Point:
    x: 'TypeSelector<PointType>::type'
    y: 'TypeSelector<PointType>::type'
    z: 'TypeSelector<PointType>::type'

@dataclass
class PointComp:

    def __call____coords_coords_0(self, p1, p2):
        if p1.x != p2.x:
            return p1.x < p2.x
        if p1.y != p2.y:
            return p1.y < p2.y
        return p1.z < p2.z

    def __call____coords_coords_1(self, p1, p2):
        if p1.x != p2.x:
            return p1.x < p2.x
        if p1.y != p2.y:
            return p1.y < p2.y
        return p1.z < p2.z

@dataclass
class PtrPointComp:

    def __call____pt_pt_0(self, p1, p2):
        p1_data = p1.coords
        p2_data = p2.coords
        if p1_data[0] != p2_data[0]:
            return p1_data[0] < p2_data[0]
        if p1_data[1] != p2_data[1]:
            return p1_data[1] < p2_data[1]
        return p1_data[2] < p2_data[2]

    def __call____pt_pt_1(self, p1, p2):
        p1_data = p1.coords
        p2_data = p2.coords
        if p1_data[0] != p2_data[0]:
            return p1_data[0] < p2_data[0]
        if p1_data[1] != p2_data[1]:
            return p1_data[1] < p2_data[1]
        return p1_data[2] < p2_data[2]

class BoundingBox:

    def __del__(self):
        pass

    def __init___6(self, xmin, x_extent, ymin, y_extent, zmin=0, z_extent=0):
        self.xmin_ = xmin
        self.xmax_ = xmin + x_extent
        self.ymin_ = ymin
        self.ymax_ = ymin + y_extent
        self.zmin_ = zmin
        self.zmax_ = zmin + z_extent
        self.x_extent_ = x_extent
        self.y_extent_ = y_extent
        self.z_extent_ = z_extent
        self.num_dims = 1
        if self.y_extent_ > 0:
            self.num_dims = 2
        if self.z_extent_ > 0:
            self.num_dims = 3

    def __init__(self, other):
        self.xmin_ = other.xmin_
        self.xmax_ = other.xmin_ + other.x_extent_
        self.ymin_ = other.ymin_
        self.ymax_ = other.ymin_ + other.y_extent_
        self.zmin_ = other.zmin_
        self.zmax_ = other.zmin_ + other.z_extent_
        self.x_extent_ = other.x_extent_
        self.y_extent_ = other.y_extent_
        self.z_extent_ = other.z_extent_
        self.num_dims = 1
        if self.y_extent_ > 0:
            self.num_dims = 2
        if self.z_extent_ > 0:
            self.num_dims = 3

    def reset_(self, xmin, x_extent, ymin, y_extent, zmin=0, z_extent=0):
        self.xmin_ = xmin
        self.x_extent_ = x_extent
        self.xmax_ = xmin + x_extent
        self.ymin_ = ymin
        self.y_extent_ = y_extent
        self.ymax_ = ymin + y_extent
        self.zmin_ = zmin
        self.z_extent_ = z_extent
        self.zmax_ = zmin + z_extent
        self.num_dims = 1
        if self.y_extent_ > 0:
            self.num_dims = 2
        if self.z_extent_ > 0:
            self.num_dims = 3

    def contains___dpt(self, pt):
        data = pt.coords
        y_contains = True
        z_contains = True
        x_contains = data[0] >= self.xmin_ and data[0] < self.xmax_
        if self.num_dims == 2:
            y_contains = data[1] >= self.ymin_ and data[1] < self.ymax_
        elif self.num_dims == 3:
            y_contains = data[1] >= self.ymin_ and data[1] < self.ymax_
            z_contains = data[2] >= self.zmin_ and data[2] < self.zmax_
        return (x_contains and y_contains) and z_contains

    def contains___dcoords(self, pt):
        y_contains = True
        z_contains = True
        x_contains = pt.x >= self.xmin_ and pt.x < self.xmax_
        if self.num_dims == 2:
            y_contains = pt.y >= self.ymin_ and pt.y < self.ymax_
        elif self.num_dims == 3:
            y_contains = pt.y >= self.ymin_ and pt.y < self.ymax_
            z_contains = pt.z >= self.zmin_ and pt.z < self.zmax_
        return (x_contains and y_contains) and z_contains

    def contains___cpt(self, pt):
        data = pt.coords
        y_contains = True
        z_contains = True
        x_contains = data[0] >= self.xmin_ and data[0] < self.xmax_
        if self.num_dims == 2:
            y_contains = data[1] >= self.ymin_ and data[1] < self.ymax_
        elif self.num_dims == 3:
            y_contains = data[1] >= self.ymin_ and data[1] < self.ymax_
            z_contains = data[2] >= self.zmin_ and data[2] < self.zmax_
        return (x_contains and y_contains) and z_contains

    def contains___ccoords(self, pt):
        y_contains = True
        z_contains = True
        x_contains = pt.x >= self.xmin_ and pt.x < self.xmax_
        if self.num_dims == 2:
            y_contains = pt.y >= self.ymin_ and pt.y < self.ymax_
        elif self.num_dims == 3:
            y_contains = pt.y >= self.ymin_ and pt.y < self.ymax_
            z_contains = pt.z >= self.zmin_ and pt.z < self.zmax_
        return (x_contains and y_contains) and z_contains

class StickyBorders:

    def __del__(self):
        pass

    def __init__(self, bounds):
        self.bounds_ = bounds

    def transform__pt_pt(self, pt, transformed_pt):
        data = pt.coords
        t_data = transformed_pt.coords
        t_data[0] = max(self.bounds_.xmin_, min(self.bounds_.xmax_ - Offset_PointType_value, data[0]))
        t_data[1] = max(self.bounds_.ymin_, min(self.bounds_.ymax_ - Offset_PointType_value, data[1]))
        t_data[2] = max(self.bounds_.zmin_, min(self.bounds_.zmax_ - Offset_PointType_value, data[2]))
        return transformed_pt

    def transform__pt_coords(self, pt, transformed_pt):
        data = pt.coords
        transformed_pt.x = max(self.bounds_.xmin_, min(self.bounds_.xmax_ - Offset_PointType_value, data[0]))
        transformed_pt.y = max(self.bounds_.ymin_, min(self.bounds_.ymax_ - Offset_PointType_value, data[1]))
        transformed_pt.z = max(self.bounds_.zmin_, min(self.bounds_.zmax_ - Offset_PointType_value, data[2]))
        return transformed_pt

@dataclass
class Offset:
    pass

class PeriodicBorders:

    def __del__(self):
        pass

    def __init__(self, bounds):
        self.bounds_ = bounds
        if (self.bounds_.x_extent_ > 0 and self.bounds_.y_extent_ > 0) and self.bounds_.z_extent_ > 0:
            self.transform_ = transformXYZ
        elif self.bounds_.x_extent_ > 0 and self.bounds_.y_extent_ > 0:
            self.transform_ = transformXY
        else:
            self.transform_ = transformX

    def transform__pt_coords(self, pt, transformed_pt):
        transformed_pt = self.transform_(pt, self.bounds_)
        return transformed_pt

    def transform__pt_pt(self, pt, transformed_pt):
        self_temp_pt = self.transform_(pt, self.bounds_)
        data = transformed_pt.coords
        data[0] = self_temp_pt.x
        data[1] = self_temp_pt.y
        data[2] = self_temp_pt.z
        return transformed_pt

@dataclass
class R4Py_GridStickyBorders:
    ob_base: '_object'
    borders: 'GridStickyBorders *'

@dataclass
class R4Py_GridPeriodicBorders:
    ob_base: '_object'
    borders: 'GridPeriodicBorders *'

@dataclass
class R4Py_AgentID:
    id: 'long'
    type: 'int'
    rank: 'unsigned int'
    as_tuple: 'PyObject *'

@dataclass
class agent_id_comp:

    def __call__(self, a1, a2):
        if a1.id != a2.id:
            return a1.id < a2.id
        if a1.type != a2.type:
            return a1.type < a2.type
        return a1.rank < a2.rank

@dataclass
class R4Py_Agent:
    ob_base: '_object'
    aid: 'R4Py_AgentID *'
    local_rank: 'unsigned int'

class AgentIter:

    def __init__(self):
        pass

    def __del__(self):
        pass

@dataclass
class R4Py_AgentIter:
    ob_base: '_object'
    iter: 'AgentIter *'

class TAgentIter(AgentIter):

    def __del__(self):
        pass

    def __init__(self, iterable):
        self.iterable_ = iterable
        self.iter_ = self.iterable_.begin()

    def hasNext(self):
        return self.iter_ != self.iterable_.end()

    def reset_(self):
        self.iter_ = self.iterable_.begin()

    def next_(self):
        agent = self.iter_
        self.iter_ += 1
        return agent

class PyObjectIter:

    def __init__(self):
        self.incr = False

    def __del__(self):
        pass

@dataclass
class R4Py_PyObjectIter:
    ob_base: '_object'
    iter: 'PyObjectIter *'

class ValueIter(PyObjectIter):

    def __del__(self):
        pass

    def __init__(self, iterable):
        super().__init__()
        self.iterable_ = iterable
        self.iter_ = self.iterable_.begin()

    def hasNext(self):
        return self.iter_ != self.iterable_.end()

    def reset_(self):
        self.iter_ = self.iterable_.begin()

    def next_(self):
        obj = self.iter_[1]
        self.iter_ += 1
        return obj

class SequenceIter(PyObjectIter):

    def __del__(self):
        pass

    def __init__(self, iterable):
        super().__init__()
        self.iterable_ = iterable
        self.iter_ = self.iterable_.begin()

    def hasNext(self):
        return self.iter_ != self.iterable_.end()

    def reset_(self):
        self.iter_ = self.iterable_.begin()

    def next_(self):
        obj = self.unpack(self.iter_)
        self.iter_ += 1
        return obj

class MultiOccupancyAccessor:

    def __del__(self):
        pass

    def __init__(self):
        pass

    def get_(self, location_map, pt):
        iter_key = pt
        iter_in = iter_key in location_map
        if not iter_in or len(location_map[iter_key]) == 0:
            return None
        return location_map[iter_key][0]

    def size_(self, location_map, pt):
        iter_key = pt
        iter_in = iter_key in location_map
        if not iter_in:
            return 0
        return len(location_map[iter_key])

    def getAll(self, location_map, pt):
        iter_key = pt
        iter_in = iter_key in location_map
        if not iter_in:
            return empty_list
        return location_map[iter_key]

    def put_(self, agent, location_map, pt):
        iter_key = pt
        iter_in = iter_key in location_map
        if not iter_in:
            l = []
            l.append(agent)
            if pt not in location_map:
                location_map[pt] = l
        else:
            location_map[iter_key].append(agent)
        Py_INCREF(agent)
        return True

    def remove_(self, agent, location_map, pt):
        iter_key = pt
        iter_in = iter_key in location_map
        if not iter_in:
            return False
        agent_iter_key = agent
        agent_iter_in = agent_iter_key in location_map[iter_key]
        if not agent_iter_in:
            return False
        location_map[iter_key].remove(agent_iter_key)
        Py_DECREF(agent)
        if len(location_map[iter_key]) == 0:
            del location_map[iter_key]
        return True

class SingleOccupancyAccessor:

    def __del__(self):
        pass

    def __init__(self):
        pass

    def get_(self, location_map, pt):
        iter_key = pt
        iter_in = iter_key in location_map
        if not iter_in:
            return None
        return location_map[iter_key]

    def size_(self, location_map, pt):
        iter_key = pt
        iter_in = iter_key in location_map
        if not iter_in:
            return 0
        return 1

    def getAll(self, location_map, pt):
        iter_key = pt
        iter_in = iter_key in location_map
        if not iter_in:
            return empty_list
        l = [[location_map[iter_key]]]
        return l

    def put_(self, agent, location_map, pt):
        iter_key = pt
        iter_in = iter_key in location_map
        if not iter_in:
            if pt not in location_map:
                location_map[pt] = agent
            Py_INCREF(agent)
            return True
        return False

    def remove_(self, agent, location_map, pt):
        iter_key = pt
        iter_in = iter_key in location_map
        if not iter_in:
            return False
        Py_DECREF(location_map[iter_key])
        del location_map[iter_key]
        return True

@dataclass
class SpaceItem:
    pt: 'PointType *'
    agent: 'R4Py_Agent *'

class BaseSpace:

    def __init__(self, name, bounds):
        self.agent_map = {}
        self.location_map = {}
        self.borders = bounds
        self.name_ = name

    def __del__(self):
        for kv_k, kv_v in self.agent_map.items():
            if kv_v.pt is not None:
                Py_DECREF(kv_v.pt)
            Py_DECREF(kv_v.agent)
        for kv_v2_k, kv_v2_v in self.location_map.items():
            decref(kv_v2_v)
        self.agent_map.clear()
        self.location_map.clear_()

    def add_(self, agent):
        if self.contains_(agent):
            return True
        item = SpaceItem()
        item.agent = agent
        Py_INCREF(agent)
        item.pt = None
        self.agent_map[agent.aid] = item
        return True

    def remove___aid(self, aid):
        iter_key = aid
        iter_in = iter_key in self.agent_map
        ret_val = False
        if iter_in:
            if self.agent_map[iter_key].pt is not None:
                self_wpt = extract_coords(self.agent_map[iter_key].pt)
                ret_val = self.accessor.remove_(self.agent_map[iter_key].agent, self.location_map, self_wpt)
            if self.agent_map[iter_key].pt is not None:
                Py_DECREF(self.agent_map[iter_key].pt)
            Py_DECREF(self.agent_map[iter_key].agent)
            del self.agent_map[iter_key]
        return ret_val

    def remove___agent(self, agent):
        return self.remove_(agent.aid)

    def getAgentAt(self, pt):
        self_wpt = extract_coords(pt)
        return self.accessor.get_(self.location_map, self_wpt)

    def getAgentsAt(self, pt):
        self_wpt = extract_coords(pt)
        return self.accessor.getAll(self.location_map, self_wpt)

    def getLocation(self, agent):
        iter_key = agent.aid
        iter_in = iter_key in self.agent_map
        if iter_in:
            return self.agent_map[iter_key].pt
        return None

    def contains_(self, agent):
        return agent.aid in self.agent_map

    def name(self):
        return self.name_

@dataclass
class is_periodic:
    pass

class BaseGrid(BaseSpace):

    def __init__(self, name, bounds):
        super().__init__(name, bounds)

    def __del__(self):
        pass

    def getAgentsWithin(self, bounds, agents):
        pass

    def move(self, agent, pt):
        iter_key = agent.aid
        iter_in = iter_key in self.agent_map
        if iter_in:
            self_wpt = self.borders.transform(pt)
            if not point_equals(self.agent_map[iter_key].pt, self_wpt):
                if self.accessor.put_(agent, self.location_map, self_wpt):
                    if self.agent_map[iter_key].pt is not None:
                        ppt = Point()
                        ppt = extract_coords(self.agent_map[iter_key].pt)
                        self.accessor.remove_(agent, self.location_map, ppt)
                        update_point(self.agent_map[iter_key].pt, self_wpt)
                    else:
                        self.agent_map[iter_key].pt = create_point(Py_TYPE(pt), self_wpt)
                else:
                    return None
            return self.agent_map[iter_key].pt
        else:
            id = agent.aid
            raise invalid_argument('Error moving agent (' + to_string(id.id) + ',' + to_string(id.type) + '): agent is not in ' + self.name_)

@dataclass
class IGrid:

    def __del__(self):
        pass

class Grid(IGrid):

    def __del__(self):
        pass

    def __init__(self, name, bounds):
        self.delegate = DelegateType(name, bounds)

    def add_(self, agent):
        return self.delegate.add_(agent)

    def remove___agent(self, agent):
        return self.delegate.remove_(agent)

    def remove___aid(self, aid):
        return self.delegate.remove_(aid)

    def getAgentAt(self, pt):
        return self.delegate.getAgentAt(pt)

    def getAgentsAt(self, pt):
        return self.delegate.getAgentsAt(pt)

    def getLocation(self, agent):
        return self.delegate.getLocation(agent)

    def move(self, agent, to):
        return self.delegate.move(agent, to)

    def name(self):
        return self.delegate.name()

    def contains_(self, agent):
        return self.delegate.contains_(agent)

@dataclass
class R4Py_Grid:
    ob_base: '_object'
    grid: 'IGrid *'

class NodePoint:

    def __init__(self, x, y, z):
        self.x_ = x
        self.y_ = y
        self.z_ = z

class Box2D:

    def __init__(self, min, max_x, max_y, max_z=0):
        self.min_ = min
        self.max_ = NodePoint(max_x, max_y, 0)
        self.x_extent = self.max_.x_ - min.x_
        self.y_extent = self.max_.y_ - min.y_
        self.z_extent = 0

    def contains_(self, pt):
        data = pt.coords
        return ((data[0] >= self.min_.x_ and data[0] <= self.max_.x_) and data[1] >= self.min_.y_) and data[1] <= self.max_.y_

    def intersects(self, bbox):
        if self.min_.x_ > bbox.xmax_ or bbox.xmin_ > self.max_.x_:
            return False
        if self.min_.y_ > bbox.ymax_ or bbox.ymin_ > self.max_.y_:
            return False
        return True

class Box3D:

    def __init__(self, min, max_x, max_y, max_z):
        self.min_ = min
        self.max_ = NodePoint(max_x, max_y, max_z)
        self.x_extent = max_x - min.x_
        self.y_extent = max_y - min.y_
        self.z_extent = max_z - min.z_

    def contains_(self, pt):
        data = pt.coords
        return ((((data[0] >= self.min_.x_ and data[0] <= self.max_.x_) and data[1] >= self.min_.y_) and data[1] <= self.max_.y_) and data[2] >= self.min_.z_) and data[2] <= self.max_.z_

    def intersects(self, bbox):
        if self.min_.x_ > bbox.xmax_ or bbox.xmin_ > self.max_.x_:
            return False
        if self.min_.y_ > bbox.ymax_ or bbox.ymin_ > self.max_.y_:
            return False
        if self.min_.z_ > bbox.zmax_ or bbox.zmin_ > self.max_.z_:
            return False
        return True

class STNode:

    def __init__(self, pt, x_extent, y_extent, z_extent):
        self.bounds_ = BoxType(pt, pt.x_ + x_extent, pt.y_ + y_extent, pt.z_ + z_extent)

    def __del__(self):
        pass

    def contains_(self, pt):
        return self.bounds_.contains_(pt)

class MOItems:

    def __init__(self):
        self.sum = 0
        self.points = {}

    def __del__(self):
        pass

    def add_(self, pt):
        ppt = Point()
        ppt = extract_coords(pt)
        pts = self.points[ppt]
        if len(pts) == 0:
            self.sum += 1
        Py_INCREF(pt)
        pts.append(pt)

    def remove_(self, pt):
        ppt = Point()
        ppt = extract_coords(pt)
        kv_key = ppt
        kv_in = kv_key in self.points
        if kv_in:
            iter_key = pt
            iter_in = iter_key in self.points[kv_key]
            if iter_in:
                Py_DECREF(iter_key)
                self.points[kv_key].remove(iter_key)
                if len(self.points[kv_key]) == 0:
                    del self.points[kv_key]
                    self.sum -= 1
                return True
        return False

    def addToNode__2D_n(self, node, threshold):
        for kv_k, kv_v in self.points.items():
            for pt in kv_v:
                node.addItem(pt, threshold)

    def addToNode__3D_n(self, node, threshold):
        for kv_k, kv_v in self.points.items():
            for pt in kv_v:
                node.addItem(pt, threshold)

    def getObjectsWithin(self, box, loc_map, agents):
        for kv_k, kv_v in self.points.items():
            if box.contains_(kv_k):
                agent_lst = loc_map[kv_k]
                agents.extend(agent_lst)

    def size_(self):
        return self.sum

    def clear_(self):
        for kv_k, kv_v in self.points.items():
            for pt in kv_v:
                Py_DECREF(pt)
        self.points.clear()
        self.sum = 0

class SOItems:

    def __init__(self):
        self.points = set()

    def __del__(self):
        pass

    def add_(self, pt):
        Py_INCREF(pt)
        self.points.add(pt)

    def remove_(self, pt):
        it_key = pt
        it_in = it_key in self.points
        if it_in:
            Py_DECREF(it_key)
            self.points.remove(it_key)
            return True
        return False

    def addToNode__2D_n(self, node, threshold):
        for pt in self.points:
            node.addItem(pt, threshold)

    def addToNode__3D_n(self, node, threshold):
        for pt in self.points:
            node.addItem(pt, threshold)

    def getObjectsWithin(self, box, loc_map, agents):
        ppt = Point()
        for pt in self.points:
            if box.contains_(pt):
                ppt = extract_coords(pt)
                agent = loc_map[ppt]
                agents.append(agent)

    def size_(self):
        return len(self.points)

    def clear_(self):
        for pt in self.points:
            Py_DECREF(pt)
        self.points.clear()
        return

@dataclass
class TreeItemSelector:
    pass

class ComponentNode(STNode):

    def __init__(self, pt, xextent, yextent, zextent):
        super().__init__(pt, xextent, yextent, zextent)

    def __del__(self):
        pass

    def addItem(self, pt, threshold):
        self.items.add_(pt)
        return self.items.size_() > threshold

    def removeItem(self, pt):
        return self.items.remove_(pt)

    def getObjectsWithin(self, box, loc_map, agents):
        if self.items.size_() != 0 and self.bounds_.intersects(box):
            self.items.getObjectsWithin(box, loc_map, agents)

    def split_(self):
        parent = None
        if self.bounds_.z_extent == 0:
            parent = Composite2DNode(self.bounds_.min_, self.bounds_.x_extent, self.bounds_.y_extent)
        elif self.bounds_.z_extent > 0:
            parent = Composite3DNode(self.bounds_.min_, self.bounds_.x_extent, self.bounds_.y_extent, self.bounds_.z_extent)
        self.items.addToNode(parent, max())
        self.items.clear_()
        return parent

class CompositeNode(STNode):

    def __init__(self, min, x_extent, y_extent, z_extent):
        super().__init__(min, x_extent, y_extent, z_extent)
        self.children = []
        self.x_plane = 0
        self.y_plane = 0
        self.z_plane = 0
        self.size = 0

    def __del__(self):
        pass

    def getObjectsWithin(self, box, loc_map, agents):
        if self.size > 0 and self.bounds_.intersects(box):
            for child in self.children:
                child.getObjectsWithin(box, loc_map, agents)

    def addItem(self, pt, threshold):
        if self.contains_(pt):
            index = self.calcChildIndex(pt)
            split = self.children[index].addItem(pt, threshold)
            if split:
                parent = self.children[index].split_()
                self.children[index] = parent
            self.size += 1
        return False

    def removeItem(self, pt):
        if self.contains_(pt):
            index = self.calcChildIndex(pt)
            if self.children[index].removeItem(pt):
                self.size -= 1
                return True
        return False

    def split_(self):
        raise domain_error('Split cannot be called on a composite node')

class Composite2DNode(CompositeNode):

    def __init__(self, min, x_extent, y_extent):
        super().__init__(min, x_extent, y_extent, 0)
        half_x = self.bounds_.x_extent / 2
        half_y = self.bounds_.y_extent / 2
        self.x_plane = min.x_ + half_x
        self.y_plane = min.y_ + half_y
        pt1 = NodePoint(min.x_, min.y_, 0)
        self.children.append(ComponentNode(pt1, half_x, half_y, 0))
        pt2 = NodePoint(min.x_, min.y_ + half_y, 0)
        self.children.append(ComponentNode(pt2, half_x, half_y, 0))
        pt3 = NodePoint(min.x_ + half_x, min.y_, 0)
        self.children.append(ComponentNode(pt3, half_x, half_y, 0))
        pt4 = NodePoint(min.x_ + half_x, min.y_ + half_y, 0)
        self.children.append(ComponentNode(pt4, half_x, half_y, 0))

    def __del__(self):
        pass

    def calcChildIndex(self, pt):
        index = 0
        data = pt.coords
        if data[0] >= self.x_plane:
            index = 2
        if data[1] >= self.y_plane:
            index += 1
        return index

class Composite3DNode(CompositeNode):

    def __init__(self, min, x_extent, y_extent, z_extent):
        super().__init__(min, x_extent, y_extent, z_extent)
        half_x = self.bounds_.x_extent / 2
        half_y = self.bounds_.y_extent / 2
        half_z = self.bounds_.z_extent / 2
        self.x_plane = min.x_ + half_x
        self.y_plane = min.y_ + half_y
        self.z_plane = min.z_ + half_z
        pt1 = NodePoint(min.x_, min.y_, min.z_)
        self.children.append(ComponentNode(pt1, half_x, half_y, half_z))
        pt2 = NodePoint(min.x_, min.y_, min.z_ + half_z)
        self.children.append(ComponentNode(pt2, half_x, half_y, half_z))
        pt3 = NodePoint(min.x_, min.y_ + half_y, min.z_)
        self.children.append(ComponentNode(pt3, half_x, half_y, half_z))
        pt4 = NodePoint(min.x_, min.y_ + half_y, min.z_ + half_z)
        self.children.append(ComponentNode(pt4, half_x, half_y, half_z))
        pt5 = NodePoint(min.x_ + half_x, min.y_, min.z_)
        self.children.append(ComponentNode(pt5, half_x, half_y, half_z))
        pt6 = NodePoint(min.x_ + half_x, min.y_, min.z_ + half_z)
        self.children.append(ComponentNode(pt6, half_x, half_y, half_z))
        pt7 = NodePoint(min.x_ + half_x, min.y_ + half_y, min.z_)
        self.children.append(ComponentNode(pt7, half_x, half_y, half_z))
        pt8 = NodePoint(min.x_ + half_x, min.y_ + half_y, min.z_ + half_z)
        self.children.append(ComponentNode(pt8, half_x, half_y, half_z))

    def __del__(self):
        pass

    def calcChildIndex(self, pt):
        index = 0
        data = pt.coords
        if data[0] >= self.x_plane:
            index = 4
        if data[1] >= self.y_plane:
            index += 2
        if data[2] >= self.z_plane:
            index += 1
        return index

class SpatialTree:

    def __init__(self, threshold, box, loc_map):
        self.root = None
        self.threshold_ = threshold
        self.loc_map_ = loc_map
        min = NodePoint(box.xmin_, box.ymin_, box.zmin_)
        if box.num_dims == 1:
            pass
        elif box.num_dims == 2:
            self.root = Composite2DNode(min, box.x_extent_, box.y_extent_)
        elif box.num_dims == 3:
            self.root = Composite3DNode(min, box.x_extent_, box.y_extent_, box.z_extent_)

    def __del__(self):
        pass

    def addItem(self, item):
        self.root.addItem(item.pt, self.threshold_)

    def removeItem(self, item):
        return self.root.removeItem(item.pt)

    def getObjectsWithin(self, box, agents):
        self.root.getObjectsWithin(box, self.loc_map_, agents)

@dataclass
class CPSpatialTree:

    def __del__(self):
        pass

class CPSpatialTreeImpl(CPSpatialTree):

    def __init__(self, threshold, box, loc_map):
        self.delegate = DelegateType(threshold, box, loc_map)

    def __del__(self):
        pass

    def addItem(self, item):
        self.delegate.addItem(item)

    def removeItem(self, item):
        return self.delegate.removeItem(item)

    def getObjectsWithin(self, box, agents):
        self.delegate.getObjectsWithin(box, agents)

class BaseCSpace(BaseSpace):

    def __init__(self, name, bounds, tree_threshold):
        super().__init__(name, bounds)
        self.spatial_tree = None
        if bounds.num_dims == 1:
            pass
        elif bounds.num_dims == 2:
            self.spatial_tree = CPSpatialTreeImpl(tree_threshold, bounds, self.location_map, of='SpatialTree,Box2D,R4Py_ContinuousPoint')
        elif bounds.num_dims == 3:
            self.spatial_tree = CPSpatialTreeImpl(tree_threshold, bounds, self.location_map, of='SpatialTree,Box3D,R4Py_ContinuousPoint')

    def __del__(self):
        pass

    def getAgentsWithin(self, bounds, agents):
        if self.spatial_tree is not None:
            self.spatial_tree.getObjectsWithin(bounds, agents)
        else:
            for kv_k, kv_v in self.agent_map.items():
                if kv_v.pt is not None and bounds.contains_(kv_v.pt):
                    agents.append(kv_v.agent)

    def remove___agent(self, agent):
        return self.remove_(agent.aid)

    def remove___aid(self, aid):
        iter_key = aid
        iter_in = iter_key in self.agent_map
        if (self.spatial_tree is not None and iter_in) and self.agent_map[iter_key].pt is not None:
            self.spatial_tree.removeItem(self.agent_map[iter_key])
        return super().remove_(aid)

    def move(self, agent, pt):
        iter_key = agent.aid
        iter_in = iter_key in self.agent_map
        if iter_in:
            self_wpt = self.borders.transform(pt)
            if not point_equals(self.agent_map[iter_key].pt, self_wpt):
                if self.accessor.put_(agent, self.location_map, self_wpt):
                    if self.agent_map[iter_key].pt is not None:
                        if self.spatial_tree is not None:
                            self.spatial_tree.removeItem(self.agent_map[iter_key])
                        ppt = Point()
                        ppt = extract_coords(self.agent_map[iter_key].pt)
                        self.accessor.remove_(agent, self.location_map, ppt)
                        update_point(self.agent_map[iter_key].pt, self_wpt)
                        if self.spatial_tree is not None:
                            self.spatial_tree.addItem(self.agent_map[iter_key])
                    else:
                        self.agent_map[iter_key].pt = create_point(Py_TYPE(pt), self_wpt)
                        if self.spatial_tree is not None:
                            self.spatial_tree.addItem(self.agent_map[iter_key])
                else:
                    return None
            return self.agent_map[iter_key].pt
        else:
            id = agent.aid
            raise invalid_argument('Error moving agent (' + to_string(id.id) + ',' + to_string(id.type) + '): agent is not in ' + self.name_)

@dataclass
class ICSpace:

    def __del__(self):
        pass

class CSpace(ICSpace):

    def __del__(self):
        pass

    def __init__(self, name, bounds, tree_threshold):
        self.delegate = DelegateType(name, bounds, tree_threshold)

    def add_(self, agent):
        return self.delegate.add_(agent)

    def remove___agent(self, agent):
        return self.delegate.remove_(agent)

    def remove___aid(self, aid):
        return self.delegate.remove_(aid)

    def getAgentAt(self, pt):
        return self.delegate.getAgentAt(pt)

    def getAgentsAt(self, pt):
        return self.delegate.getAgentsAt(pt)

    def getLocation(self, agent):
        return self.delegate.getLocation(agent)

    def move(self, agent, to):
        return self.delegate.move(agent, to)

    def getAgentsWithin(self, box, agents):
        self.delegate.getAgentsWithin(box, agents)

    def name(self):
        return self.delegate.name()

    def contains_(self, agent):
        return self.delegate.contains_(agent)

@dataclass
class R4Py_CSpace:
    ob_base: '_object'
    space: 'ICSpace *'

@dataclass
class CTNeighbor:
    rank: 'int'
    cart_coord_x: 'int'
    cart_coord_y: 'int'
    cart_coord_z: 'int'
    buffer_info: 'PyObject *'
    local_bounds: 'BoundingBox'

@dataclass
class GetBufferInfo:

    def __call__(self, ct):
        return ct.buffer_info

class CartesianTopology:

    def numDims(self):
        return self.num_dims_

    def procsPerDim(self):
        return self.procs_per_dim

    def __init____n_box(self, comm, cart_comm, num_dims, global_bounds, periodic):
        self.num_dims_ = num_dims
        self.procs_per_dim = None
        self.periodic_ = periodic
        self.bounds_ = global_bounds
        self.x_remainder = 0
        self.y_remainder = 0
        self.z_remainder = 0
        size = MPI_Comm_size(comm)
        self.procs_per_dim = [0] * num_dims
        self.procs_per_dim = [0] * num_dims
        self.procs_per_dim = MPI_Dims_create(size, num_dims, self.procs_per_dim)
        periods = [0] * num_dims
        periods = [1 if periodic else 0] * num_dims
        cart_comm = MPI_Cart_create(comm, num_dims, self.procs_per_dim, periods, 0)
        self.comm_ = cart_comm
        self.x_remainder = self.bounds_.x_extent_ % self.procs_per_dim[0]
        if self.num_dims_ > 1:
            self.y_remainder = self.bounds_.y_extent_ % self.procs_per_dim[1]
            if self.num_dims_ == 3:
                self.z_remainder = self.bounds_.z_extent_ % self.procs_per_dim[2]

    def __init____vec_box(self, comm, cart_comm, procs_per_dimension, global_bounds, periodic):
        self.num_dims_ = len(procs_per_dimension)
        self.procs_per_dim = None
        self.periodic_ = periodic
        self.bounds_ = global_bounds
        self.x_remainder = 0
        self.y_remainder = 0
        self.z_remainder = 0
        size = MPI_Comm_size(comm)
        total_requested_size = 1
        for val in procs_per_dimension:
            total_requested_size *= val
        if total_requested_size > size:
            raise invalid_argument('Unable to create topology - request number of processes per dimension is greater than available processors')
        self.procs_per_dim = [0] * self.num_dims_
        for i in range(self.num_dims_):
            self.procs_per_dim[i] = procs_per_dimension[i]
        periods = [0] * self.num_dims_
        periods = [1 if periodic else 0] * self.num_dims_
        cart_comm = MPI_Cart_create(comm, self.num_dims_, self.procs_per_dim, periods, 0)
        self.comm_ = cart_comm
        self.x_remainder = self.bounds_.x_extent_ % self.procs_per_dim[0]
        if self.num_dims_ > 1:
            self.y_remainder = self.bounds_.y_extent_ % self.procs_per_dim[1]
            if self.num_dims_ == 3:
                self.z_remainder = self.bounds_.z_extent_ % self.procs_per_dim[2]

    def __del__(self):
        delete(self.procs_per_dim)

    def getCoords(self, coords):
        coords.resize(self.num_dims_)
        coords = MPI_Cart_coords(self.comm_, self.getRank(), self.num_dims_)

    def getRank(self):
        rank = MPI_Comm_rank(self.comm_)
        return rank

    def getBounds_2(self, rank, local_bounds):
        coords = [0] * self.num_dims_
        coords = MPI_Cart_coords(self.comm_, rank, self.num_dims_)
        x_extent = int(floor(self.bounds_.x_extent_ / self.procs_per_dim[0]))
        xmin = self.bounds_.xmin_ + x_extent * coords[0]
        xmin, x_extent = adjust_min_extent(coords[0], self.x_remainder, xmin, x_extent)
        ymin = 0
        y_extent = 0
        zmin = 0
        z_extent = 0
        if self.num_dims_ > 1:
            y_extent = int(floor(self.bounds_.y_extent_ / self.procs_per_dim[1]))
            ymin = self.bounds_.ymin_ + y_extent * coords[1]
            ymin, y_extent = adjust_min_extent(coords[1], self.y_remainder, ymin, y_extent)
        if self.num_dims_ == 3:
            z_extent = int(floor(self.bounds_.z_extent_ / self.procs_per_dim[2]))
            zmin = self.bounds_.zmin_ + z_extent * coords[2]
            zmin, z_extent = adjust_min_extent(coords[2], self.z_remainder, zmin, z_extent)
        local_bounds.reset_(xmin, x_extent, ymin, y_extent, zmin, z_extent)

    def getBounds(self, local_bounds):
        rank = self.getRank()
        self.getBounds_2(rank, local_bounds)

    def getNeighbors(self, neighbors):
        coords = [0] * self.num_dims_
        coords = MPI_Cart_coords(self.comm_, self.getRank(), self.num_dims_)
        rank = self.getRank()
        if self.num_dims_ == 1:
            offsets = [-1, 1]
            if not self.periodic_:
                if coords[0] + offsets[0] < 0:
                    offsets.pop(0)
                if coords[0] + offsets[-1] >= self.procs_per_dim[0]:
                    offsets.pop()
            for xd in offsets:
                working = [coords[0] + xd]
                n_rank = MPI_Cart_rank(self.comm_, working)
                working = MPI_Cart_coords(self.comm_, n_rank, self.num_dims_)
                if n_rank != rank:
                    neighbors.append(CTNeighbor(n_rank, working[0], -1, -1, None, BoundingBox(0, 0, 0, 0)))
        elif self.num_dims_ == 2:
            xoffsets = [-1, 0, 1]
            yoffsets = [-1, 0, 1]
            if self.periodic_:
                pass
            else:
                if coords[0] + xoffsets[0] < 0:
                    xoffsets.pop(0)
                if coords[0] + xoffsets[-1] >= self.procs_per_dim[0]:
                    xoffsets.pop()
                if coords[1] + yoffsets[0] < 0:
                    yoffsets.pop(0)
                if coords[1] + yoffsets[-1] >= self.procs_per_dim[1]:
                    yoffsets.pop()
            for xd_v2 in xoffsets:
                for yd in yoffsets:
                    if not (xd_v2 == 0 and yd == 0):
                        working_v2 = [coords[0] + xd_v2, coords[1] + yd]
                        n_rank_v2 = MPI_Cart_rank(self.comm_, working_v2)
                        working_v2 = MPI_Cart_coords(self.comm_, n_rank_v2, self.num_dims_)
                        if n_rank_v2 != rank:
                            neighbors.append(CTNeighbor(n_rank_v2, working_v2[0], working_v2[1], -1, None, BoundingBox(0, 0, 0, 0)))
        elif self.num_dims_ == 3:
            xoffsets_v2 = [-1, 0, 1]
            yoffsets_v2 = [-1, 0, 1]
            zoffsets = [-1, 0, 1]
            if self.periodic_:
                if self.procs_per_dim[0] == 1:
                    xoffsets_v2.pop(0)
                    xoffsets_v2.pop()
                if self.procs_per_dim[1] == 1:
                    yoffsets_v2.pop(0)
                    yoffsets_v2.pop()
                if self.procs_per_dim[2] == 1:
                    zoffsets.pop(0)
                    zoffsets.pop()
            else:
                if coords[0] + xoffsets_v2[0] < 0:
                    xoffsets_v2.pop(0)
                if coords[0] + xoffsets_v2[-1] >= self.procs_per_dim[0]:
                    xoffsets_v2.pop()
                if coords[1] + yoffsets_v2[0] < 0:
                    yoffsets_v2.pop(0)
                if coords[1] + yoffsets_v2[-1] >= self.procs_per_dim[1]:
                    yoffsets_v2.pop()
                if coords[2] + zoffsets[0] < 0:
                    zoffsets.pop(0)
                if coords[2] + zoffsets[-1] >= self.procs_per_dim[2]:
                    zoffsets.pop()
            for xd_v3 in xoffsets_v2:
                for yd_v2 in yoffsets_v2:
                    for zd in zoffsets:
                        if not ((xd_v3 == 0 and yd_v2 == 0) and zd == 0):
                            working_v3 = [coords[0] + xd_v3, coords[1] + yd_v2, coords[2] + zd]
                            n_rank_v3 = MPI_Cart_rank(self.comm_, working_v3)
                            working_v3 = MPI_Cart_coords(self.comm_, n_rank_v3, self.num_dims_)
                            neighbors.append(CTNeighbor(n_rank_v3, working_v3[0], working_v3[1], working_v3[2], None, BoundingBox(0, 0, 0, 0)))
        for ngh in neighbors:
            self.getBounds_2(ngh.rank, ngh.local_bounds)

@dataclass
class R4Py_CartesianTopology:
    ob_base: '_object'
    topo: 'CartesianTopology *'
    cart_comm: 'PyObject *'

class DistributedCartesianSpace:

    def __init__(self, name, bounds, buffer_size, comm):
        self.base_space = BaseSpaceType(name, bounds)
        self.local_bounds = BoundingBox(0, 0, 0, 0)
        self.out_of_bounds_agents = {}
        self.buffer_size_ = buffer_size
        self.nghs = []
        self.all_bounds = ()
        self.rank = -1
        dims = 1
        if bounds.y_extent_ > 0:
            dims += 1
        if bounds.z_extent_ > 0:
            dims += 1
        ct = CartesianTopology(comm, self.cart_comm, dims, bounds, is_periodic_BaseSpaceType_value)
        self.rank = ct.getRank()
        ct.getBounds(self.local_bounds)
        ct.getNeighbors(self.nghs)
        coords = []
        ct.getCoords(coords)
        compute_neighbor_buffers(self.nghs, coords, self.local_bounds, dims, ct.procsPerDim(), self.buffer_size_)
        self.getAllBounds(comm)

    def __init___5(self, name, bounds, buffer_size, comm, tree_threshold):
        self.base_space = BaseSpaceType(name, bounds, tree_threshold)
        self.local_bounds = BoundingBox(0, 0, 0, 0)
        self.out_of_bounds_agents = {}
        self.buffer_size_ = buffer_size
        self.nghs = []
        self.all_bounds = ()
        self.rank = -1
        dims = 1
        if bounds.y_extent_ > 0:
            dims += 1
        if bounds.z_extent_ > 0:
            dims += 1
        ct = CartesianTopology(comm, self.cart_comm, dims, bounds, is_periodic_BaseSpaceType_value)
        self.rank = ct.getRank()
        ct.getBounds(self.local_bounds)
        ct.getNeighbors(self.nghs)
        coords = []
        ct.getCoords(coords)
        compute_neighbor_buffers(self.nghs, coords, self.local_bounds, dims, ct.procsPerDim(), self.buffer_size_)
        self.getAllBounds(comm)

    def __del__(self):
        MPI_Comm_free(self.cart_comm)

    def getAllBounds(self, comm):
        box = [self.local_bounds.xmin_, self.local_bounds.x_extent_, self.local_bounds.ymin_, self.local_bounds.y_extent_, self.local_bounds.zmin_, self.local_bounds.z_extent_]
        comm_size = MPI_Comm_size(comm)
        all_bb = [0] * (comm_size * 6)
        dtype = type
        all_bb = MPI_Allgather(box, 6, dtype, 6, dtype, comm)
        ngh_ranks = set()
        for ngh in self.nghs:
            self.all_bounds.append((ngh.local_bounds, ngh.rank))
            ngh_ranks.add(ngh.rank)
        rank = MPI_Comm_rank(comm)
        for i in range(comm_size):
            if i != rank and i not in ngh_ranks:
                idx = 6 * i
                x_min = all_bb[idx]
                x_extent = all_bb[idx + 1]
                y_min = all_bb[idx + 2]
                y_extent = all_bb[idx + 3]
                z_min = all_bb[idx + 4]
                z_extent = all_bb[idx + 5]
                box_v2 = BoundingBox(x_min, x_extent, y_min, y_extent, z_min, z_extent)
                self.all_bounds.append((box_v2, i))

    def add_(self, agent):
        return self.base_space.add_(agent)

    def remove___agent(self, agent):
        return self.remove_(agent.aid)

    def contains_(self, agent):
        return self.base_space.contains_(agent)

    def remove___aid(self, aid):
        self.eraseOOB(aid)
        return self.base_space.remove_(aid)

    def getAgentAt(self, pt):
        return self.base_space.getAgentAt(pt)

    def getAgentsAt(self, pt):
        return self.base_space.getAgentsAt(pt)

    def getLocation(self, agent):
        return self.base_space.getLocation(agent)

    def getAgentsWithin(self, bounds, agents):
        self.base_space.getAgentsWithin(bounds, agents)

    def eraseOOB(self, aid):
        iter_key = aid
        iter_in = iter_key in self.out_of_bounds_agents
        if iter_in:
            Py_DECREF(self.out_of_bounds_agents[iter_key].ob_item[0])
            Py_DECREF(self.out_of_bounds_agents[iter_key].ob_item[2])
            Py_DECREF(self.out_of_bounds_agents[iter_key])
            del self.out_of_bounds_agents[iter_key]

    def move(self, agent, to):
        pt = self.base_space.move(agent, to)
        if pt is not None:
            self.eraseOOB(agent.aid)
            if not self.local_bounds.contains_(pt):
                for box_rank in self.all_bounds:
                    if box_rank[0].contains_(pt):
                        aid_tuple = agent.aid.as_tuple
                        Py_INCREF(aid_tuple)
                        pt_array = pt.coords
                        Py_INCREF(pt_array)
                        obj = Py_BuildValue('(O, I, O)', aid_tuple, box_rank[1], pt_array)
                        self.out_of_bounds_agents[agent.aid] = obj
                        break
        return pt

    def getOOBData(self):
        return self.out_of_bounds_agents

    def getNeighborData(self):
        return self.nghs

    def clearOOBData(self):
        for kv_k, kv_v in self.out_of_bounds_agents.items():
            Py_DECREF(kv_v.ob_item[0])
            Py_DECREF(kv_v.ob_item[2])
            Py_DECREF(kv_v)
        self.out_of_bounds_agents.clear()

    def getLocalBounds(self):
        return self.local_bounds

    def getCartesianCommunicator(self):
        return self.cart_comm

    def name(self):
        return self.base_space.name()

@dataclass
class MPIType_Selector:
    pass

@dataclass
class ISharedGrid:

    def __del__(self):
        pass

class SharedGrid(ISharedGrid):

    def __del__(self):
        pass

    def __init__(self, name, bounds, buffer_size, comm):
        self.delegate = DelegateType(name, bounds, buffer_size, comm)

    def add_(self, agent):
        return self.delegate.add_(agent)

    def remove___agent(self, agent):
        return self.delegate.remove_(agent)

    def contains_(self, agent):
        return self.delegate.contains_(agent)

    def remove___aid(self, aid):
        return self.delegate.remove_(aid)

    def getAgentAt(self, pt):
        return self.delegate.getAgentAt(pt)

    def getAgentsAt(self, pt):
        return self.delegate.getAgentsAt(pt)

    def getLocation(self, agent):
        return self.delegate.getLocation(agent)

    def move(self, agent, to):
        return self.delegate.move(agent, to)

    def getOOBData(self):
        return self.delegate.getOOBData()

    def getNeighborData(self):
        return self.delegate.getNeighborData()

    def clearOOBData(self):
        self.delegate.clearOOBData()
        return

    def getLocalBounds(self):
        return self.delegate.getLocalBounds()

    def getCartesianCommunicator(self):
        return self.delegate.getCartesianCommunicator()

    def name(self):
        return self.delegate.name()

@dataclass
class R4Py_SharedGrid:
    ob_base: '_object'
    grid: 'ISharedGrid *'
    cart_comm: 'PyObject *'

@dataclass
class ISharedContinuousSpace:

    def __del__(self):
        pass

class SharedContinuousSpace(ISharedContinuousSpace):

    def __del__(self):
        pass

    def __init__(self, name, bounds, buffer_size, comm, tree_threshold):
        self.delegate = DelegateType(name, bounds, buffer_size, comm, tree_threshold)

    def add_(self, agent):
        return self.delegate.add_(agent)

    def remove___agent(self, agent):
        return self.delegate.remove_(agent)

    def contains_(self, agent):
        return self.delegate.contains_(agent)

    def remove___aid(self, aid):
        return self.delegate.remove_(aid)

    def getAgentAt(self, pt):
        return self.delegate.getAgentAt(pt)

    def getAgentsAt(self, pt):
        return self.delegate.getAgentsAt(pt)

    def getLocation(self, agent):
        return self.delegate.getLocation(agent)

    def move(self, agent, to):
        return self.delegate.move(agent, to)

    def getOOBData(self):
        return self.delegate.getOOBData()

    def getNeighborData(self):
        return self.delegate.getNeighborData()

    def clearOOBData(self):
        self.delegate.clearOOBData()
        return

    def getLocalBounds(self):
        return self.delegate.getLocalBounds()

    def getCartesianCommunicator(self):
        return self.delegate.getCartesianCommunicator()

    def getAgentsWithin(self, bounds, agents):
        self.delegate.getAgentsWithin(bounds, agents)

    def name(self):
        return self.delegate.name()

@dataclass
class R4Py_SharedCSpace:
    ob_base: '_object'
    space: 'ISharedContinuousSpace *'
    cart_comm: 'PyObject *'

class PyContinuousPoint:

    def __del__(self):
        Py_DECREF(self.coords)
        Py_TYPE(self).tp_free(self)

    def __init__(self, args, kwds):
        kwlist = ['x', 'y', 'z', None]
        d = self.coords
        d[2] = 0
        d[0] = PyArg_value(args, 'd', 0, 'double')
        d[1] = PyArg_value(args, 'd', 1, 'double')
        d[2] = PyArg_value(args, 'd', 2, 'double', d[2])
        if not PyArg_Parse(args, 'dd|d', 'x y z'):
            return -1
        return 0

    def __new__(self, args, kwds):
        self_v2 = self.tp_alloc(self, 0)
        if self_v2 is not None:
            shape = [3]
            self_v2.coords = REPAST4PY_ARRAY_API[94](REPAST4PY_ARRAY_API[2], REPAST4PY_ARRAY_API[45](NPY_DOUBLE), 1, shape, None, None, 1, None)
            if self_v2.coords is None:
                Py_DECREF(self_v2)
                return None
        return self_v2

    def __repr__(self):
        data = self.coords
        return PyUnicode_FromFormat('ContinuousPoint(%s, %s, %s)', PyOS_double_to_string(data[0], 102, 2, 12, None), PyOS_double_to_string(data[1], 102, 2, 12, None), PyOS_double_to_string(data[2], 102, 2, 12, None))

    def __richcmp__(self, other, op):
        if op == 2 and Py_TYPE(self) == Py_TYPE(other):
            p1 = self.coords
            p2 = other.coords
            if (p1[0] == p2[0] and p1[1] == p2[1]) and p1[2] == p2[2]:
                return Py_True
            else:
                return Py_False
        return Py_NotImplemented

    def get_x(self, closure):
        return PyFloat_FromDouble(self.coords[0])

    def get_y(self, closure):
        return PyFloat_FromDouble(self.coords[1])

    def get_z(self, closure):
        return PyFloat_FromDouble(self.coords[2])

    def get_coordinates(self, closure):
        Py_INCREF(self.coords)
        return self.coords

    def _reset1D(self, args):
        d = self.coords
        d[0] = PyArg_value(args, 'd', 0, 'double')
        if not PyArg_Parse(args, 'd'):
            return None
        return Py_None

    def _reset2D(self, args):
        d = self.coords
        d[0] = PyArg_value(args, 'd', 0, 'double')
        d[1] = PyArg_value(args, 'd', 1, 'double')
        if not PyArg_Parse(args, 'dd'):
            return None
        return Py_None

    def _reset3D(self, args):
        d = self.coords
        d[0] = PyArg_value(args, 'd', 0, 'double')
        d[1] = PyArg_value(args, 'd', 1, 'double')
        d[2] = PyArg_value(args, 'd', 2, 'double')
        if not PyArg_Parse(args, 'ddd'):
            return None
        return Py_None

    def _reset(self, args):
        d = self.coords
        pt = PyArg_value(args, 'O!', 0, 'object', PyTuple_Type)
        if not PyArg_Parse(args, 'O!'):
            return None
        d[0] = PyFloat_AsDouble(pt.ob_item[0])
        d[1] = PyFloat_AsDouble(pt.ob_item[1])
        d[2] = PyFloat_AsDouble(pt.ob_item[2])
        return Py_None

    def _reset_from_array(self, args):
        arr = PyArg_value(args, 'O!', 0, 'object', REPAST4PY_ARRAY_API[2])
        if not PyArg_Parse(args, 'O!'):
            return None
        ndim = PyArray_NDIM(arr)
        if ndim != 1:
            PyErr_SetString(PyExc_RuntimeError, 'R4Py_ContinuousPoint can only be reset from a 1D numpy array')
            return None
        shape = PyArray_SHAPE(arr)
        c = shape[0]
        d = self.coords
        typ = PyArray_TYPE(arr)
        if typ == NPY_DOUBLE:
            o = arr
            for i in range(min(3, c)):
                d[i] = o[i]
        elif typ == NPY_FLOAT:
            o_v2 = arr
            for i_v2 in range(min(3, c)):
                d[i_v2] = o_v2[i_v2]
        else:
            PyErr_SetString(PyExc_RuntimeError, 'R4Py_ContinuousPoint can only be reset from numpy array of floats')
            return None
        return Py_None

class PyDiscretePoint:

    def __del__(self):
        Py_DECREF(self.coords)
        Py_TYPE(self).tp_free(self)

    def __init__(self, args, kwds):
        kwlist = ['x', 'y', 'z', None]
        d = self.coords
        d[2] = 0
        d[0] = PyArg_value(args, 'l', 0, 'long')
        d[1] = PyArg_value(args, 'l', 1, 'long')
        d[2] = PyArg_value(args, 'l', 2, 'long', d[2])
        if not PyArg_Parse(args, 'll|l', 'x y z'):
            return -1
        return 0

    def __new__(self, args, kwds):
        self_v2 = self.tp_alloc(self, 0)
        if self_v2 is not None:
            shape = [3]
            self_v2.coords = REPAST4PY_ARRAY_API[94](REPAST4PY_ARRAY_API[2], REPAST4PY_ARRAY_API[45](NPY_LONG), 1, shape, None, None, 1, None)
            if self_v2.coords is None:
                Py_DECREF(self_v2)
                return None
        return self_v2

    def __repr__(self):
        data = self.coords
        return PyUnicode_FromFormat('DiscretePoint(%ld, %ld, %ld)', data[0], data[1], data[2])

    def __richcmp__(self, other, op):
        if op == 2 and Py_TYPE(self) == Py_TYPE(other):
            p1 = self.coords
            p2 = other.coords
            if (p1[0] == p2[0] and p1[1] == p2[1]) and p1[2] == p2[2]:
                return Py_True
            else:
                return Py_False
        return Py_NotImplemented

    def get_x(self, closure):
        return PyLong_FromLongT(self.coords[0])

    def get_y(self, closure):
        return PyLong_FromLongT(self.coords[1])

    def get_z(self, closure):
        return PyLong_FromLongT(self.coords[2])

    def get_coordinates(self, closure):
        Py_INCREF(self.coords)
        return self.coords

    def _reset1D(self, args):
        d = self.coords
        d[0] = PyArg_value(args, 'l', 0, 'long')
        if not PyArg_Parse(args, 'l'):
            return None
        return Py_None

    def _reset2D(self, args):
        d = self.coords
        d[0] = PyArg_value(args, 'l', 0, 'long')
        d[1] = PyArg_value(args, 'l', 1, 'long')
        if not PyArg_Parse(args, 'll'):
            return None
        return Py_None

    def _reset3D(self, args):
        d = self.coords
        d[0] = PyArg_value(args, 'l', 0, 'long')
        d[1] = PyArg_value(args, 'l', 1, 'long')
        d[2] = PyArg_value(args, 'l', 2, 'long')
        if not PyArg_Parse(args, 'lll'):
            return None
        return Py_None

    def _reset(self, args):
        d = self.coords
        pt = PyArg_value(args, 'O!', 0, 'object', PyTuple_Type)
        if not PyArg_Parse(args, 'O!'):
            return None
        d[0] = PyLong_AsLongT(pt.ob_item[0])
        d[1] = PyLong_AsLongT(pt.ob_item[1])
        d[2] = PyLong_AsLongT(pt.ob_item[2])
        return Py_None

    def _reset_from_array(self, args):
        arr = PyArg_value(args, 'O!', 0, 'object', REPAST4PY_ARRAY_API[2])
        if not PyArg_Parse(args, 'O!'):
            return None
        ndim = PyArray_NDIM(arr)
        if ndim != 1:
            PyErr_SetString(PyExc_RuntimeError, 'R4Py_DiscretePoint can only be reset from a 1D numpy array')
            return None
        shape = PyArray_SHAPE(arr)
        c = shape[0]
        d = self.coords
        typ = PyArray_TYPE(arr)
        if typ == NPY_LONG:
            o = arr
            for i in range(min(3, c)):
                d[i] = o[i]
        elif typ == NPY_LONGLONG:
            o_v2 = arr
            for i_v2 in range(min(3, c)):
                d[i_v2] = o_v2[i_v2]
        elif typ == NPY_INT:
            o_v3 = arr
            for i_v3 in range(min(3, c)):
                d[i_v3] = o_v3[i_v3]
        else:
            PyErr_SetString(PyExc_RuntimeError, 'R4Py_DiscretePoint can only be reset from numpy array of integers')
            return None
        return Py_None

class PyAgentIterator:

    def __del__(self):
        delete(self.iter)
        Py_TYPE(self).tp_free(self)

    def __iter__(self):
        Py_INCREF(self)
        self.iter.reset_()
        return self

    def __next__(self):
        if not self.iter.hasNext():
            PyErr_SetNone(PyExc_StopIteration)
            return None
        obj = self.iter.next_()
        Py_INCREF(obj)
        return obj

    def __new__(self, args, kwds):
        self_v2 = self.tp_alloc(self, 0)
        if self_v2 is not None:
            self_v2.iter = None
        return self_v2

class PyAgent:

    def __del__(self):
        if self.aid.as_tuple is not None:
            Py_DECREF(self.aid.as_tuple)
        delete(self.aid)
        Py_TYPE(self).tp_free(self)

    def __init__(self, args, kwds):
        kwlist = ['id', 'type', 'rank', None]
        self.aid.id = PyArg_value(args, 'l', 0, 'long')
        self.aid.type = PyArg_value(args, 'i', 1, 'int')
        self.aid.rank = PyArg_value(args, 'I', 2, 'unsigned int', self.aid.rank)
        if not PyArg_Parse(args, 'li|I', 'id type rank'):
            return -1
        self.local_rank = self.aid.rank
        if self.aid.type < 0:
            PyErr_SetString(PyExc_ValueError, 'Type component of agent unique id must be a non-negative integer')
            return -1
        self.aid.as_tuple = Py_BuildValue('(liI)', self.aid.id, self.aid.type, self.aid.rank)
        return 0

    def __new__(self, args, kwds):
        self_v2 = self.tp_alloc(self, 0)
        if self_v2 is not None:
            self_v2.aid = R4Py_AgentID()
            if self_v2.aid is not None:
                self_v2.aid.id = -1
                self_v2.aid.type = -1
                self_v2.aid.rank = 0
                self_v2.local_rank = 0
            else:
                Py_TYPE(self_v2).tp_free(self_v2)
                self_v2 = None
        return self_v2

    def __repr__(self):
        return PyUnicode_FromFormat('Agent(%ld, %d, %d)', self.aid.id, self.aid.type, self.aid.rank)

    def __str__(self):
        return PyUnicode_FromFormat('Agent(%ld, %d, %d)', self.aid.id, self.aid.type, self.aid.rank)

    def get_id(self, closure):
        return PyLong_FromLongT(self.aid.id)

    def get_type(self, closure):
        return PyLong_FromLong(self.aid.type)

    def get_uid_rank(self, closure):
        return PyLong_FromLong(self.aid.rank)

    def get_uid(self, closure):
        uid = self.aid.as_tuple
        Py_INCREF(uid)
        return uid

    def get_local_rank(self, closure):
        return PyLong_FromLong(self.local_rank)

    def set_local_rank(self, value, closure):
        if value is None:
            PyErr_SetString(PyExc_TypeError, 'Cannot delete the local rank attribute')
            return -1
        if not PyType_HasFeature(Py_TYPE(value), 1 << 24):
            PyErr_SetString(PyExc_TypeError, 'The local rank attribute value must be a integer value')
            return -1
        self.local_rank = PyLong_AsLong(value)
        return 0

class PyContinuousSpace:

    def __del__(self):
        delete(self.space)
        Py_TYPE(self).tp_free(self)

    def __init__(self, args, kwds):
        kwlist = ['name', 'bounds', 'borders', 'occupancy', 'tree_threshold', None]
        name = PyArg_value(args, 's', 0, 'char *')
        bounds = PyArg_value(args, 'O!', 1, 'object', PyTuple_Type)
        border_type = PyArg_value(args, 'i', 2, 'int')
        occ_type = PyArg_value(args, 'i', 3, 'int')
        tree_threshold = PyArg_value(args, 'i', 4, 'int')
        if not PyArg_Parse(args, 'sO!iii', 'name bounds borders occupancy tree_threshold'):
            return -1
        xmin = PyArg_value(bounds, 'l', 0, 'long')
        width = PyArg_value(bounds, 'l', 1, 'long')
        ymin = PyArg_value(bounds, 'l', 2, 'long')
        height = PyArg_value(bounds, 'l', 3, 'long')
        zmin = PyArg_value(bounds, 'l', 4, 'long')
        depth = PyArg_value(bounds, 'l', 5, 'long')
        if not PyArg_Parse(bounds, 'llllll'):
            return -1
        box = BoundingBox(xmin, width, ymin, height, zmin, depth)
        if border_type == 0:
            if occ_type == 0:
                self.space = CSpace(name, box, tree_threshold, of='BaseCSpace,MultiOccupancyAccessor,R4Py_ContinuousPoint,StickyBorders,R4Py_ContinuousPoint')
            elif occ_type == 1:
                self.space = CSpace(name, box, tree_threshold, of='BaseCSpace,SingleOccupancyAccessor,R4Py_ContinuousPoint,StickyBorders,R4Py_ContinuousPoint')
            else:
                PyErr_SetString(PyExc_RuntimeError, 'Invalid occupancy type')
                return -1
        elif border_type == 1:
            if occ_type == 0:
                self.space = CSpace(name, box, tree_threshold, of='BaseCSpace,MultiOccupancyAccessor,R4Py_ContinuousPoint,PeriodicBorders,R4Py_ContinuousPoint')
            elif occ_type == 1:
                self.space = CSpace(name, box, tree_threshold, of='BaseCSpace,SingleOccupancyAccessor,R4Py_ContinuousPoint,PeriodicBorders,R4Py_ContinuousPoint')
            else:
                PyErr_SetString(PyExc_RuntimeError, 'Invalid occupancy type')
                return -1
        else:
            PyErr_SetString(PyExc_RuntimeError, 'Invalid border type')
            return -1
        if not self.space is not None:
            PyErr_SetString(PyExc_RuntimeError, 'Error creating native code space')
            return -1
        return 0

    def __new__(self, args, kwds):
        self_v2 = self.tp_alloc(self, 0)
        if self_v2 is not None:
            self_v2.space = None
        return self_v2

    def get_name(self, args):
        return PyUnicode_FromString(self.space.name())

    def add(self, args):
        agent = PyArg_value(args, 'O!', 0, 'object', R4PyCore_API[0])
        if not PyArg_Parse(args, 'O!'):
            return None
        ret_val = self.space.add_(agent)
        return PyBool_FromLong(ret_val)

    def remove(self, args):
        agent = PyArg_value(args, 'O!', 0, 'object', R4PyCore_API[0])
        if not PyArg_Parse(args, 'O!'):
            return None
        ret_val = self.space.remove_(agent)
        return PyBool_FromLong(ret_val)

    def move(self, args):
        agent = PyArg_value(args, 'O!', 0, 'object', R4PyCore_API[0])
        pt = PyArg_value(args, 'O!', 1, 'object', ContinuousPointType)
        if not PyArg_Parse(args, 'O!O!'):
            return None
        try:
            ret = self.space.move(agent, pt)
            if ret is not None:
                Py_INCREF(ret)
                return ret
            else:
                return Py_None
        except invalid_argument as ex:
            PyErr_SetString(PyExc_RuntimeError, ex.what())
            return None

    def contains(self, args):
        agent = PyArg_value(args, 'O!', 0, 'object', R4PyCore_API[0])
        if not PyArg_Parse(args, 'O!'):
            return None
        ret_val = self.space.contains_(agent)
        return PyBool_FromLong(ret_val)

    def get_location(self, args):
        agent = PyArg_value(args, 'O!', 0, 'object', R4PyCore_API[0])
        if not PyArg_Parse(args, 'O!'):
            return None
        pt = self.space.getLocation(agent)
        if pt is not None:
            Py_INCREF(pt)
            return pt
        else:
            return Py_None

    def get_agent(self, args):
        pt = PyArg_value(args, 'O!', 0, 'object', ContinuousPointType)
        if not PyArg_Parse(args, 'O!'):
            return None
        ret = self.space.getAgentAt(pt)
        if ret is not None:
            Py_INCREF(ret)
            return ret
        else:
            return Py_None

    def get_agents(self, args):
        pt = PyArg_value(args, 'O!', 0, 'object', ContinuousPointType)
        if not PyArg_Parse(args, 'O!'):
            return None
        list = self.space.getAgentsAt(pt)
        agent_iter = R4PyCore_API[1].tp_new(R4PyCore_API[1], None, None)
        agent_iter.iter = TAgentIter(list)
        return agent_iter

    def get_agents_within(self, args):
        bounds = PyArg_value(args, 'O!', 0, 'object', PyTuple_Type)
        if not PyArg_Parse(args, 'O!'):
            return None
        xmin = PyArg_value(bounds, 'l', 0, 'long')
        width = PyArg_value(bounds, 'l', 1, 'long')
        ymin = PyArg_value(bounds, 'l', 2, 'long')
        height = PyArg_value(bounds, 'l', 3, 'long')
        zmin = PyArg_value(bounds, 'l', 4, 'long')
        depth = PyArg_value(bounds, 'l', 5, 'long')
        if not PyArg_Parse(bounds, 'llllll'):
            return None
        box = BoundingBox(xmin, width, ymin, height, zmin, depth)
        agents = []
        self.space.getAgentsWithin(box, agents)
        agent_iter = R4PyCore_API[1].tp_new(R4PyCore_API[1], None, None)
        agent_iter.iter = TAgentIter(agents)
        return agent_iter

class PyCartesianTopology:

    def __del__(self):
        delete(self.topo)
        if self.cart_comm is not None:
            Py_DECREF(self.cart_comm)
        Py_TYPE(self).tp_free(self)

    def __init__(self, args, kwds):
        kwlist = ['comm', 'global_bounds', 'periodic', None]
        py_comm = PyArg_value(args, 'O!', 0, 'object', __pyx_ptype_6mpi4py_3MPI_Comm)
        bounds = PyArg_value(args, 'O!', 1, 'object', PyTuple_Type)
        periodic = PyArg_value(args, 'p', 2, 'int')
        if not PyArg_Parse(args, 'O!O!p', 'comm global_bounds periodic'):
            return -1
        xmin = PyArg_value(bounds, 'l', 0, 'long')
        x_extent = PyArg_value(bounds, 'l', 1, 'long')
        ymin = PyArg_value(bounds, 'l', 2, 'long')
        y_extent = PyArg_value(bounds, 'l', 3, 'long')
        zmin = PyArg_value(bounds, 'l', 4, 'long')
        z_extent = PyArg_value(bounds, 'l', 5, 'long')
        if not PyArg_Parse(bounds, 'llllll'):
            return -1
        box = BoundingBox(xmin, x_extent, ymin, y_extent, zmin, z_extent)
        dims = 1
        if box.y_extent_ > 0:
            dims += 1
        if box.z_extent_ > 0:
            dims += 1
        Py_INCREF(py_comm)
        comm_p = __pyx_api_f_6mpi4py_3MPI_PyMPIComm_Get(py_comm)
        self.topo = CartesianTopology(comm_p, cart_comm, dims, box, periodic)
        if not self.topo is not None:
            return -1
        self.cart_comm = __pyx_api_f_6mpi4py_3MPI_PyMPIComm_New(cart_comm)
        if self.cart_comm is None:
            return -1
        return 0

    def __new__(self, args, kwds):
        self_v2 = self.tp_alloc(self, 0)
        if self_v2 is not None:
            self_v2.topo = None
            self_v2.cart_comm = None
        return self_v2

    def get_comm(self, closure):
        comm = self.cart_comm
        Py_INCREF(comm)
        return comm

    def get_coordinates(self, closure):
        coords = []
        self.topo.getCoords(coords)
        if len(coords) == 1:
            return Py_BuildValue('(l)', coords[0])
        elif len(coords) == 2:
            return Py_BuildValue('(ll)', coords[0], coords[1])
        else:
            return Py_BuildValue('(lll)', coords[0], coords[1], coords[2])

    def get_local_bounds(self, args):
        bounds = BoundingBox(0, 0, 0, 0, 0, 0)
        self.topo.getBounds(bounds)
        box_args = Py_BuildValue('(llllll)', bounds.xmin_, bounds.x_extent_, bounds.ymin_, bounds.y_extent_, bounds.zmin_, bounds.z_extent_)
        pmod = PyImport_ImportModule('repast4py.space')
        bbox_class = PyObject_GetAttrString(pmod, 'BoundingBox')
        box = PyObject_CallObject(bbox_class, box_args)
        Py_DECREF(box_args)
        Py_DECREF(pmod)
        Py_DECREF(bbox_class)
        return box

    def get_procs_per_dim(self, args):
        num_dims = self.topo.numDims()
        procs_per_dim = self.topo.procsPerDim()
        if num_dims == 1:
            return Py_BuildValue('(i)', procs_per_dim[0])
        elif num_dims == 2:
            return Py_BuildValue('(ii)', procs_per_dim[0], procs_per_dim[1])
        else:
            return Py_BuildValue('(iii)', procs_per_dim[0], procs_per_dim[1], procs_per_dim[2])

    def compute_buffer_nghs(self, args):
        buffer_size = PyArg_value(args, 'i', 0, 'int')
        if not PyArg_Parse(args, 'i'):
            return None
        coords = []
        self.topo.getCoords(coords)
        nghs = []
        self.topo.getNeighbors(nghs)
        bounds = BoundingBox(0, 0, 0, 0, 0, 0)
        self.topo.getBounds(bounds)
        num_dims = self.topo.numDims()
        procs_per_dim = self.topo.procsPerDim()
        compute_neighbor_buffers(nghs, coords, bounds, num_dims, procs_per_dim, buffer_size)
        obj_iter = R4PyCore_API[2].tp_new(R4PyCore_API[2], None, None)
        obj_iter.iter = SequenceIter(nghs, of='GetBufferInfo')
        return obj_iter

class PyGridPeriodicBorders:

    def __del__(self):
        delete(self.borders)
        Py_TYPE(self).tp_free(self)

    def __init__(self, args, kwds):
        kwlist = ['bounds', None]
        bounds = PyArg_value(args, 'O!', 0, 'object', PyTuple_Type)
        if not PyArg_Parse(args, 'O!', 'bounds'):
            return -1
        xmin = PyArg_value(bounds, 'l', 0, 'long')
        width = PyArg_value(bounds, 'l', 1, 'long')
        ymin = PyArg_value(bounds, 'l', 2, 'long')
        height = PyArg_value(bounds, 'l', 3, 'long')
        zmin = PyArg_value(bounds, 'l', 4, 'long')
        depth = PyArg_value(bounds, 'l', 5, 'long')
        if not PyArg_Parse(bounds, 'llllll'):
            return -1
        box = BoundingBox(xmin, width, ymin, height, zmin, depth)
        self.borders = PeriodicBorders(box, of='R4Py_DiscretePoint')
        if not self.borders is not None:
            PyErr_SetString(PyExc_RuntimeError, 'Error creating native code Periodic grid borders')
            return -1
        return 0

    def __new__(self, args, kwds):
        self_v2 = self.tp_alloc(self, 0)
        if self_v2 is not None:
            self_v2.borders = None
        return self_v2

    def _transform(self, args):
        pt = PyArg_value(args, 'O!', 0, 'object', DiscretePointType)
        ret_pt = PyArg_value(args, 'O!', 1, 'object', DiscretePointType)
        if not PyArg_Parse(args, 'O!O!'):
            return None
        ret_pt = self.borders.transform(pt)
        return Py_None

class PyGridStickyBorders:

    def __del__(self):
        delete(self.borders)
        Py_TYPE(self).tp_free(self)

    def __init__(self, args, kwds):
        kwlist = ['bounds', None]
        bounds = PyArg_value(args, 'O!', 0, 'object', PyTuple_Type)
        if not PyArg_Parse(args, 'O!', 'bounds'):
            return -1
        xmin = PyArg_value(bounds, 'l', 0, 'long')
        width = PyArg_value(bounds, 'l', 1, 'long')
        ymin = PyArg_value(bounds, 'l', 2, 'long')
        height = PyArg_value(bounds, 'l', 3, 'long')
        zmin = PyArg_value(bounds, 'l', 4, 'long')
        depth = PyArg_value(bounds, 'l', 5, 'long')
        if not PyArg_Parse(bounds, 'llllll'):
            return -1
        box = BoundingBox(xmin, width, ymin, height, zmin, depth)
        self.borders = StickyBorders(box, of='R4Py_DiscretePoint')
        if not self.borders is not None:
            PyErr_SetString(PyExc_RuntimeError, 'Error creating native code sticky grid borders')
            return -1
        return 0

    def __new__(self, args, kwds):
        self_v2 = self.tp_alloc(self, 0)
        if self_v2 is not None:
            self_v2.borders = None
        return self_v2

    def _transform(self, args):
        pt = PyArg_value(args, 'O!', 0, 'object', DiscretePointType)
        ret_pt = PyArg_value(args, 'O!', 1, 'object', DiscretePointType)
        if not PyArg_Parse(args, 'O!O!'):
            return None
        ret_pt = self.borders.transform(pt)
        return Py_None

class PyGrid:

    def __del__(self):
        delete(self.grid)
        Py_TYPE(self).tp_free(self)

    def __init__(self, args, kwds):
        kwlist = ['name', 'bounds', 'borders', 'occupancy', None]
        name = PyArg_value(args, 's', 0, 'char *')
        bounds = PyArg_value(args, 'O!', 1, 'object', PyTuple_Type)
        border_type = PyArg_value(args, 'i', 2, 'int')
        occ_type = PyArg_value(args, 'i', 3, 'int')
        if not PyArg_Parse(args, 'sO!ii', 'name bounds borders occupancy'):
            return -1
        xmin = PyArg_value(bounds, 'l', 0, 'long')
        width = PyArg_value(bounds, 'l', 1, 'long')
        ymin = PyArg_value(bounds, 'l', 2, 'long')
        height = PyArg_value(bounds, 'l', 3, 'long')
        zmin = PyArg_value(bounds, 'l', 4, 'long')
        depth = PyArg_value(bounds, 'l', 5, 'long')
        if not PyArg_Parse(bounds, 'llllll'):
            return -1
        box = BoundingBox(xmin, width, ymin, height, zmin, depth)
        if border_type == 0:
            if occ_type == 0:
                self.grid = Grid(name, box, of='BaseGrid,MultiOccupancyAccessor,R4Py_DiscretePoint,StickyBorders,R4Py_DiscretePoint')
            elif occ_type == 1:
                self.grid = Grid(name, box, of='BaseGrid,SingleOccupancyAccessor,R4Py_DiscretePoint,StickyBorders,R4Py_DiscretePoint')
            else:
                PyErr_SetString(PyExc_RuntimeError, 'Invalid occupancy type')
                return -1
        elif border_type == 1:
            if occ_type == 0:
                self.grid = Grid(name, box, of='BaseGrid,MultiOccupancyAccessor,R4Py_DiscretePoint,PeriodicBorders,R4Py_DiscretePoint')
            elif occ_type == 1:
                self.grid = Grid(name, box, of='BaseGrid,SingleOccupancyAccessor,R4Py_DiscretePoint,PeriodicBorders,R4Py_DiscretePoint')
            else:
                PyErr_SetString(PyExc_RuntimeError, 'Invalid occupancy type')
                return -1
        else:
            PyErr_SetString(PyExc_RuntimeError, 'Invalid border type')
            return -1
        if not self.grid is not None:
            PyErr_SetString(PyExc_RuntimeError, 'Error creating native code grid')
            return -1
        return 0

    def __new__(self, args, kwds):
        self_v2 = self.tp_alloc(self, 0)
        if self_v2 is not None:
            self_v2.grid = None
        return self_v2

    def get_name(self, args):
        return PyUnicode_FromString(self.grid.name())

    def add(self, args):
        agent = PyArg_value(args, 'O!', 0, 'object', R4PyCore_API[0])
        if not PyArg_Parse(args, 'O!'):
            return None
        ret_val = self.grid.add_(agent)
        return PyBool_FromLong(ret_val)

    def remove(self, args):
        agent = PyArg_value(args, 'O!', 0, 'object', R4PyCore_API[0])
        if not PyArg_Parse(args, 'O!'):
            return None
        ret_val = self.grid.remove_(agent)
        return PyBool_FromLong(ret_val)

    def contains(self, args):
        agent = PyArg_value(args, 'O!', 0, 'object', R4PyCore_API[0])
        if not PyArg_Parse(args, 'O!'):
            return None
        ret_val = self.grid.contains_(agent)
        return PyBool_FromLong(ret_val)

    def move(self, args):
        agent = PyArg_value(args, 'O!', 0, 'object', R4PyCore_API[0])
        pt = PyArg_value(args, 'O!', 1, 'object', DiscretePointType)
        if not PyArg_Parse(args, 'O!O!'):
            return None
        try:
            ret = self.grid.move(agent, pt)
            if ret is not None:
                Py_INCREF(ret)
                return ret
            else:
                return Py_None
        except invalid_argument as ex:
            PyErr_SetString(PyExc_RuntimeError, ex.what())
            return None

    def get_location(self, args):
        agent = PyArg_value(args, 'O!', 0, 'object', R4PyCore_API[0])
        if not PyArg_Parse(args, 'O!'):
            return None
        pt = self.grid.getLocation(agent)
        if pt is not None:
            Py_INCREF(pt)
            return pt
        else:
            return Py_None

    def get_agent(self, args):
        pt = PyArg_value(args, 'O!', 0, 'object', DiscretePointType)
        if not PyArg_Parse(args, 'O!'):
            return None
        ret = self.grid.getAgentAt(pt)
        if ret is not None:
            Py_INCREF(ret)
            return ret
        else:
            return Py_None

    def get_agents(self, args):
        pt = PyArg_value(args, 'O!', 0, 'object', DiscretePointType)
        if not PyArg_Parse(args, 'O!'):
            return None
        list = self.grid.getAgentsAt(pt)
        agent_iter = R4PyCore_API[1].tp_new(R4PyCore_API[1], None, None)
        agent_iter.iter = TAgentIter(list)
        return agent_iter

class PyPyObjectIterator:

    def __del__(self):
        delete(self.iter)
        Py_TYPE(self).tp_free(self)

    def __iter__(self):
        Py_INCREF(self)
        self.iter.reset_()
        return self

    def __next__(self):
        if not self.iter.hasNext():
            PyErr_SetNone(PyExc_StopIteration)
            return None
        obj = self.iter.next_()
        Py_INCREF(obj)
        return obj

    def __new__(self, args, kwds):
        self_v2 = self.tp_alloc(self, 0)
        if self_v2 is not None:
            self_v2.iter = None
        return self_v2

class PySharedContinuousSpace:

    def __del__(self):
        delete(self.space)
        if self.cart_comm is not None:
            Py_DECREF(self.cart_comm)
        Py_TYPE(self).tp_free(self)

    def __init__(self, args, kwds):
        kwlist = ['name', 'bounds', 'borders', 'occupancy', 'buffer_size', 'comm', 'tree_threshold', None]
        name = PyArg_value(args, 's', 0, 'char *')
        bounds = PyArg_value(args, 'O!', 1, 'object', PyTuple_Type)
        border_type = PyArg_value(args, 'i', 2, 'int')
        occ_type = PyArg_value(args, 'i', 3, 'int')
        buffer_size = PyArg_value(args, 'i', 4, 'int')
        py_comm = PyArg_value(args, 'O!', 5, 'object', __pyx_ptype_6mpi4py_3MPI_Comm)
        tree_threshold = PyArg_value(args, 'i', 6, 'int')
        if not PyArg_Parse(args, 'sO!iiiO!i', 'name bounds borders occupancy buffer_size comm tree_threshold'):
            return -1
        xmin = PyArg_value(bounds, 'l', 0, 'long')
        x_extent = PyArg_value(bounds, 'l', 1, 'long')
        ymin = PyArg_value(bounds, 'l', 2, 'long')
        y_extent = PyArg_value(bounds, 'l', 3, 'long')
        zmin = PyArg_value(bounds, 'l', 4, 'long')
        z_extent = PyArg_value(bounds, 'l', 5, 'long')
        if not PyArg_Parse(bounds, 'llllll'):
            return -1
        Py_INCREF(py_comm)
        comm_p = __pyx_api_f_6mpi4py_3MPI_PyMPIComm_Get(py_comm)
        box = BoundingBox(xmin, x_extent, ymin, y_extent, zmin, z_extent)
        if border_type == 0:
            if occ_type == 0:
                self.space = SharedContinuousSpace(name, box, buffer_size, comm_p, tree_threshold, of='DistributedCartesianSpace,BaseCSpace,MultiOccupancyAccessor,R4Py_ContinuousPoint,StickyBorders,R4Py_ContinuousPoint')
            elif occ_type == 1:
                self.space = SharedContinuousSpace(name, box, buffer_size, comm_p, tree_threshold, of='DistributedCartesianSpace,BaseCSpace,SingleOccupancyAccessor,R4Py_ContinuousPoint,StickyBorders,R4Py_ContinuousPoint')
            else:
                PyErr_SetString(PyExc_RuntimeError, 'Invalid occupancy type')
                return -1
        elif border_type == 1:
            if occ_type == 0:
                self.space = SharedContinuousSpace(name, box, buffer_size, comm_p, tree_threshold, of='DistributedCartesianSpace,BaseCSpace,MultiOccupancyAccessor,R4Py_ContinuousPoint,PeriodicBorders,R4Py_ContinuousPoint')
            elif occ_type == 1:
                self.space = SharedContinuousSpace(name, box, buffer_size, comm_p, tree_threshold, of='DistributedCartesianSpace,BaseCSpace,SingleOccupancyAccessor,R4Py_ContinuousPoint,PeriodicBorders,R4Py_ContinuousPoint')
            else:
                PyErr_SetString(PyExc_RuntimeError, 'Invalid occupancy type')
                return -1
        else:
            PyErr_SetString(PyExc_RuntimeError, 'Invalid border type')
            return -1
        if not self.space is not None:
            PyErr_SetString(PyExc_RuntimeError, 'Error creating native code shared grid')
            return -1
        self.cart_comm = __pyx_api_f_6mpi4py_3MPI_PyMPIComm_New(self.space.getCartesianCommunicator())
        if self.cart_comm is None:
            return -1
        return 0

    def __new__(self, args, kwds):
        self_v2 = self.tp_alloc(self, 0)
        if self_v2 is not None:
            self_v2.space = None
            self_v2.cart_comm = None
        return self_v2

    def get_name(self, args):
        return PyUnicode_FromString(self.space.name())

    def add(self, args):
        agent = PyArg_value(args, 'O!', 0, 'object', R4PyCore_API[0])
        if not PyArg_Parse(args, 'O!'):
            return None
        ret_val = self.space.add_(agent)
        return PyBool_FromLong(ret_val)

    def remove(self, args):
        agent = PyArg_value(args, 'O!', 0, 'object', R4PyCore_API[0])
        if not PyArg_Parse(args, 'O!'):
            return None
        ret_val = self.space.remove_(agent)
        return PyBool_FromLong(ret_val)

    def move(self, args):
        agent = PyArg_value(args, 'O!', 0, 'object', R4PyCore_API[0])
        pt = PyArg_value(args, 'O!', 1, 'object', ContinuousPointType)
        if not PyArg_Parse(args, 'O!O!'):
            return None
        try:
            ret = self.space.move(agent, pt)
            if ret is not None:
                Py_INCREF(ret)
                return ret
            else:
                return Py_None
        except invalid_argument as ex:
            PyErr_SetString(PyExc_RuntimeError, ex.what())
            return None

    def contains(self, args):
        agent = PyArg_value(args, 'O!', 0, 'object', R4PyCore_API[0])
        if not PyArg_Parse(args, 'O!'):
            return None
        ret_val = self.space.contains_(agent)
        return PyBool_FromLong(ret_val)

    def get_location(self, args):
        agent = PyArg_value(args, 'O!', 0, 'object', R4PyCore_API[0])
        if not PyArg_Parse(args, 'O!'):
            return None
        pt = self.space.getLocation(agent)
        if pt is not None:
            Py_INCREF(pt)
            return pt
        else:
            return Py_None

    def get_agent(self, args):
        pt = PyArg_value(args, 'O!', 0, 'object', ContinuousPointType)
        if not PyArg_Parse(args, 'O!'):
            return None
        ret = self.space.getAgentAt(pt)
        if ret is not None:
            Py_INCREF(ret)
            return ret
        else:
            return Py_None

    def get_agents(self, args):
        pt = PyArg_value(args, 'O!', 0, 'object', ContinuousPointType)
        if not PyArg_Parse(args, 'O!'):
            return None
        list = self.space.getAgentsAt(pt)
        agent_iter = R4PyCore_API[1].tp_new(R4PyCore_API[1], None, None)
        agent_iter.iter = TAgentIter(list)
        return agent_iter

    def get_num_agents(self, args, kwds):
        kwlist = ['pt', 'agent_type', None]
        agent_type = -1
        pt = PyArg_value(args, 'O!', 0, 'object', ContinuousPointType)
        agent_type = PyArg_value(args, 'i', 1, 'int', agent_type)
        if not PyArg_Parse(args, 'O!|i', 'pt agent_type'):
            return None
        list = self.space.getAgentsAt(pt)
        if agent_type == -1:
            return PyLong_FromLongT(len(list))
        else:
            count = 0
            for agent in list:
                if agent.aid.type == agent_type:
                    count += 1
            return PyLong_FromLongT(count)

    def _get_oob(self, args):
        oob = self.space.getOOBData()
        obj_iter = R4PyCore_API[2].tp_new(R4PyCore_API[2], None, None)
        obj_iter.iter = ValueIter(oob)
        return obj_iter

    def _clear_oob(self, args):
        self.space.clearOOBData()
        return Py_None

    def get_local_bounds(self, args):
        bounds = self.space.getLocalBounds()
        box_args = Py_BuildValue('(llllll)', bounds.xmin_, bounds.x_extent_, bounds.ymin_, bounds.y_extent_, bounds.zmin_, bounds.z_extent_)
        pmod = PyImport_ImportModule('repast4py.space')
        bbox_class = PyObject_GetAttrString(pmod, 'BoundingBox')
        box = PyObject_CallObject(bbox_class, box_args)
        Py_DECREF(box_args)
        Py_DECREF(pmod)
        Py_DECREF(bbox_class)
        return box

    def _move_oob_agent(self, args):
        agent = PyArg_value(args, 'O!', 0, 'object', R4PyCore_API[0])
        obj = PyArg_value(args, 'O!', 1, 'object', REPAST4PY_ARRAY_API[2])
        if not PyArg_Parse(args, 'O!O!'):
            return None
        pt = ContinuousPointType.tp_new(ContinuousPointType, None, None)
        if pt is None:
            return None
        obj_data = obj
        pt_data = pt.coords
        pt_data[0] = obj_data[0]
        pt_data[1] = obj_data[1]
        pt_data[2] = obj_data[2]
        try:
            self.space.move(agent, pt)
        except invalid_argument as ex:
            Py_DECREF(pt)
            PyErr_SetString(PyExc_RuntimeError, ex.what())
            return None
        Py_DECREF(pt)
        return Py_None

    def _get_buffer_data(self, args):
        nghs = self.space.getNeighborData()
        obj_iter = R4PyCore_API[2].tp_new(R4PyCore_API[2], None, None)
        obj_iter.iter = SequenceIter(nghs, of='GetBufferInfo')
        return obj_iter

    def get_agents_within(self, args):
        bounds = PyArg_value(args, 'O!', 0, 'object', PyTuple_Type)
        if not PyArg_Parse(args, 'O!'):
            return None
        xmin = PyArg_value(bounds, 'l', 0, 'long')
        width = PyArg_value(bounds, 'l', 1, 'long')
        ymin = PyArg_value(bounds, 'l', 2, 'long')
        height = PyArg_value(bounds, 'l', 3, 'long')
        zmin = PyArg_value(bounds, 'l', 4, 'long')
        depth = PyArg_value(bounds, 'l', 5, 'long')
        if not PyArg_Parse(bounds, 'llllll'):
            return None
        box = BoundingBox(xmin, width, ymin, height, zmin, depth)
        agents = []
        self.space.getAgentsWithin(box, agents)
        agent_iter = R4PyCore_API[1].tp_new(R4PyCore_API[1], None, None)
        agent_iter.iter = TAgentIter(agents)
        return agent_iter

class PySharedGrid:

    def __del__(self):
        delete(self.grid)
        if self.cart_comm is not None:
            Py_DECREF(self.cart_comm)
        Py_TYPE(self).tp_free(self)

    def __init__(self, args, kwds):
        kwlist = ['name', 'bounds', 'borders', 'occupancy', 'buffer_size', 'comm', None]
        name = PyArg_value(args, 's', 0, 'char *')
        bounds = PyArg_value(args, 'O!', 1, 'object', PyTuple_Type)
        border_type = PyArg_value(args, 'i', 2, 'int')
        occ_type = PyArg_value(args, 'i', 3, 'int')
        buffer_size = PyArg_value(args, 'i', 4, 'int')
        py_comm = PyArg_value(args, 'O!', 5, 'object', __pyx_ptype_6mpi4py_3MPI_Comm)
        if not PyArg_Parse(args, 'sO!iiiO!', 'name bounds borders occupancy buffer_size comm'):
            return -1
        xmin = PyArg_value(bounds, 'l', 0, 'long')
        x_extent = PyArg_value(bounds, 'l', 1, 'long')
        ymin = PyArg_value(bounds, 'l', 2, 'long')
        y_extent = PyArg_value(bounds, 'l', 3, 'long')
        zmin = PyArg_value(bounds, 'l', 4, 'long')
        z_extent = PyArg_value(bounds, 'l', 5, 'long')
        if not PyArg_Parse(bounds, 'llllll'):
            return -1
        Py_INCREF(py_comm)
        comm_p = __pyx_api_f_6mpi4py_3MPI_PyMPIComm_Get(py_comm)
        box = BoundingBox(xmin, x_extent, ymin, y_extent, zmin, z_extent)
        if border_type == 0:
            if occ_type == 0:
                self.grid = SharedGrid(name, box, buffer_size, comm_p, of='DistributedCartesianSpace,BaseGrid,MultiOccupancyAccessor,R4Py_DiscretePoint,StickyBorders,R4Py_DiscretePoint')
            elif occ_type == 1:
                self.grid = SharedGrid(name, box, buffer_size, comm_p, of='DistributedCartesianSpace,BaseGrid,SingleOccupancyAccessor,R4Py_DiscretePoint,StickyBorders,R4Py_DiscretePoint')
            else:
                PyErr_SetString(PyExc_RuntimeError, 'Invalid occupancy type')
                return -1
        elif border_type == 1:
            if occ_type == 0:
                self.grid = SharedGrid(name, box, buffer_size, comm_p, of='DistributedCartesianSpace,BaseGrid,MultiOccupancyAccessor,R4Py_DiscretePoint,PeriodicBorders,R4Py_DiscretePoint')
            elif occ_type == 1:
                self.grid = SharedGrid(name, box, buffer_size, comm_p, of='DistributedCartesianSpace,BaseGrid,SingleOccupancyAccessor,R4Py_DiscretePoint,PeriodicBorders,R4Py_DiscretePoint')
            else:
                PyErr_SetString(PyExc_RuntimeError, 'Invalid occupancy type')
                return -1
        else:
            PyErr_SetString(PyExc_RuntimeError, 'Invalid border type')
            return -1
        if not self.grid is not None:
            PyErr_SetString(PyExc_RuntimeError, 'Error creating native code shared grid')
            return -1
        self.cart_comm = __pyx_api_f_6mpi4py_3MPI_PyMPIComm_New(self.grid.getCartesianCommunicator())
        if self.cart_comm is None:
            return -1
        return 0

    def __new__(self, args, kwds):
        self_v2 = self.tp_alloc(self, 0)
        if self_v2 is not None:
            self_v2.grid = None
            self_v2.cart_comm = None
        return self_v2

    def get_name(self, args):
        return PyUnicode_FromString(self.grid.name())

    def add(self, args):
        agent = PyArg_value(args, 'O!', 0, 'object', R4PyCore_API[0])
        if not PyArg_Parse(args, 'O!'):
            return None
        ret_val = self.grid.add_(agent)
        return PyBool_FromLong(ret_val)

    def remove(self, args):
        agent = PyArg_value(args, 'O!', 0, 'object', R4PyCore_API[0])
        if not PyArg_Parse(args, 'O!'):
            return None
        ret_val = self.grid.remove_(agent)
        return PyBool_FromLong(ret_val)

    def move(self, args):
        agent = PyArg_value(args, 'O!', 0, 'object', R4PyCore_API[0])
        pt = PyArg_value(args, 'O!', 1, 'object', DiscretePointType)
        if not PyArg_Parse(args, 'O!O!'):
            return None
        try:
            ret = self.grid.move(agent, pt)
            if ret is not None:
                Py_INCREF(ret)
                return ret
            else:
                return Py_None
        except invalid_argument as ex:
            PyErr_SetString(PyExc_RuntimeError, ex.what())
            return None

    def contains(self, args):
        agent = PyArg_value(args, 'O!', 0, 'object', R4PyCore_API[0])
        if not PyArg_Parse(args, 'O!'):
            return None
        ret_val = self.grid.contains_(agent)
        return PyBool_FromLong(ret_val)

    def get_location(self, args):
        agent = PyArg_value(args, 'O!', 0, 'object', R4PyCore_API[0])
        if not PyArg_Parse(args, 'O!'):
            return None
        pt = self.grid.getLocation(agent)
        if pt is not None:
            Py_INCREF(pt)
            return pt
        else:
            return Py_None

    def get_agent(self, args):
        pt = PyArg_value(args, 'O!', 0, 'object', DiscretePointType)
        if not PyArg_Parse(args, 'O!'):
            return None
        ret = self.grid.getAgentAt(pt)
        if ret is not None:
            Py_INCREF(ret)
            return ret
        else:
            return Py_None

    def get_agents(self, args):
        pt = PyArg_value(args, 'O!', 0, 'object', DiscretePointType)
        if not PyArg_Parse(args, 'O!'):
            return None
        list = self.grid.getAgentsAt(pt)
        agent_iter = R4PyCore_API[1].tp_new(R4PyCore_API[1], None, None)
        agent_iter.iter = TAgentIter(list)
        return agent_iter

    def get_num_agents(self, args, kwds):
        kwlist = ['pt', 'agent_type', None]
        agent_type = -1
        pt = PyArg_value(args, 'O!', 0, 'object', DiscretePointType)
        agent_type = PyArg_value(args, 'i', 1, 'int', agent_type)
        if not PyArg_Parse(args, 'O!|i', 'pt agent_type'):
            return None
        list = self.grid.getAgentsAt(pt)
        if agent_type == -1:
            return PyLong_FromLongT(len(list))
        else:
            count = 0
            for agent in list:
                if agent.aid.type == agent_type:
                    count += 1
            return PyLong_FromLongT(count)

    def _get_oob(self, args):
        oob = self.grid.getOOBData()
        obj_iter = R4PyCore_API[2].tp_new(R4PyCore_API[2], None, None)
        obj_iter.iter = ValueIter(oob)
        return obj_iter

    def _clear_oob(self, args):
        self.grid.clearOOBData()
        return Py_None

    def get_local_bounds(self, args):
        bounds = self.grid.getLocalBounds()
        box_args = Py_BuildValue('(llllll)', bounds.xmin_, bounds.x_extent_, bounds.ymin_, bounds.y_extent_, bounds.zmin_, bounds.z_extent_)
        pmod = PyImport_ImportModule('repast4py.space')
        bbox_class = PyObject_GetAttrString(pmod, 'BoundingBox')
        box = PyObject_CallObject(bbox_class, box_args)
        Py_DECREF(box_args)
        Py_DECREF(pmod)
        Py_DECREF(bbox_class)
        return box

    def _move_oob_agent(self, args):
        agent = PyArg_value(args, 'O!', 0, 'object', R4PyCore_API[0])
        obj = PyArg_value(args, 'O!', 1, 'object', REPAST4PY_ARRAY_API[2])
        if not PyArg_Parse(args, 'O!O!'):
            return None
        pt = DiscretePointType.tp_new(DiscretePointType, None, None)
        if pt is None:
            return None
        obj_data = obj
        pt_data = pt.coords
        pt_data[0] = obj_data[0]
        pt_data[1] = obj_data[1]
        pt_data[2] = obj_data[2]
        try:
            self.grid.move(agent, pt)
        except invalid_argument as ex:
            Py_DECREF(pt)
            PyErr_SetString(PyExc_RuntimeError, ex.what())
            return None
        Py_DECREF(pt)
        return Py_None

    def _get_buffer_data(self, args):
        nghs = self.grid.getNeighborData()
        obj_iter = R4PyCore_API[2].tp_new(R4PyCore_API[2], None, None)
        obj_iter.iter = SequenceIter(nghs, of='GetBufferInfo')
        return obj_iter

def PyInit__core():
    if PyType_Ready(R4Py_AgentType) < 0:
        return None
    if PyType_Ready(R4Py_AgentIterType) < 0:
        return None
    if PyType_Ready(R4Py_PyObjectIterType) < 0:
        return None
    m = PyModule_Create2(coremodule, 1013)
    if m is None:
        return None
    R4PyCore_API[0] = R4Py_AgentType
    R4PyCore_API[1] = R4Py_AgentIterType
    R4PyCore_API[2] = R4Py_PyObjectIterType
    c_api_object = PyCapsule_New(R4PyCore_API, 'repast4py._core._C_API', None)
    if PyModule_AddObject(m, '_C_API', c_api_object) < 0:
        if c_api_object is not None:
            Py_DECREF(c_api_object)
        Py_DECREF(m)
        return None
    Py_INCREF(R4Py_AgentType)
    if PyModule_AddObject(m, 'Agent', R4Py_AgentType) < 0:
        if c_api_object is not None:
            Py_DECREF(c_api_object)
        Py_DECREF(R4Py_AgentType)
        Py_DECREF(m)
        return None
    Py_INCREF(R4Py_AgentIterType)
    if PyModule_AddObject(m, 'AgentIterator', R4Py_AgentIterType) < 0:
        if c_api_object is not None:
            Py_DECREF(c_api_object)
        Py_DECREF(R4Py_AgentType)
        Py_DECREF(R4Py_AgentIterType)
        Py_DECREF(m)
        return None
    Py_INCREF(R4Py_PyObjectIterType)
    if PyModule_AddObject(m, 'PyObjectIterator', R4Py_PyObjectIterType) < 0:
        if c_api_object is not None:
            Py_DECREF(c_api_object)
        Py_DECREF(R4Py_AgentType)
        Py_DECREF(R4Py_AgentIterType)
        Py_DECREF(R4Py_PyObjectIterType)
        Py_DECREF(m)
        return None
    return m

def PyInit__space():
    m = PyModule_Create2(spacemodule, 1013)
    if m is None:
        return None
    if import_core() < 0:
        return None
    if import_mpi4py() < 0:
        return None
    if _import_array() < 0:
        PyErr_Print()
        PyErr_SetString(PyExc_ImportError, 'numpy._core.multiarray failed to import')
        return None
    if PyType_Ready(DiscretePointType) < 0:
        return None
    if PyType_Ready(ContinuousPointType) < 0:
        return None
    if PyType_Ready(R4Py_GridType) < 0:
        return None
    if PyType_Ready(R4Py_CSpaceType) < 0:
        return None
    if PyType_Ready(R4Py_SharedGridType) < 0:
        return None
    if PyType_Ready(R4Py_SharedCSpaceType) < 0:
        return None
    if PyType_Ready(R4Py_GridStickyBordersType) < 0:
        return None
    if PyType_Ready(R4Py_GridPeriodicBordersType) < 0:
        return None
    if PyType_Ready(R4Py_CartesianTopologyType) < 0:
        return None
    Py_INCREF(DiscretePointType)
    if PyModule_AddObject(m, 'DiscretePoint', DiscretePointType) < 0:
        Py_DECREF(DiscretePointType)
        Py_DECREF(m)
        return None
    Py_INCREF(ContinuousPointType)
    if PyModule_AddObject(m, 'ContinuousPoint', ContinuousPointType) < 0:
        Py_DECREF(DiscretePointType)
        Py_DECREF(ContinuousPointType)
        Py_DECREF(m)
        return None
    Py_INCREF(R4Py_GridType)
    if PyModule_AddObject(m, 'Grid', R4Py_GridType) < 0:
        Py_DECREF(DiscretePointType)
        Py_DECREF(ContinuousPointType)
        Py_DECREF(R4Py_GridType)
        Py_DECREF(m)
        return None
    Py_INCREF(R4Py_CSpaceType)
    if PyModule_AddObject(m, 'ContinuousSpace', R4Py_CSpaceType) < 0:
        Py_DECREF(DiscretePointType)
        Py_DECREF(ContinuousPointType)
        Py_DECREF(R4Py_GridType)
        Py_DECREF(R4Py_CSpaceType)
        Py_DECREF(m)
        return None
    Py_INCREF(R4Py_SharedGridType)
    if PyModule_AddObject(m, 'SharedGrid', R4Py_SharedGridType) < 0:
        Py_DECREF(DiscretePointType)
        Py_DECREF(ContinuousPointType)
        Py_DECREF(R4Py_GridType)
        Py_DECREF(R4Py_SharedGridType)
        Py_DECREF(R4Py_CSpaceType)
        Py_DECREF(m)
    Py_INCREF(R4Py_SharedGridType)
    if PyModule_AddObject(m, 'SharedContinuousSpace', R4Py_SharedCSpaceType) < 0:
        Py_DECREF(DiscretePointType)
        Py_DECREF(ContinuousPointType)
        Py_DECREF(R4Py_GridType)
        Py_DECREF(R4Py_SharedGridType)
        Py_DECREF(R4Py_CSpaceType)
        Py_DECREF(R4Py_SharedCSpaceType)
        Py_DECREF(m)
    Py_INCREF(R4Py_GridStickyBordersType)
    if PyModule_AddObject(m, 'GridStickyBorders', R4Py_GridStickyBordersType) < 0:
        Py_DECREF(DiscretePointType)
        Py_DECREF(ContinuousPointType)
        Py_DECREF(R4Py_GridType)
        Py_DECREF(R4Py_SharedGridType)
        Py_DECREF(R4Py_CSpaceType)
        Py_DECREF(R4Py_SharedCSpaceType)
        Py_DECREF(R4Py_GridStickyBordersType)
        Py_DECREF(m)
    Py_INCREF(R4Py_GridPeriodicBordersType)
    if PyModule_AddObject(m, 'GridPeriodicBorders', R4Py_GridPeriodicBordersType) < 0:
        Py_DECREF(DiscretePointType)
        Py_DECREF(ContinuousPointType)
        Py_DECREF(R4Py_GridType)
        Py_DECREF(R4Py_SharedGridType)
        Py_DECREF(R4Py_CSpaceType)
        Py_DECREF(R4Py_SharedCSpaceType)
        Py_DECREF(R4Py_GridStickyBordersType)
        Py_DECREF(R4Py_GridPeriodicBordersType)
        Py_DECREF(m)
    Py_INCREF(R4Py_CartesianTopologyType)
    if PyModule_AddObject(m, 'CartesianTopology', R4Py_CartesianTopologyType) < 0:
        Py_DECREF(DiscretePointType)
        Py_DECREF(ContinuousPointType)
        Py_DECREF(R4Py_GridType)
        Py_DECREF(R4Py_SharedGridType)
        Py_DECREF(R4Py_CSpaceType)
        Py_DECREF(R4Py_SharedCSpaceType)
        Py_DECREF(R4Py_GridStickyBordersType)
        Py_DECREF(R4Py_GridPeriodicBordersType)
        Py_DECREF(R4Py_CartesianTopologyType)
        Py_DECREF(m)
    return m

def __lshift__(os, box):
    stream(stream(stream(stream(stream(stream(stream(stream(stream(stream(stream(stream(stream(os, 'BoundingBox('), box.xmin_), ', '), box.x_extent_), ', '), box.ymin_), ', '), box.y_extent_), ', '), box.zmin_), ', '), box.z_extent_), ')')
    return os

def adjust_min_extent(coord, remainder, min, extent):
    if remainder > 0:
        extent += 1 if coord < remainder else 0
        if coord > 0 and coord < remainder:
            min += remainder - (remainder - coord)
        elif coord >= remainder:
            min += remainder
    return (min, extent)

def compute_buffer_bounds(ngh, offsets, num_dims, local_bounds, buffer_size):
    xmin = local_bounds.xmin_
    xmax = local_bounds.xmax_
    ymin = 0
    ymax = 0
    if num_dims == 2:
        ymin = local_bounds.ymin_
        ymax = local_bounds.ymax_
    zmin = 0
    zmax = 0
    if num_dims == 3:
        ymin = local_bounds.ymin_
        ymax = local_bounds.ymax_
        zmin = local_bounds.zmin_
        zmax = local_bounds.zmax_
    if offsets[0] == -1 or offsets[0] > 1:
        xmin = local_bounds.xmin_
        xmax = xmin + buffer_size
    elif offsets[0] == 1 or offsets[0] < -1:
        xmin = local_bounds.xmax_ - buffer_size
        xmax = xmin + buffer_size
    if offsets[1] == -1 or offsets[1] > 1:
        ymin = local_bounds.ymin_
        ymax = ymin + buffer_size
    elif offsets[1] == 1 or offsets[1] < -1:
        ymin = local_bounds.ymax_ - buffer_size
        ymax = ymin + buffer_size
    if offsets[2] == -1 or offsets[2] > 1:
        zmin = local_bounds.zmin_
        zmax = zmin + buffer_size
    elif offsets[2] == 1 or offsets[2] < -1:
        zmin = local_bounds.zmax_ - buffer_size
        zmax = zmin + buffer_size
    ngh.buffer_info = Py_BuildValue('(i(llllll))', ngh.rank, xmin, xmax, ymin, ymax, zmin, zmax)

def compute_neighbor_buffers(nghs, cart_coords, local_bounds, num_dims, procs_per_dim, buffer_size):
    offsets = [0, 0, 0]
    p_ranks = set()
    if num_dims == 1:
        for ngh in nghs:
            offsets[0] = ngh.cart_coord_x - cart_coords[0]
            if ngh.rank in p_ranks:
                if offsets[0] < 0:
                    offsets[0] = 1
                else:
                    offsets[0] = -1
            compute_buffer_bounds(ngh, offsets, num_dims, local_bounds, buffer_size)
            p_ranks.add(ngh.rank)
    elif num_dims == 2:
        coord_offset_counts = {}
        for ngh_v2 in nghs:
            if ngh_v2.rank not in coord_offset_counts:
                ox = ngh_v2.cart_coord_x - cart_coords[0]
                oy = ngh_v2.cart_coord_y - cart_coords[1]
                if ngh_v2.rank not in coord_offset_counts:
                    coord_offset_counts[ngh_v2.rank] = [1, ox, oy]
            else:
                coord_offset_counts[ngh_v2.rank][0] += 1
        x2 = procs_per_dim[0] == 2
        y2 = procs_per_dim[1] == 2
        fixed_offsets = {}
        for kv_k, kv_v in coord_offset_counts.items():
            val = kv_v
            if val[0] == 1:
                if kv_k not in fixed_offsets:
                    fixed_offsets[kv_k] = [val[1], val[2]]
            elif val[0] == 2:
                if val[1] != 0 and x2:
                    if kv_k not in fixed_offsets:
                        fixed_offsets[kv_k] = [1, val[2], -1, val[2]]
                if val[2] != 0 and y2:
                    if kv_k not in fixed_offsets:
                        fixed_offsets[kv_k] = [val[1], 1, val[1], -1]
            elif val[0] == 3:
                if procs_per_dim[0] == 1:
                    if kv_k not in fixed_offsets:
                        fixed_offsets[kv_k] = [-1, val[2], 0, val[2], 1, val[2]]
                elif kv_k not in fixed_offsets:
                    fixed_offsets[kv_k] = [val[1], -1, val[1], 0, val[1], 1]
            elif val[0] == 4:
                if kv_k not in fixed_offsets:
                    fixed_offsets[kv_k] = [1, 1, 1, -1, -1, 1, -1, -1]
            elif val[0] == 6:
                if x2:
                    if kv_k not in fixed_offsets:
                        fixed_offsets[kv_k] = [-1, -1, -1, 1, 1, -1, 1, 1, -1, 0, 1, 0]
                elif y2:
                    if kv_k not in fixed_offsets:
                        fixed_offsets[kv_k] = [-1, -1, -1, 1, 1, -1, 1, 1, 0, -1, 0, 1]
        ngh_offsets_idx = {}
        for ngh_v3 in nghs:
            idx = ngh_offsets_idx[ngh_v3.rank]
            ngh_offsets_idx[ngh_v3.rank] += 2
            ngh_offsets = fixed_offsets[ngh_v3.rank]
            offsets[0] = ngh_offsets[idx]
            offsets[1] = ngh_offsets[idx + 1]
            compute_buffer_bounds(ngh_v3, offsets, num_dims, local_bounds, buffer_size)
    elif num_dims == 3:
        x2_v2 = procs_per_dim[0] == 2
        y2_v2 = procs_per_dim[1] == 2
        z2 = procs_per_dim[2] == 2
        occurrences = {}
        for ngh_v4 in nghs:
            offsets[0] = ngh_v4.cart_coord_x - cart_coords[0]
            offsets[1] = ngh_v4.cart_coord_y - cart_coords[1]
            offsets[2] = ngh_v4.cart_coord_z - cart_coords[2]
            tmp1 = occurrences[ngh_v4.rank]
            occurrences[ngh_v4.rank] += 1
            sides = tmp1
            if z2 and offsets[2] != 0:
                if sides % 2 != 0:
                    offsets[2] = -offsets[2]
                sides //= 2
            if y2_v2 and offsets[1] != 0:
                if sides % 2 != 0:
                    offsets[1] = -offsets[1]
                sides //= 2
            if x2_v2 and offsets[0] != 0:
                if sides % 2 != 0:
                    offsets[0] = -offsets[0]
            compute_buffer_bounds(ngh_v4, offsets, num_dims, local_bounds, buffer_size)

def create_point__dcoords(pt_type, wpt):
    pt = pt_type.tp_new(pt_type, None, None)
    update_point(pt, wpt)
    return pt

def create_point__ccoords(pt_type, wpt):
    pt = pt_type.tp_new(pt_type, None, None)
    update_point(pt, wpt)
    return pt

def decref__list(agent_list):
    for iter in agent_list:
        Py_DECREF(iter)

def decref__agent(agent):
    Py_DECREF(agent)

def extract_coords__dpt_dcoords(pt, coords):
    data = pt.coords
    coords.x = data[0]
    coords.y = data[1]
    coords.z = data[2]
    return coords

def extract_coords__cpt_ccoords(pt, coords):
    data = pt.coords
    coords.x = data[0]
    coords.y = data[1]
    coords.z = data[2]
    return coords

def point_equals__dpt_dcoords(pt, coords):
    if pt is not None:
        data = pt.coords
        return (data[0] == coords.x and data[1] == coords.y) and data[2] == coords.z
    return False

def point_equals__cpt_ccoords(pt, coords):
    if pt is not None:
        data = pt.coords
        return (data[0] == coords.x and data[1] == coords.y) and data[2] == coords.z
    return False

def transformX(pt, transformed_pt, bounds):
    data = pt.coords
    nc = fmod(data[0] - bounds.xmin_, bounds.x_extent_)
    transformed_pt.x = wrap(nc, bounds.xmin_, bounds.xmax_)
    transformed_pt.y = bounds.ymin_
    transformed_pt.z = bounds.zmin_

def transformXY(pt, transformed_pt, bounds):
    data = pt.coords
    nc = fmod(data[0] - bounds.xmin_, bounds.x_extent_)
    transformed_pt.x = wrap(nc, bounds.xmin_, bounds.xmax_)
    nc = fmod(data[1] - bounds.ymin_, bounds.y_extent_)
    transformed_pt.y = wrap(nc, bounds.ymin_, bounds.ymax_)
    transformed_pt.z = bounds.zmin_

def transformXYZ(pt, transformed_pt, bounds):
    data = pt.coords
    nc = fmod(data[0] - bounds.xmin_, bounds.x_extent_)
    transformed_pt.x = wrap(nc, bounds.xmin_, bounds.xmax_)
    nc = fmod(data[1] - bounds.ymin_, bounds.y_extent_)
    transformed_pt.y = wrap(nc, bounds.ymin_, bounds.ymax_)
    nc = fmod(data[2] - bounds.zmin_, bounds.z_extent_)
    transformed_pt.z = wrap(nc, bounds.zmin_, bounds.zmax_)

def update_point__dpt_dcoords(pt, coords):
    data = pt.coords
    data[0] = coords.x
    data[1] = coords.y
    data[2] = coords.z

def update_point__cpt_ccoords(pt, coords):
    data = pt.coords
    data[0] = coords.x
    data[1] = coords.y
    data[2] = coords.z

def wrap(nc, min, max):
    c = max + nc if nc < 0 else min + nc
    return c if c < max else min
MULT_OT = 0
PERIODIC_BRDR = 1
PyLong_AsLongT = PyLong_AsLong
PyLong_FromLongT = PyLong_FromLong
SINGLE_OT = 1
STICKY_BRDR = 0
empty_list = []
type = ompi_mpi_long_long_int
