"""Behaviour preserving edits of the native sources; every check has to stay quiet on each of them.
usage: refac_cpp.py [NAME...]   (works on a scratch copy, /repo is not touched)"""
import os, sys, shutil, subprocess, tempfile, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/repast4py/'
R = []


def r(name, *edits):
    R.append((name, edits))


r('eraseoob-ref', (S + 'distributed_space.h', '''        Py_DECREF(PyTuple_GET_ITEM(iter->second, 0));
        Py_DECREF(PyTuple_GET_ITEM(iter->second, 2));
        // if decref destroys the tuple, then it's members are decreffed
        Py_DECREF(iter->second);
        out_of_bounds_agents->erase(iter);
    }
}''', '''        PyObject* entry = iter->second;
        PyObject* id_tuple = PyTuple_GET_ITEM(entry, 0);
        PyObject* coords = PyTuple_GET_ITEM(entry, 2);
        Py_DECREF(coords);
        Py_DECREF(id_tuple);
        Py_DECREF(entry);
        out_of_bounds_agents->erase(iter);
    }
}'''))
r('eraseoob-early', (S + 'distributed_space.h', '''    if (iter != out_of_bounds_agents->end()) {
        Py_DECREF(PyTuple_GET_ITEM(iter->second, 0));
        Py_DECREF(PyTuple_GET_ITEM(iter->second, 2));
        // if decref destroys the tuple, then it's members are decreffed
        Py_DECREF(iter->second);
        out_of_bounds_agents->erase(iter);
    }
}''', '''    if (iter == out_of_bounds_agents->end()) return;
    Py_DECREF(PyTuple_GET_ITEM(iter->second, 0));
    Py_DECREF(PyTuple_GET_ITEM(iter->second, 2));
    Py_DECREF(iter->second);
    out_of_bounds_agents->erase(iter);
}'''))
r('oob-helper', (S + 'distributed_space.h', '''    void eraseOOB(R4Py_AgentID *aid);
''', '''    void eraseOOB(R4Py_AgentID *aid);
    static void releaseEntry(PyObject* entry) {
        Py_DECREF(PyTuple_GET_ITEM(entry, 0));
        Py_DECREF(PyTuple_GET_ITEM(entry, 2));
        Py_DECREF(entry);
    }
'''), (S + 'distributed_space.h', '''        Py_DECREF(PyTuple_GET_ITEM(iter->second, 0));
        Py_DECREF(PyTuple_GET_ITEM(iter->second, 2));
        // if decref destroys the tuple, then it's members are decreffed
        Py_DECREF(iter->second);
''', '''        releaseEntry(iter->second);
'''), (S + 'distributed_space.h', '''        // Note: key wasn't inc'reffed
        Py_DECREF(PyTuple_GET_ITEM(kv.second, 0));
        Py_DECREF(PyTuple_GET_ITEM(kv.second, 2));
        Py_DECREF(kv.second);
''', '''        releaseEntry(kv.second);
'''))
r('dmove-early', (S + 'distributed_space.h', '''    if (pt) {
        eraseOOB(agent->aid);
        if (!local_bounds.contains(pt)) {
            // what rank now contains the agent
            for (auto &box_rank : all_bounds) {
                if (box_rank.first.contains(pt)) {
                    PyObject *aid_tuple = agent->aid->as_tuple;
                    Py_INCREF(aid_tuple);
                    PyArrayObject *pt_array = pt->coords;
                    Py_INCREF(pt_array);
                    // Py_BuildValue increments aid_tuple and pt_array ref counts,
                    // but without the incref zombies example is segfaulting ...
                    PyObject *obj = Py_BuildValue("(O, I, O)", aid_tuple, box_rank.second, pt_array);
                    (*out_of_bounds_agents)[agent->aid] = obj;
                    break;
                }
            }
        }
    }
    return pt;''', '''    if (pt == nullptr) return nullptr;
    R4Py_AgentID* aid = agent->aid;
    eraseOOB(aid);
    if (local_bounds.contains(pt)) return pt;
    for (auto iter = all_bounds.begin(); iter != all_bounds.end(); ++iter) {
        if (!iter->first.contains(pt)) continue;
        Py_INCREF(aid->as_tuple);
        Py_INCREF(pt->coords);
        (*out_of_bounds_agents)[aid] = Py_BuildValue("(O, I, O)", aid->as_tuple, iter->second, pt->coords);
        return pt;
    }
    return pt;'''))
r('dmove-index', (S + 'distributed_space.h', '''            for (auto &box_rank : all_bounds) {
                if (box_rank.first.contains(pt)) {''', '''            for (size_t i = 0; i < all_bounds.size(); ++i) {
                auto& box_rank = all_bounds[i];
                if (box_rank.first.contains(pt)) {'''))
r('dmove-extract', (S + 'distributed_space.h', '''    void eraseOOB(R4Py_AgentID *aid);
''', '''    void eraseOOB(R4Py_AgentID *aid);
    void recordOOB(R4Py_Agent* agent, typename BaseSpaceType::PointType* pt) {
        for (auto &box_rank : all_bounds) {
            if (box_rank.first.contains(pt)) {
                PyObject *aid_tuple = agent->aid->as_tuple;
                Py_INCREF(aid_tuple);
                PyArrayObject *pt_array = pt->coords;
                Py_INCREF(pt_array);
                PyObject *obj = Py_BuildValue("(O, I, O)", aid_tuple, box_rank.second, pt_array);
                (*out_of_bounds_agents)[agent->aid] = obj;
                break;
            }
        }
    }
'''), (S + 'distributed_space.h', '''            // what rank now contains the agent
            for (auto &box_rank : all_bounds) {
                if (box_rank.first.contains(pt)) {
                    PyObject *aid_tuple = agent->aid->as_tuple;
                    Py_INCREF(aid_tuple);
                    PyArrayObject *pt_array = pt->coords;
                    Py_INCREF(pt_array);
                    // Py_BuildValue increments aid_tuple and pt_array ref counts,
                    // but without the incref zombies example is segfaulting ...
                    PyObject *obj = Py_BuildValue("(O, I, O)", aid_tuple, box_rank.second, pt_array);
                    (*out_of_bounds_agents)[agent->aid] = obj;
                    break;
                }
            }
''', '''            recordOOB(agent, pt);
'''))
r('dremove-order', (S + 'distributed_space.h', '''    eraseOOB(aid);
    return base_space->remove(aid);''', '''    eraseOOB(aid);
    bool removed = base_space->remove(aid);
    return removed;'''))
r('allbounds-box', (S + 'distributed_space.h', '''        all_bounds.emplace(all_bounds.end(), ngh.local_bounds, ngh.rank);
        ngh_ranks.emplace(ngh.rank);''', '''        all_bounds.emplace_back(ngh.local_bounds, ngh.rank);
        ngh_ranks.insert(ngh.rank);'''))
r('allbounds-skip', (S + 'distributed_space.h', '''        if (i != rank && ngh_ranks.find(i) == ngh_ranks.end()) {''', '''        bool known = ngh_ranks.count(i) > 0;
        if (i != rank && !known) {'''))
r('clearoob-iter', (S + 'distributed_space.h', '''    for (auto& kv: (*out_of_bounds_agents)) {
        // Note: key wasn't inc'reffed
        Py_DECREF(PyTuple_GET_ITEM(kv.second, 0));
        Py_DECREF(PyTuple_GET_ITEM(kv.second, 2));
        Py_DECREF(kv.second);
    }''', '''    for (auto it = out_of_bounds_agents->begin(); it != out_of_bounds_agents->end(); ++it) {
        PyObject* data = it->second;
        Py_DECREF(PyTuple_GET_ITEM(data, 0));
        Py_DECREF(PyTuple_GET_ITEM(data, 2));
        Py_DECREF(data);
    }'''))
r('space-add', (S + 'space.h', '''    auto item = std::make_shared<SpaceItem<PointType>>();
    item->agent = agent;
    Py_INCREF(agent);
    item->pt = nullptr;
    agent_map[agent->aid] = item;''', '''    Py_INCREF(agent);
    auto item = std::make_shared<SpaceItem<PointType>>();
    item->pt = nullptr;
    item->agent = agent;
    agent_map.emplace(agent->aid, item);'''))
r('space-remove', (S + 'space.h', '''    bool ret_val = false;
    if (iter != agent_map.end()) {
        if (iter->second->pt) {
            extract_coords(iter->second->pt, wpt);
            ret_val = accessor.remove(iter->second->agent, location_map, wpt);
        } 
        Py_XDECREF(iter->second->pt);
        Py_DECREF(iter->second->agent);
        agent_map.erase(iter);
    }
    return ret_val;''', '''    if (iter == agent_map.end()) {
        return false;
    }
    bool ret_val = false;
    auto& item = iter->second;
    PointType* pt = item->pt;
    R4Py_Agent* agent = item->agent;
    if (pt != nullptr) {
        extract_coords(pt, wpt);
        ret_val = accessor.remove(agent, location_map, wpt);
        Py_DECREF(pt);
    }
    agent_map.erase(iter);
    Py_DECREF(agent);
    return ret_val;'''))
r('space-getloc', (S + 'space.h', '''    auto iter = agent_map.find(agent->aid);
    if (iter != agent_map.end()) {
        return iter->second->pt;
    }
    return nullptr;''', '''    auto iter = agent_map.find(agent->aid);
    return iter == agent_map.end() ? nullptr : iter->second->pt;'''))
r('space-contains', (S + 'space.h', '''    return agent_map.find(agent->aid) != agent_map.end();''', '''    return agent_map.count(agent->aid) > 0;'''))
r('space-getagent-local', (S + 'space.h', '''    extract_coords(pt, wpt);
    return accessor.get(location_map, wpt);''', '''    Point<PointType> where;
    extract_coords(pt, where);
    R4Py_Agent* found = accessor.get(location_map, where);
    return found;'''))
r('grid-move-early', (S + 'grid.h', '''    if (iter != agent_map.end()) {
        borders.transform(pt, wpt);
        if (!point_equals(iter->second->pt, wpt)) {
            if (accessor.put(agent, location_map, wpt)) {
                if (iter->second->pt) {
                    // if successful put, and agent is already located 
                    // so need to remove
                    Point<R4Py_DiscretePoint> ppt;
                    extract_coords(iter->second->pt, ppt);
                    accessor.remove(agent, location_map, ppt);
                    update_point(iter->second->pt, wpt);
                }  else {
                    iter->second->pt = create_point(Py_TYPE(pt), wpt);
                }
            } else {
                return nullptr;
            }
        }
        return iter->second->pt;

    } else {
        R4Py_AgentID* id = agent->aid;
        throw std::invalid_argument("Error moving agent (" + std::to_string(id->id) + "," + 
            std::to_string(id->type) + "): agent is not in " + name_);
    }''', '''    if (iter == agent_map.end()) {
        R4Py_AgentID* id = agent->aid;
        std::string msg = "Error moving agent (" + std::to_string(id->id) + "," + 
            std::to_string(id->type) + "): agent is not in " + name_;
        throw std::invalid_argument(msg);
    }

    auto& item = iter->second;
    borders.transform(pt, wpt);
    if (point_equals(item->pt, wpt)) {
        return item->pt;
    }
    if (!accessor.put(agent, location_map, wpt)) {
        return nullptr;
    }
    if (item->pt == nullptr) {
        item->pt = create_point(Py_TYPE(pt), wpt);
    } else {
        Point<R4Py_DiscretePoint> old_pt;
        extract_coords(item->pt, old_pt);
        accessor.remove(agent, location_map, old_pt);
        update_point(item->pt, wpt);
    }
    return item->pt;'''))
r('grid-move-localpt', (S + 'grid.h', '''                if (iter->second->pt) {
                    // if successful put, and agent is already located 
                    // so need to remove
                    Point<R4Py_DiscretePoint> ppt;
                    extract_coords(iter->second->pt, ppt);
                    accessor.remove(agent, location_map, ppt);
                    update_point(iter->second->pt, wpt);
''', '''                R4Py_DiscretePoint* current = iter->second->pt;
                if (current) {
                    Point<R4Py_DiscretePoint> ppt;
                    extract_coords(current, ppt);
                    accessor.remove(agent, location_map, ppt);
                    update_point(current, wpt);
'''))
r('cspace-move-early', (S + 'cspace.h', '''                if (iter->second->pt) {
                    if (spatial_tree) spatial_tree->removeItem(iter->second);
                    // if successful put, and agent is already located 
                    // so need to remove
                    Point<R4Py_ContinuousPoint> ppt;
                    extract_coords(iter->second->pt, ppt);
                    accessor.remove(agent, location_map, ppt);
                    update_point(iter->second->pt, wpt);
                    if (spatial_tree) spatial_tree->addItem(iter->second);
                }  else {
                    iter->second->pt = create_point(Py_TYPE(pt), wpt);
                    if (spatial_tree) spatial_tree->addItem(iter->second);
                }''', '''                if (iter->second->pt) {
                    if (spatial_tree) spatial_tree->removeItem(iter->second);
                    Point<R4Py_ContinuousPoint> ppt;
                    extract_coords(iter->second->pt, ppt);
                    accessor.remove(agent, location_map, ppt);
                    update_point(iter->second->pt, wpt);
                }  else {
                    iter->second->pt = create_point(Py_TYPE(pt), wpt);
                }
                if (spatial_tree) spatial_tree->addItem(iter->second);'''))
r('cspace-remove', (S + 'cspace.h', '''    if (spatial_tree && iter != agent_map.end() && iter->second->pt) {
        spatial_tree->removeItem(iter->second);
    }''', '''    if (iter != agent_map.end()) {
        auto& item = iter->second;
        if (item->pt && spatial_tree) {
            spatial_tree->removeItem(item);
        }
    }'''))
r('cspace-within', (S + 'cspace.h', '''    if (spatial_tree) {
        spatial_tree->getObjectsWithin(bounds, agents);
    } else {
        // 1D spaces are not indexed
        for (auto& kv : agent_map) {
            if (kv.second->pt && bounds.contains(kv.second->pt)) {
                agents->push_back(kv.second->agent);
            }
        }
    }''', '''    if (spatial_tree) {
        spatial_tree->getObjectsWithin(bounds, agents);
        return;
    }
    for (auto& kv : agent_map) {
        auto pt = kv.second->pt;
        if (pt == nullptr) continue;
        if (!bounds.contains(pt)) continue;
        agents->push_back(kv.second->agent);
    }'''))
r('occ-put', (S + 'occupancy.h', '''    if (iter == location_map.end()) {
        auto l = std::make_shared<AgentList>();
        l->push_back(agent);
        location_map.emplace(pt, l);
    } else {
        iter->second->push_back(agent);
    }
    Py_INCREF(agent);
    return true;''', '''    Py_INCREF(agent);
    if (iter != location_map.end()) {
        iter->second->push_back(agent);
        return true;
    }
    auto agents = std::make_shared<AgentList>();
    agents->push_back(agent);
    location_map[pt] = agents;
    return true;'''))
r('occ-size', (S + 'occupancy.h', '''    if (iter == location_map.end()) return 0;
    return iter->second->size();''', '''    if (iter != location_map.end()) {
        return iter->second->size();
    }
    return 0;'''))
r('sticky-helper', (S + 'borders.h', '''template <typename PointType>
void StickyBorders<PointType>::transform(const PointType* pt, PointType* transformed_pt) {''', '''template <typename PointType>
typename TypeSelector<PointType>::type clamp_coord(typename TypeSelector<PointType>::type v, BoundingBox::coord_type lo, BoundingBox::coord_type hi) {
    using coord_type  = typename TypeSelector<PointType>::type;
    return std::max((coord_type)lo, std::min((coord_type)hi - Offset<PointType>::value, v));
}

template <typename PointType>
void StickyBorders<PointType>::transform(const PointType* pt, PointType* transformed_pt) {'''),
  (S + 'borders.h', '''    t_data[0] = std::max((coord_type)bounds_.xmin_, std::min((coord_type)bounds_.xmax_ - Offset<PointType>::value, data[0]));
    t_data[1] = std::max((coord_type)bounds_.ymin_, std::min((coord_type)bounds_.ymax_ - Offset<PointType>::value, data[1]));
    t_data[2] = std::max((coord_type)bounds_.zmin_, std::min((coord_type)bounds_.zmax_ - Offset<PointType>::value, data[2]));''',
   '''    t_data[0] = clamp_coord<PointType>(data[0], bounds_.xmin_, bounds_.xmax_);
    t_data[1] = clamp_coord<PointType>(data[1], bounds_.ymin_, bounds_.ymax_);
    t_data[2] = clamp_coord<PointType>(data[2], bounds_.zmin_, bounds_.zmax_);'''),
  (S + 'borders.h', '''    transformed_pt.x = std::max((coord_type)bounds_.xmin_, std::min((coord_type)bounds_.xmax_ - Offset<PointType>::value, data[0]));
    transformed_pt.y = std::max((coord_type)bounds_.ymin_, std::min((coord_type)bounds_.ymax_ - Offset<PointType>::value, data[1]));
    transformed_pt.z = std::max((coord_type)bounds_.zmin_, std::min((coord_type)bounds_.zmax_ - Offset<PointType>::value, data[2]));''',
   '''    transformed_pt.x = clamp_coord<PointType>(data[0], bounds_.xmin_, bounds_.xmax_);
    transformed_pt.y = clamp_coord<PointType>(data[1], bounds_.ymin_, bounds_.ymax_);
    transformed_pt.z = clamp_coord<PointType>(data[2], bounds_.zmin_, bounds_.zmax_);'''))
r('sticky-ifs', (S + 'borders.h', '''    transformed_pt.x = std::max((coord_type)bounds_.xmin_, std::min((coord_type)bounds_.xmax_ - Offset<PointType>::value, data[0]));
''', '''    coord_type upper = (coord_type)bounds_.xmax_ - Offset<PointType>::value;
    coord_type lower = (coord_type)bounds_.xmin_;
    transformed_pt.x = std::max(lower, std::min(upper, data[0]));
'''))
r('wrap-if', (S + 'borders.h', '''    coord_type c = nc < 0 ? max + nc : min + nc;
    // floating point rounding can produce max, which is not within the bounds
    return c < max ? c : min;''', '''    coord_type c;
    if (nc < 0) {
        c = max + nc;
    } else {
        c = min + nc;
    }
    if (c >= max) return min;
    return c;'''))
r('transformxy-shared', (S + 'borders.h', '''    coord_type nc = fmod(data[0] - bounds.xmin_, bounds.x_extent_);
    transformed_pt.x = wrap<PointType>(nc, bounds.xmin_, bounds.xmax_);

    nc = fmod(data[1] - bounds.ymin_, bounds.y_extent_);
    transformed_pt.y = wrap<PointType>(nc, bounds.ymin_, bounds.ymax_);
    transformed_pt.z = bounds.zmin_;''', '''    coord_type dx = data[0] - bounds.xmin_;
    coord_type dy = data[1] - bounds.ymin_;
    coord_type ncx = fmod(dx, bounds.x_extent_);
    coord_type ncy = fmod(dy, bounds.y_extent_);
    transformed_pt.z = bounds.zmin_;
    transformed_pt.y = wrap<PointType>(ncy, bounds.ymin_, bounds.ymax_);
    transformed_pt.x = wrap<PointType>(ncx, bounds.xmin_, bounds.xmax_);'''))
r('bufbounds-else', (S + 'distributed_space.cpp', '''    long_t ymin = 0, ymax = 0;
    if (num_dims == 2) {
        ymin = local_bounds.ymin_; 
        ymax = local_bounds.ymax_;
    }
    long_t zmin = 0, zmax = 0;
    if (num_dims == 3) {
        ymin = local_bounds.ymin_; 
        ymax = local_bounds.ymax_;

        zmin = local_bounds.zmin_;''', '''    long_t ymin = 0, ymax = 0;
    long_t zmin = 0, zmax = 0;
    if (num_dims == 2 || num_dims == 3) {
        ymin = local_bounds.ymin_; 
        ymax = local_bounds.ymax_;
    }
    if (num_dims == 3) {
        zmin = local_bounds.zmin_;'''))
r('bufbounds-helper', (S + 'distributed_space.cpp', '''void compute_buffer_bounds(CTNeighbor& ngh, int offsets[], int num_dims, BoundingBox& local_bounds, 
''', '''static void clip_to_buffer(int offset, long_t lo, long_t hi, unsigned int buffer_size, long_t& rmin, long_t& rmax) {
    if (offset == -1 || offset > 1) {
        rmin = lo;
        rmax = rmin + buffer_size;
    } else if (offset == 1 || offset < -1) {
        rmin = hi - buffer_size;
        rmax = rmin + buffer_size;
    }
}

void compute_buffer_bounds(CTNeighbor& ngh, int offsets[], int num_dims, BoundingBox& local_bounds, 
'''), (S + 'distributed_space.cpp', '''    if (offsets[0] == -1 || offsets[0] > 1) {
        xmin = local_bounds.xmin_;
        xmax = xmin + buffer_size;
    } else if (offsets[0] == 1 || offsets[0] < -1) {
        xmin = local_bounds.xmax_ - buffer_size;
        xmax = xmin + buffer_size;
    }
''', '''    clip_to_buffer(offsets[0], local_bounds.xmin_, local_bounds.xmax_, buffer_size, xmin, xmax);
'''))
r('nghbuf-switch', (S + 'distributed_space.cpp', '''                if (offsets[0] < 0) offsets[0] = 1;
                else offsets[0] = -1;''', '''                offsets[0] = offsets[0] < 0 ? 1 : -1;'''))
r('moitems-add', (S + 'SpatialTree.h', '''    auto& pts = points[ppt];
    if (pts.empty()) {
        ++sum;
    }
    Py_INCREF(pt);
    pts.push_back(pt);''', '''    Py_INCREF(pt);
    auto& pts = points[ppt];
    bool is_new = pts.size() == 0;
    pts.push_back(pt);
    if (is_new) sum += 1;'''))
r('moitems-remove', (S + 'SpatialTree.h', '''    if (kv != points.end()) {
        auto iter = std::find(kv->second.begin(), kv->second.end(), pt);
        if (iter != kv->second.end()) {
            Py_DECREF(*iter);
            kv->second.erase(iter);
            if (kv->second.empty()) {
                points.erase(kv);
                --sum;
            }
            return true;
        }
    } 
    return false;''', '''    if (kv == points.end()) return false;
    auto& pts = kv->second;
    auto iter = std::find(pts.begin(), pts.end(), pt);
    if (iter == pts.end()) return false;
    Py_DECREF(pt);
    pts.erase(iter);
    if (pts.empty()) {
        --sum;
        points.erase(kv);
    }
    return true;'''))
r('moitems-within', (S + 'SpatialTree.h', '''            auto& agent_lst = (*loc_map)[kv.first];
            agents->insert(agents->end(), agent_lst->begin(), agent_lst->end());''', '''            auto agent_lst = (*loc_map)[kv.first];
            for (auto agent : *agent_lst) {
                agents->push_back(agent);
            }'''))
r('soitems-within', (S + 'SpatialTree.h', '''            extract_coords(pt, ppt);
            auto agent = (*loc_map)[ppt];
            agents->push_back(agent);''', '''            extract_coords(pt, ppt);
            agents->push_back((*loc_map)[ppt]);'''))
r('soitems-add', (S + 'SpatialTree.h', '''    Py_INCREF(pt);
    points.insert(pt);''', '''    points.insert(pt);
    Py_INCREF(pt);'''))
r('component-within', (S + 'SpatialTree.h', '''    if (items.size() > 0 && STNode<BoxType, PointType, AccessorType>::bounds_.intersects(box)) {
        items.getObjectsWithin(box, loc_map, agents);
    }''', '''    if (items.size() == 0) return;
    auto& bounds = STNode<BoxType, PointType, AccessorType>::bounds_;
    if (bounds.intersects(box)) {
        items.getObjectsWithin(box, loc_map, agents);
    }'''))
r('split-local', (S + 'SpatialTree.h', '''    std::shared_ptr<STNode<BoxType, PointType, AccessorType>> parent;
    if (STNode<BoxType, PointType, AccessorType>::bounds_.z_extent == 0)
        parent = std::make_shared<Composite2DNode<BoxType, PointType, AccessorType>>(STNode<BoxType, PointType, AccessorType>::bounds_.min_, 
        STNode<BoxType, PointType, AccessorType>::bounds_.x_extent, STNode<BoxType, PointType, AccessorType>::bounds_.y_extent);''', '''    std::shared_ptr<STNode<BoxType, PointType, AccessorType>> parent;
    auto& b = STNode<BoxType, PointType, AccessorType>::bounds_;
    if (b.z_extent == 0)
        parent = std::make_shared<Composite2DNode<BoxType, PointType, AccessorType>>(b.min_, b.x_extent, b.y_extent);'''))
r('agent-init', (S + 'coremodule.cpp', '''    self->local_rank = self->aid->rank;
    if (self->aid->type < 0) {''', '''    auto* aid = self->aid;
    self->local_rank = aid->rank;
    if (aid->type < 0) {'''))
r('getloc-none', (S + 'spacemodule.cpp', '''    R4Py_DiscretePoint* pt = ((R4Py_Grid*)self)->grid->getLocation((R4Py_Agent*)agent);
    if (pt) {
        Py_INCREF(pt);
        return (PyObject*)pt;
    } else {
        Py_INCREF(Py_None);
        return Py_None;
    }''', '''    R4Py_Grid* grid_obj = (R4Py_Grid*)self;
    R4Py_DiscretePoint* pt = grid_obj->grid->getLocation((R4Py_Agent*)agent);
    if (!pt) {
        Py_RETURN_NONE;
    }
    PyObject* result = (PyObject*)pt;
    Py_INCREF(result);
    return result;'''))
r('move-none', (S + 'spacemodule.cpp', '''        R4Py_DiscretePoint* ret = ((R4Py_Grid*)self)->grid->move((R4Py_Agent*)agent, (R4Py_DiscretePoint*)pt);
        if (ret) {
            Py_INCREF(ret);
            return (PyObject*)ret;
        } else {
            Py_INCREF(Py_None);
            return Py_None;
        }''', '''        R4Py_DiscretePoint* ret = ((R4Py_Grid*)self)->grid->move((R4Py_Agent*)agent, (R4Py_DiscretePoint*)pt);
        PyObject* result = ret ? (PyObject*)ret : Py_None;
        Py_INCREF(result);
        return result;'''))
r('getagents-local', (S + 'spacemodule.cpp', '''    AgentListPtr list = ((R4Py_Grid*)self)->grid->getAgentsAt((R4Py_DiscretePoint*)pt);
    R4Py_AgentIter* agent_iter = (R4Py_AgentIter*)R4Py_AgentIterType.tp_new(&R4Py_AgentIterType, NULL, NULL);
    agent_iter->iter = new TAgentIter<AgentList>(list);
    return (PyObject*)agent_iter;''', '''    auto* dpt = (R4Py_DiscretePoint*)pt;
    auto agents = ((R4Py_Grid*)self)->grid->getAgentsAt(dpt);
    PyObject* obj = R4Py_AgentIterType.tp_new(&R4Py_AgentIterType, NULL, NULL);
    ((R4Py_AgentIter*)obj)->iter = new TAgentIter<AgentList>(agents);
    return obj;'''))
r('fromarray-min', (S + 'spacemodule.cpp', '''    npy_intp* shape = PyArray_SHAPE(arr);
    npy_int c = shape[0];
    
    long_t* d = (long_t*)PyArray_DATA(((R4Py_DiscretePoint*)self)->coords);
    int typ = PyArray_TYPE(arr);
    if (typ == NPY_LONG) {
        long* o = (long*)PyArray_DATA(arr);
        for (int i = 0; i < c && i < 3; ++i) {
            d[i] = o[i];
        }''', '''    npy_int c = PyArray_SHAPE(arr)[0];
    
    auto* dpt = (R4Py_DiscretePoint*)self;
    long_t* d = (long_t*)PyArray_DATA(dpt->coords);
    int typ = PyArray_TYPE(arr);
    if (typ == NPY_LONG) {
        long* o = (long*)PyArray_DATA(arr);
        for (int i = 0; i < c; ++i) {
            if (i >= 3) break;
            d[i] = o[i];
        }'''))
r('procs-switch', (S + 'spacemodule.cpp', '''    if (num_dims == 1) {
        return Py_BuildValue("(i)", procs_per_dim[0]);
    } else if (num_dims == 2) {
        return Py_BuildValue("(ii)", procs_per_dim[0], procs_per_dim[1]);
    } else {
        return  Py_BuildValue("(iii)", procs_per_dim[0], procs_per_dim[1], procs_per_dim[2]);
    }''', '''    switch (num_dims) {
        case 1:
            return Py_BuildValue("(i)", procs_per_dim[0]);
        case 2:
            return Py_BuildValue("(ii)", procs_per_dim[0], procs_per_dim[1]);
        default:
            return Py_BuildValue("(iii)", procs_per_dim[0], procs_per_dim[1], procs_per_dim[2]);
    }'''))
r('localbounds-order', (S + 'spacemodule.cpp', '''    Py_DECREF(box_args);
    Py_DECREF(pmod);
    Py_DECREF(bbox_class);

    return box;
}

static PyObject* CartesianTopology_getCartCoords''', '''    Py_DECREF(bbox_class);
    Py_DECREF(pmod);
    Py_DECREF(box_args);
    return box;
}

static PyObject* CartesianTopology_getCartCoords'''))



r('allbounds-vector', (S + 'distributed_space.h', """    BoundingBox::coord_type* all_bb = new BoundingBox::coord_type[comm_size * 6];
    MPI_Datatype dtype = MPIType_Selector<BoundingBox::coord_type>::type;
    MPI_Allgather(&box[0], 6, dtype, all_bb, 6, dtype, comm);""", """    std::vector<BoundingBox::coord_type> all_bb(comm_size * 6);
    MPI_Datatype dtype = MPIType_Selector<BoundingBox::coord_type>::type;
    MPI_Allgather(box.data(), 6, dtype, all_bb.data(), 6, dtype, comm);"""),
  (S + 'distributed_space.h', """    delete[] all_bb;
}""", "}"))
r('allbounds-pushback', (S + 'distributed_space.h', """        all_bounds.emplace(all_bounds.end(), ngh.local_bounds, ngh.rank);""",
  """        all_bounds.push_back(std::make_pair(ngh.local_bounds, ngh.rank));"""),
  (S + 'distributed_space.h', """            BoundingBox box(x_min, x_extent, y_min, y_extent, z_min, z_extent);
            all_bounds.emplace(all_bounds.end(), box, i);""", """            all_bounds.push_back({BoundingBox(x_min, x_extent, y_min, y_extent, z_min, z_extent), i});"""))
r('allbounds-continue', (S + 'distributed_space.h', """        if (i != rank && ngh_ranks.find(i) == ngh_ranks.end()) {
            int idx = 6 * i;""", """        if (i == rank) continue;
        if (ngh_ranks.find(i) == ngh_ranks.end()) {
            const int idx = 6 * i;"""))
r('clearoob-struct', (S + 'distributed_space.h', """    for (auto& kv: (*out_of_bounds_agents)) {
        // Note: key wasn't inc'reffed
        Py_DECREF(PyTuple_GET_ITEM(kv.second, 0));
        Py_DECREF(PyTuple_GET_ITEM(kv.second, 2));
        Py_DECREF(kv.second);
    }""", """    for (const auto& [aid, entry] : *out_of_bounds_agents) {
        Py_DECREF(PyTuple_GET_ITEM(entry, 0));
        Py_DECREF(PyTuple_GET_ITEM(entry, 2));
        Py_DECREF(entry);
    }"""))
r('dmove-lambda', (S + 'distributed_space.h', """        if (!local_bounds.contains(pt)) {
            // what rank now""", """        bool is_local = local_bounds.contains(pt);
        if (!is_local) {
            // what rank now"""))
r('sdel-iter', (S + 'space.cpp', open('/tmp/rc/src/repast4py/space.cpp').read()[open('/tmp/rc/src/repast4py/space.cpp').read().index('void decref(AgentListPtr'):] if False else '', '') if False else (S + 'space.h', """    agent_map[agent->aid] = item;
    // TODO""", """    agent_map.insert({agent->aid, item});
    // TODO"""))
r('add-pair', (S + 'space.h', """    agent_map[agent->aid] = item;
    // TODO""", """    agent_map.insert(std::make_pair(agent->aid, item));
    // TODO"""))
r('add-if', (S + 'space.h', """    if (contains(agent)) return true;
    auto item = std::make_shared<SpaceItem<PointType>>();
    item->agent = agent;
    Py_INCREF(agent);
    item->pt = nullptr;
    agent_map[agent->aid] = item;
    // TODO use simphony style adder to set location / or not
    return true;""", """    if (!contains(agent)) {
        auto item = std::make_shared<SpaceItem<PointType>>();
        item->agent = agent;
        item->pt = nullptr;
        agent_map[agent->aid] = item;
        Py_INCREF(agent);
    }
    return true;"""))
r('getagent-ternary', (S + 'spacemodule.cpp', """    R4Py_Agent* ret =  ((R4Py_Grid*)self)->grid->getAgentAt((R4Py_DiscretePoint*)pt);
    if (ret) {
        // Is this necessary??
        Py_INCREF(ret);
        return (PyObject*)ret;
    } else {
        Py_INCREF(Py_None);
        return Py_None;
    }""", """    R4Py_Agent* ret =  ((R4Py_Grid*)self)->grid->getAgentAt((R4Py_DiscretePoint*)pt);
    return Py_NewRef(ret ? (PyObject*)ret : Py_None);"""))
r('getloc-helper', (S + 'spacemodule.cpp', """static PyObject* Grid_getLocation(PyObject* self, PyObject* args) {""", """static PyObject* new_ref_or_none(PyObject* obj) {
    if (obj == nullptr) {
        Py_RETURN_NONE;
    }
    Py_INCREF(obj);
    return obj;
}

static PyObject* Grid_getLocation(PyObject* self, PyObject* args) {"""), (S + 'spacemodule.cpp', """    R4Py_DiscretePoint* pt = ((R4Py_Grid*)self)->grid->getLocation((R4Py_Agent*)agent);
    if (pt) {
        Py_INCREF(pt);
        return (PyObject*)pt;
    } else {
        Py_INCREF(Py_None);
        return Py_None;
    }""", """    return new_ref_or_none((PyObject*)((R4Py_Grid*)self)->grid->getLocation((R4Py_Agent*)agent));"""))
r('grid-move-extract', (S + 'grid.h', """    R4Py_DiscretePoint* move(R4Py_Agent* agent, R4Py_DiscretePoint* to) override;
""", """    R4Py_DiscretePoint* move(R4Py_Agent* agent, R4Py_DiscretePoint* to) override;
    void relocate(R4Py_Agent* agent, R4Py_DiscretePoint* current, const Point<R4Py_DiscretePoint>& to) {
        Point<R4Py_DiscretePoint> ppt;
        extract_coords(current, ppt);
        accessor.remove(agent, location_map, ppt);
        update_point(current, to);
    }
"""), (S + 'grid.h', """                    // if successful put, and agent is already located 
                    // so need to remove
                    Point<R4Py_DiscretePoint> ppt;
                    extract_coords(iter->second->pt, ppt);
                    accessor.remove(agent, location_map, ppt);
                    update_point(iter->second->pt, wpt);
""", """                    relocate(agent, iter->second->pt, wpt);
"""))
r('nghbuf-ref', (S + 'distributed_space.cpp', """        for (auto& ngh : nghs) {
            int idx = ngh_offsets_idx[ngh.rank];
            ngh_offsets_idx[ngh.rank] += 2;
            auto& ngh_offsets = fixed_offsets[ngh.rank];
            offsets[0] = ngh_offsets[idx];
            offsets[1] = ngh_offsets[idx + 1];""", """        for (size_t i = 0; i < nghs.size(); ++i) {
            CTNeighbor& ngh = nghs[i];
            int& next = ngh_offsets_idx[ngh.rank];
            int idx = next;
            next += 2;
            auto& ngh_offsets = fixed_offsets[ngh.rank];
            offsets[0] = ngh_offsets[idx];
            offsets[1] = ngh_offsets[idx + 1];"""))
r('nghbuf-count', (S + 'distributed_space.cpp', """            if (coord_offset_counts.find(ngh.rank) == coord_offset_counts.end()) {
                int ox = ngh.cart_coord_x - cart_coords[0];
                int oy = ngh.cart_coord_y - cart_coords[1];
                // if (is_0) std::cout << "ngh offsets for " << ngh.rank << ": " << ox << ", " << oy << std::endl;
                coord_offset_counts.emplace(ngh.rank, std::vector<int>{1, ox, oy});
            } else {
                coord_offset_counts[ngh.rank][0] += 1;""", """            auto found = coord_offset_counts.find(ngh.rank);
            if (found == coord_offset_counts.end()) {
                int ox = ngh.cart_coord_x - cart_coords[0];
                int oy = ngh.cart_coord_y - cart_coords[1];
                coord_offset_counts[ngh.rank] = std::vector<int>{1, ox, oy};
            } else {
                found->second[0] += 1;"""))
r('nghbuf-dims', (S + 'distributed_space.cpp', """    } else if (num_dims == 3) {
        bool x2 = procs_per_dim[0] == 2;""", """    }
    if (num_dims == 3) {
        bool x2 = procs_per_dim[0] == 2;"""))
r('tree-const', (S + 'SpatialTree.h', """    items.addToNode(parent, std::numeric_limits<int>::max());
    items.clear();
    return parent;""", """    const int no_threshold = std::numeric_limits<int>::max();
    items.addToNode(parent, no_threshold);
    items.clear();
    return parent;"""))
r('soitems-ret', (S + 'SpatialTree.h', """    return points.clear();""", """    points.clear();"""))
r('agent-eq', (S + 'core.h', *[("""X""", """X""")][0]) if False else (S + 'coremodule.cpp', """    static char* kwlist[] = {(char*)"id", (char*)"type", (char*)"rank", NULL};""", """    static char* kwlist[] = {(char*)"id", (char*)"type", (char*)"rank", nullptr};"""))

PUT = """    auto iter = location_map.find(pt);
    if (iter == location_map.end()) {
        location_map.emplace(pt, agent);
        Py_INCREF(agent);
        return true;
    }
    return false;
"""
r('emp-second', (S + 'occupancy.h', PUT, """    auto result = location_map.emplace(pt, agent);
    if (result.second) Py_INCREF(agent);
    return result.second;
"""))
r('emp-binding', (S + 'occupancy.h', PUT, """    auto [where, inserted] = location_map.emplace(pt, agent);
    if (inserted) {
        Py_INCREF(agent);
    }
    return inserted;
"""))
r('emp-inline', (S + 'occupancy.h', PUT, """    if (!location_map.insert(std::make_pair(pt, agent)).second) {
        return false;
    }
    Py_INCREF(agent);
    return true;
"""))
r('emp-count', (S + 'occupancy.h', PUT, """    if (location_map.count(pt) > 0) {
        return false;
    }
    Py_INCREF(agent);
    location_map[pt] = agent;
    return true;
"""))

r('lam-find', (S + 'occupancy.h', """    auto agent_iter = std::find(iter->second->begin(), iter->second->end(), agent);
""", """    auto agent_iter = std::find_if(iter->second->begin(), iter->second->end(), [agent](R4Py_Agent* other) { return other == agent; });
"""))
r('lam-clear', (S + 'SpatialTree.h', """    for (auto& pt: points) {
        Py_DECREF(pt);
    }
    return points.clear();""", """    std::for_each(points.begin(), points.end(), [](PointType* pt) { Py_DECREF(pt); });
    return points.clear();"""))
r('lam-child', (S + 'SpatialTree.h', """        for (auto& child : children) {
            child->getObjectsWithin(box, loc_map, agents);
        }
""", """        auto query = [&](std::shared_ptr<STNode<BoxType, PointType, AccessorType>>& node) {
            node->getObjectsWithin(box, loc_map, agents);
        };
        for (auto& child : children) {
            query(child);
        }
"""))
r('lam-within', (S + 'cspace.h', """            if (kv.second->pt && bounds.contains(kv.second->pt)) {
                agents->push_back(kv.second->agent);
            }
""", """            auto inside = [&bounds](PointType* pt) -> bool { return pt && bounds.contains(pt); };
            if (inside(kv.second->pt)) {
                agents->push_back(kv.second->agent);
            }
"""))
r('lam-release', (S + 'distributed_space.h', """    for (auto& kv: (*out_of_bounds_agents)) {
        // Note: key wasn't inc'reffed
        Py_DECREF(PyTuple_GET_ITEM(kv.second, 0));
        Py_DECREF(PyTuple_GET_ITEM(kv.second, 2));
        Py_DECREF(kv.second);
    }
""", """    auto release = [](PyObject* entry) {
        Py_DECREF(PyTuple_GET_ITEM(entry, 0));
        Py_DECREF(PyTuple_GET_ITEM(entry, 2));
        Py_DECREF(entry);
    };
    for (auto& kv: (*out_of_bounds_agents)) {
        release(kv.second);
    }
"""))
r('lam-strip', (S + 'distributed_space.cpp', """    if (offsets[1] == -1 || offsets[1] > 1) {
        ymin = local_bounds.ymin_;""", """    auto before = [](int o) { return o == -1 || o > 1; };
    if (before(offsets[1])) {
        ymin = local_bounds.ymin_;"""))

r('tree-index3', (S + 'SpatialTree.h', '    size_t index = 0;\n    using coord_type = typename TypeSelector<PointType>::type;\n    coord_type* data = (coord_type*) PyArray_DATA(pt->coords);\n\n    if (data[0] >= CompositeNode<BoxType, PointType, AccessorType>::x_plane) {\n        index = 4;\n    }\n\n    if (data[1] >= CompositeNode<BoxType, PointType, AccessorType>::y_plane) {\n        index += 2;\n    }\n\n    if (data[2] >= CompositeNode<BoxType, PointType, AccessorType>::z_plane) {\n        index += 1;\n    }\n    return index;\n', '    using coord_type = typename TypeSelector<PointType>::type;\n    coord_type* data = (coord_type*) PyArray_DATA(pt->coords);\n    bool right = data[0] >= this->x_plane;\n    bool top = data[1] >= this->y_plane;\n    bool far = data[2] >= this->z_plane;\n    return (right ? 4 : 0) + (top ? 2 : 0) + (far ? 1 : 0);\n'))
r('tree-index3-loop', (S + 'SpatialTree.h', '    size_t index = 0;\n    using coord_type = typename TypeSelector<PointType>::type;\n    coord_type* data = (coord_type*) PyArray_DATA(pt->coords);\n\n    if (data[0] >= CompositeNode<BoxType, PointType, AccessorType>::x_plane) {\n        index = 4;\n    }\n\n    if (data[1] >= CompositeNode<BoxType, PointType, AccessorType>::y_plane) {\n        index += 2;\n    }\n\n    if (data[2] >= CompositeNode<BoxType, PointType, AccessorType>::z_plane) {\n        index += 1;\n    }\n    return index;\n', '    using coord_type = typename TypeSelector<PointType>::type;\n    coord_type* data = (coord_type*) PyArray_DATA(pt->coords);\n    const double planes[3] = {this->x_plane, this->y_plane, this->z_plane};\n    size_t index = 0;\n    for (int i = 0; i < 3; ++i) {\n        index = 2 * index + (data[i] >= planes[i] ? 1 : 0);\n    }\n    return index;\n'))
r('tree-kids3', (S + 'SpatialTree.h', '    NodePoint pt1(min.x_, min.y_, min.z_);\n    CompositeNode<BoxType, PointType, AccessorType>::children.push_back(std::make_shared<ComponentNode<BoxType, PointType, AccessorType>>(pt1, half_x, half_y, half_z));\n    NodePoint pt2(min.x_, min.y_, min.z_ + half_z);\n    CompositeNode<BoxType, PointType, AccessorType>::children.push_back(std::make_shared<ComponentNode<BoxType, PointType, AccessorType>>(pt2, half_x, half_y, half_z));\n    NodePoint pt3(min.x_, min.y_ + half_y, min.z_);\n    CompositeNode<BoxType, PointType, AccessorType>::children.push_back(std::make_shared<ComponentNode<BoxType, PointType, AccessorType>>(pt3, half_x, half_y, half_z));\n    NodePoint pt4(min.x_, min.y_ + half_y, min.z_ + half_z);\n    CompositeNode<BoxType, PointType, AccessorType>::children.push_back(std::make_shared<ComponentNode<BoxType, PointType, AccessorType>>(pt4, half_x, half_y, half_z));\n    NodePoint pt5(min.x_ + half_x, min.y_ , min.z_);\n    CompositeNode<BoxType, PointType, AccessorType>::children.push_back(std::make_shared<ComponentNode<BoxType, PointType, AccessorType>>(pt5, half_x, half_y, half_z));\n    NodePoint pt6(min.x_ + half_x, min.y_ , min.z_ + half_z);\n    CompositeNode<BoxType, PointType, AccessorType>::children.push_back(std::make_shared<ComponentNode<BoxType, PointType, AccessorType>>(pt6, half_x, half_y, half_z));\n    NodePoint pt7(min.x_ + half_x, min.y_ + half_y, min.z_);\n    CompositeNode<BoxType, PointType, AccessorType>::children.push_back(std::make_shared<ComponentNode<BoxType, PointType, AccessorType>>(pt7, half_x, half_y, half_z));\n    NodePoint pt8(min.x_ + half_x, min.y_ + half_y, min.z_ + half_z);\n    CompositeNode<BoxType, PointType, AccessorType>::children.push_back(std::make_shared<ComponentNode<BoxType, PointType, AccessorType>>(pt8, half_x, half_y, half_z));\n', '    for (double x : {min.x_, min.x_ + half_x}) {\n        for (double y : {min.y_, min.y_ + half_y}) {\n            for (double z : {min.z_, min.z_ + half_z}) {\n                NodePoint corner(x, y, z);\n                this->children.push_back(std::make_shared<ComponentNode<BoxType, PointType, AccessorType>>(corner, half_x, half_y, half_z));\n            }\n        }\n    }\n'))
r('tree-kids3-lam', (S + 'SpatialTree.h', '    NodePoint pt1(min.x_, min.y_, min.z_);\n    CompositeNode<BoxType, PointType, AccessorType>::children.push_back(std::make_shared<ComponentNode<BoxType, PointType, AccessorType>>(pt1, half_x, half_y, half_z));\n    NodePoint pt2(min.x_, min.y_, min.z_ + half_z);\n    CompositeNode<BoxType, PointType, AccessorType>::children.push_back(std::make_shared<ComponentNode<BoxType, PointType, AccessorType>>(pt2, half_x, half_y, half_z));\n    NodePoint pt3(min.x_, min.y_ + half_y, min.z_);\n    CompositeNode<BoxType, PointType, AccessorType>::children.push_back(std::make_shared<ComponentNode<BoxType, PointType, AccessorType>>(pt3, half_x, half_y, half_z));\n    NodePoint pt4(min.x_, min.y_ + half_y, min.z_ + half_z);\n    CompositeNode<BoxType, PointType, AccessorType>::children.push_back(std::make_shared<ComponentNode<BoxType, PointType, AccessorType>>(pt4, half_x, half_y, half_z));\n    NodePoint pt5(min.x_ + half_x, min.y_ , min.z_);\n    CompositeNode<BoxType, PointType, AccessorType>::children.push_back(std::make_shared<ComponentNode<BoxType, PointType, AccessorType>>(pt5, half_x, half_y, half_z));\n    NodePoint pt6(min.x_ + half_x, min.y_ , min.z_ + half_z);\n    CompositeNode<BoxType, PointType, AccessorType>::children.push_back(std::make_shared<ComponentNode<BoxType, PointType, AccessorType>>(pt6, half_x, half_y, half_z));\n    NodePoint pt7(min.x_ + half_x, min.y_ + half_y, min.z_);\n    CompositeNode<BoxType, PointType, AccessorType>::children.push_back(std::make_shared<ComponentNode<BoxType, PointType, AccessorType>>(pt7, half_x, half_y, half_z));\n    NodePoint pt8(min.x_ + half_x, min.y_ + half_y, min.z_ + half_z);\n    CompositeNode<BoxType, PointType, AccessorType>::children.push_back(std::make_shared<ComponentNode<BoxType, PointType, AccessorType>>(pt8, half_x, half_y, half_z));\n', '    auto child = [&](double x, double y, double z) {\n        NodePoint corner(x, y, z);\n        this->children.push_back(std::make_shared<ComponentNode<BoxType, PointType, AccessorType>>(corner, half_x, half_y, half_z));\n    };\n    child(min.x_, min.y_, min.z_);\n    child(min.x_, min.y_, min.z_ + half_z);\n    child(min.x_, min.y_ + half_y, min.z_);\n    child(min.x_, min.y_ + half_y, min.z_ + half_z);\n    child(min.x_ + half_x, min.y_, min.z_);\n    child(min.x_ + half_x, min.y_, min.z_ + half_z);\n    child(min.x_ + half_x, min.y_ + half_y, min.z_);\n    child(min.x_ + half_x, min.y_ + half_y, min.z_ + half_z);\n'))
r('box-early', (S + 'geometry.cpp', '    bool y_contains = true;\n    bool z_contains = true;\n    bool x_contains = pt.x >= xmin_ && pt.x < xmax_;\n\n    if (num_dims == 2) {\n        y_contains = pt.y >= ymin_ && pt.y < ymax_;\n    } else if (num_dims == 3) {\n        y_contains = pt.y >= ymin_ && pt.y < ymax_;\n        z_contains = pt.z >= zmin_ && pt.z < zmax_;\n    }\n\n    return x_contains && y_contains && z_contains;\n', '    if (pt.x < xmin_ || pt.x >= xmax_) return false;\n    if (num_dims >= 2 && (pt.y < ymin_ || pt.y >= ymax_)) return false;\n    if (num_dims == 3 && (pt.z < zmin_ || pt.z >= zmax_)) return false;\n    return true;\n'))
r('box-in', (S + 'geometry.cpp', '    bool y_contains = true;\n    bool z_contains = true;\n    bool x_contains = pt.x >= xmin_ && pt.x < xmax_;\n\n    if (num_dims == 2) {\n        y_contains = pt.y >= ymin_ && pt.y < ymax_;\n    } else if (num_dims == 3) {\n        y_contains = pt.y >= ymin_ && pt.y < ymax_;\n        z_contains = pt.z >= zmin_ && pt.z < zmax_;\n    }\n\n    return x_contains && y_contains && z_contains;\n', '    auto in = [](double v, double lo, double hi) { return lo <= v && v < hi; };\n    return in(pt.x, xmin_, xmax_) && (num_dims < 2 || in(pt.y, ymin_, ymax_)) && (num_dims != 3 || in(pt.z, zmin_, zmax_));\n'))
r('box-dims', (S + 'geometry.cpp', '    num_dims = 1;\n    if (y_extent_ > 0) num_dims = 2;\n    if (z_extent_ > 0) num_dims = 3;\n}', '    num_dims = z_extent_ > 0 ? 3 : (y_extent_ > 0 ? 2 : 1);\n}'))
r('box-dims2', (S + 'geometry.cpp', '    num_dims = 1;\n    if (y_extent_ > 0) num_dims = 2;\n    if (z_extent_ > 0) num_dims = 3;\n}', '    if (z_extent > 0) {\n        num_dims = 3;\n    } else if (y_extent > 0) {\n        num_dims = 2;\n    } else {\n        num_dims = 1;\n    }\n}'))
r('upd-ptr', (S + 'geometry.cpp', '    double* data = (double*)PyArray_DATA(pt->coords);\n    data[0] = coords.x;\n    data[1] = coords.y;\n    data[2] = coords.z;\n', '    double* data = static_cast<double*>(PyArray_DATA(pt->coords));\n    *data = coords.x;\n    *(data + 1) = coords.y;\n    *(data + 2) = coords.z;\n'))
r('bufbounds-dims', (S + 'distributed_space.cpp', '    if (num_dims == 2) {\n        ymin = local_bounds.ymin_; \n        ymax = local_bounds.ymax_;\n    }\n    long_t zmin = 0, zmax = 0;\n    if (num_dims == 3) {\n        ymin = local_bounds.ymin_; \n        ymax = local_bounds.ymax_;\n\n        zmin', '    if (num_dims >= 2) {\n        ymin = local_bounds.ymin_; \n        ymax = local_bounds.ymax_;\n    }\n    long_t zmin = 0, zmax = 0;\n    if (num_dims > 2) {\n        zmin'))


RUN = '''
import cppcheck
lc, box = cppcheck.load_code, []
def cached(rep):
    if not box: box.append(lc(rep))
    return box[0]
cppcheck.load_code = cached
seen = set()
for P in sys.argv[1:]:
    rep = {}
    found, n = cppcheck.run(P, 'quick', rep)
    for x in [P + ' VIOLATION ' + f[0][:700] for f in found] + [P + ' UNDECIDED ' + str(u)[:300] for u in rep['undecided']]:
        if x[4:] not in seen:
            seen.add(x[4:]); print(x)
'''


def main(names):
    sys.path.insert(0, os.path.join(V, 'sa'))
    base = '/tmp/rc'
    if not os.path.isdir(base):
        os.makedirs(base)
        shutil.copytree('/repo/src', base + '/src')
    tmp = tempfile.mkdtemp(prefix='refac')
    bad = 0
    for name, edits in R:
        if names and name not in names:
            continue
        d = os.path.join(tmp, name)
        shutil.copytree(base, d, symlinks=True, ignore=shutil.ignore_patterns('.git', 'build', 'tests'))
        ok = True
        for f, old, new in edits:
            s = open(os.path.join(d, f)).read()
            if old not in s:
                print(name, 'EDIT DOES NOT APPLY', f, old.strip().split('\n')[0]); ok = False
                continue
            open(os.path.join(d, f), 'w').write(s.replace(old, new, 1))
        if ok:
            code = 'import sys; sys.path.insert(0, %r)\n' % os.path.join(V, 'sa') + RUN
            env = dict(os.environ, R4PY_REPO=d, R4PY_NOEV='1')
            p = subprocess.run([sys.executable, '-c', code] + 'P13 P14 P15 P16 P17 P18 P28 P29 P31'.split(), env=env,
                               capture_output=True, text=True)
            res = (p.stdout + p.stderr[-400:]).strip()
            print(name, 'ok' if not res else '\n  ' + res.replace('\n', '\n  '), flush=True)
        shutil.rmtree(d)
    shutil.rmtree(tmp)


main(sys.argv[1:])
