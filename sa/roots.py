"""Which functions are contracts, and which properties each of them carries.

key: module -> list of (Class.method or function, properties).  Everything else (private helpers) is
analysed in place, inside the contracts that use it, so that it can be split, merged and renamed freely.
"""

S = 'P02 P03 P04'
ROOTS = {
    'schedule': [
        ('ScheduledEvent.__init__', 'P03 P04 P26'),
        ('ScheduledEvent.__call__', 'P03 P04'),
        ('RepeatingEvent.__init__', 'P03 P04 P26'),
        ('RepeatingEvent.reschedule', 'P02 P03 P04'),
        ('RepeatingEvent.void', 'P04 P26'),
        ('OneTimeEvent.__init__', 'P03 P04 P26'),
        ('OneTimeEvent.reschedule', 'P04'),
        ('OneTimeEvent.void', 'P04 P26'),
        ('ScheduleGroup.__init__', 'P02 P03'),
        ('ScheduleGroup.reset', 'P02 P03 P04'),
        ('ScheduleGroup.size', 'P02 P03 P04'),
        ('ScheduleGroup.add_evt', 'P02 P03 P04'),
        ('ScheduleGroup.sort', 'P03'),
        ('ScheduleGroup.execute_evts', 'P02 P03 P04'),
        ('ScheduleGroup.execute', 'P02 P03 P04'),
        ('Schedule.__init__', 'P02 P03 P26'),
        ('Schedule.schedule_event', 'P02 P03 P04 P26'),
        ('Schedule.schedule_repeating_event', 'P02 P03 P04 P26'),
        ('Schedule.next_tick', 'P02'),
        ('Schedule.execute', 'P02 P03 P04'),
        ('create_arg_evt', 'P04'),
        ('SharedScheduleRunner.__init__', 'P02 P04'),
        ('SharedScheduleRunner.schedule_event', 'P02 P03 P04'),
        ('SharedScheduleRunner.schedule_repeating_event', 'P02 P03 P04'),
        ('SharedScheduleRunner.schedule_end_event', 'P04 P26'),
        ('SharedScheduleRunner.schedule_stop', 'P02 P04 P26'),
        ('SharedScheduleRunner.stop', 'P04'),
        ('SharedScheduleRunner.tick', 'P02'),
        ('SharedScheduleRunner.execute', 'P01 P02 P04'),
        ('init_schedule_runner', 'P02 P26'),
        ('runner', 'P02 P26'),
    ],
    'core': [
        ('AgentManager.__init__', 'P05 P06 P07 P08 P09'),
        ('AgentManager.is_requested', 'P08 P09'),
        ('AgentManager.add_req_ghost', 'P08 P09'),
        ('AgentManager.delete_local', 'P05 P07 P08'),
        ('AgentManager.remove_local', 'P05 P06'),
        ('AgentManager.add_local', 'P05 P06 P28'),
        ('AgentManager.get_local', 'P05 P30'),
        ('AgentManager.is_ghosted_to', 'P07 P08 P10'),
        ('AgentManager.tag_as_ghosted', 'P07 P08 P09'),
        ('AgentManager.set_as_ghosted', 'P06 P07 P08'),
        ('AgentManager.delete_ghosted', 'P06 P07 P08'),
        ('AgentManager.untag_as_ghosted', 'P07 P08'),
        ('AgentManager.remove_ghost', 'P07 P08 P09'),
        ('AgentManager.delete_ghost', 'P06 P07 P08'),
        ('AgentManager.add_ghost', 'P07 P08 P28'),
        ('AgentManager.add_ghosts_to_projection', 'P05 P08'),
        ('AgentManager.get_ghost', 'P08 P30'),
    ],
    'context': [
        ('SharedContext.__init__', 'P05 P07'),
        ('SharedContext.add', 'P05 P06 P30'),
        ('SharedContext.add_value_layer', 'P07 P20'),
        ('SharedContext.add_projection', 'P05 P08'),
        ('SharedContext.get_projection', 'P05'),
        ('SharedContext.remove', 'P05 P07 P30'),
        ('SharedContext.synchronize', 'P01 P05 P06 P07 P08 P10 P11 P17 P20 P21'),
        ('SharedContext.contains_type', 'P30 P05'),
        ('SharedContext.agents', 'P30 P24'),
        ('SharedContext.agent', 'P30 P05'),
        ('SharedContext.ghost_agent', 'P30 P08'),
        ('SharedContext.size', 'P30'),
        ('SharedContext.request_agents', 'P01 P08 P09'),
        ('SharedContext.move_agents', 'P01 P05 P06 P07 P08 P11 P17'),
    ],
    'network': [
        ('*SharedNetwork.__init__', 'P10 P32'),
        ('*SharedNetwork.__iter__', 'P32'),
        ('*SharedNetwork.__contains__', 'P32'),
        ('*SharedNetwork.node_count', 'P32'),
        ('*SharedNetwork.edge_count', 'P32'),
        ('*SharedNetwork.is_directed', 'P32 P12 P27'),
        ('*SharedNetwork.num_edges', 'P32 P11'),
        ('*SharedNetwork.add', 'P32 P05'),
        ('*SharedNetwork.add_nodes', 'P32'),
        ('*SharedNetwork.remove', 'P32 P05 P10'),
        ('*SharedNetwork.update_edge', 'P32 P10'),
        ('*SharedNetwork.remove_edge', 'P32 P10 P08'),
        ('*SharedNetwork.clear_edges', 'P32 P10'),
        ('*SharedNetwork.contains_edge', 'P32'),
        ('*SharedNetwork.add_edge', 'P32 P10 P08 P12 P27'),
        ('*SharedNetwork._synch_ghosts', 'P01 P07 P08 P10'),
        ('*SharedNetwork._pre_synch_ghosts', 'P01 P07 P08 P10'),
        ('*SharedNetwork._post_agents_moved_rank', 'P01 P08 P10 P11'),
        ('*SharedNetwork._agent_moving_rank', 'P06 P08 P11'),
        ('*SharedNetwork._agents_moved_rank', 'P01 P06 P07 P08 P11'),
        ('read_network', 'P01 P12'),
        ('write_network', 'P12 P24'),
    ],
    'space': [
        ('SharedGrid.__init__', 'P07 P16 P31'),
        ('SharedGrid.__contains__', 'P13 P05'),
        ('SharedGrid.get_random_local_pt', 'P24 P15'),
        ('SharedGrid._pre_synch_ghosts', 'P01 P07 P08 P13'),
        ('SharedGrid._synch_ghosts', 'P01 P07 P08 P16'),
        ('SharedGrid._agent_moving_rank', 'P05 P06 P13'),
        ('SharedGrid._agents_moved_rank', 'P06'),
        ('SharedGrid._post_agents_moved_rank', 'P06'),
        ('SharedCSpace.__init__', 'P07 P16'),
        ('SharedCSpace.__contains__', 'P13 P05'),
        ('SharedCSpace.get_random_local_pt', 'P24 P15'),
        ('SharedCSpace._pre_synch_ghosts', 'P01 P07 P08 P13'),
        ('SharedCSpace._synch_ghosts', 'P01 P07 P08 P16 P18'),
        ('SharedCSpace._agent_moving_rank', 'P05 P06 P13'),
        ('SharedCSpace._agents_moved_rank', 'P06'),
        ('SharedCSpace._post_agents_moved_rank', 'P06'),
    ],
    'value_layer': [
        ('ValueLayer.__init__', 'P19 P24'),
        ('ValueLayer.grid', 'P19'),
        ('ValueLayer.bounds', 'P19'),
        ('ValueLayer.get', 'P19 P21'),
        ('ValueLayer.set', 'P19 P21'),
        ('ValueLayer.get_nghs', 'P19 P21'),
        ('_Impl1D.__init__', 'P19 P20 P24'),
        ('_Impl1D.get', 'P19'),
        ('_Impl1D.set', 'P19'),
        ('_Impl1D.get_nghs', 'P19'),
        ('_Impl2D.__init__', 'P19 P20 P24'),
        ('_Impl2D.get', 'P19'),
        ('_Impl2D.set', 'P19'),
        ('_Impl2D.get_nghs', 'P19'),
        ('_Impl3D.__init__', 'P19 P24'),
        ('_Impl3D.get', 'P19'),
        ('_Impl3D.set', 'P19'),
        ('_Impl3D.get_nghs', 'P19'),
        ('SharedValueLayer.__init__', 'P01 P19 P20'),
        ('?SharedValueLayer._init_value', 'P20'),
        ('?SharedValueLayer._init_buffered_bounds', 'P19 P20'),
        ('?SharedValueLayer._init_sync_data_1d', 'P01 P20'),
        ('?SharedValueLayer._init_sync_data_2d', 'P01 P20'),
        ('?SharedValueLayer._init_sync_data_3d', ''),
        ('?SharedValueLayer._buffer_self', 'P20'),
        ('?SharedValueLayer._buffer_self_X', 'P20'),
        ('?SharedValueLayer._buffer_self_Y', 'P20'),
        ('?_compute_meta_data_counts', 'P20'),
        ('SharedValueLayer._synch_ghosts', 'P01 P20 P21'),
        ('ReadWriteValueLayer.__init__', 'P01 P21'),
        ('ReadWriteValueLayer.swap_layers', 'P21'),
        ('ReadWriteValueLayer.read_grid', 'P21'),
        ('ReadWriteValueLayer.write_grid', 'P21'),
        ('ReadWriteValueLayer.bounds', 'P21'),
        ('ReadWriteValueLayer.get', 'P21'),
        ('ReadWriteValueLayer.set', 'P21'),
        ('ReadWriteValueLayer.get_nghs', 'P21'),
        ('ReadWriteValueLayer._pre_synch_ghosts', 'P21'),
        ('ReadWriteValueLayer._synch_ghosts', 'P01 P21 P20'),
    ],
    'logging': [
        ('ReducingDataLogger.__init__', 'P23'),
        ('ReducingDataLogger.name', 'P23'),
        ('ReducingDataLogger.size', 'P23'),
        ('ReducingDataLogger.dtype', 'P23'),
        ('ReducingDataLogger.log', 'P23'),
        ('ReducingDataLogger.reduce', 'P01 P23'),
        ('DCDataSource.__init__', 'P23'),
        ('DCDataSource.name', 'P23'),
        ('DCDataSource.value', 'P23'),
        ('DCDataSource.dtype', 'P23'),
        ('create_loggers', 'P23'),
        ('ReducingDataSet.__init__', 'P23 P22'),
        ('ReducingDataSet.close', 'P23 P01'),
        ('ReducingDataSet.log', 'P23 P01'),
        ('ReducingDataSet.write', 'P23 P01'),
        ('TabularLogger.__init__', 'P22'),
        ('TabularLogger.log_row', 'P22'),
        ('TabularLogger.write', 'P22 P01'),
        ('TabularLogger.close', 'P22 P01'),
    ],
    'parameters': [
        ('create_args_parser', 'P25'),
        ('init_params', 'P25 P24'),
    ],
    'random': [
        ('init', 'P24 P25'),
    ],
    'util': [
        ('is_empty', 'P06 P01'),
        ('find_free_filename', 'P22 P23 P25'),
    ],
    'geometry': [
        ('get_num_dims', 'P31 P15'),
        ('find_1d_nghs_sticky', 'P31 P19'),
        ('find_2d_nghs_sticky', 'P31 P19'),
        ('find_3d_nghs_sticky', 'P31 P19'),
        ('find_1d_nghs_periodic', 'P31 P19'),
        ('find_2d_nghs_periodic', 'P31 P19'),
        ('find_3d_nghs_periodic', 'P31 P19'),
    ],
    'checkpoint': [
        ('Checkpoint.__init__', 'P26'),
        ('Checkpoint.save_random', 'P26'),
        ('Checkpoint.restore_random', 'P26'),
        ('Checkpoint.save_agents', 'P26'),
        ('Checkpoint.restore_agents', 'P26'),
        ('Checkpoint.save_schedule', 'P26'),
        ('Checkpoint.restore_schedule', 'P26'),
        ('Checkpoint.save', 'P26'),
        ('Checkpoint.restore', 'P26'),
        ('Checkpoint.save_space', 'P27'),
        ('Checkpoint.restore_space', 'P27'),
        ('Checkpoint.save_network', 'P27'),
        ('Checkpoint.restore_network', 'P27'),
    ],
}

# module-level definitions the contracts refer to: module -> [(name, properties)]
CONSTS = {
    'schedule': [('PriorityType', 'P03 P26'), ('EvtType', 'P04 P26')],
    'space': [('BorderType', 'P14 P16 P20'), ('OccupancyType', 'P13')],
    'logging': [('ReducingDataLogger._ARRAY_SIZE', 'P23')],
    'checkpoint': [('IGNORE_EVT', 'P26'), ('DEFAULT_TAG', 'P26'), ('EvtData', 'P26')],
    'core': [('GhostAgent', 'P08'), ('GhostedAgent', 'P08')],
    'network': [('GhostedEdge', 'P10'), ('GraphData', 'P12')],
    'geometry': [('BoundingBox', 'P31 P15'), ('_xoffset_1d', 'P31'), ('_xoffset_2d', 'P31'), ('_yoffset_2d', 'P31'),
                 ('_xoffset_3d', 'P31'), ('_yoffset_3d', 'P31'), ('_zoffset_3d', 'P31')],
}
