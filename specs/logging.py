import numpy as np
from mpi4py import MPI
import os
from typing import List, Dict
import csv
try:
    from typing import Protocol
except ImportError:
    from typing_extensions import Protocol
from dataclasses import dataclass, fields
from .util import find_free_filename

class DataSource(Protocol):

    @property
    def name(self):
        pass

    @property
    def value(self):
        pass

    @property
    def dtype(self):
        pass

class ReducingDataLogger:
    _ARRAY_SIZE = 500

    def __init__(self, data_source, op, rank):
        self._data = np.zeros(ReducingDataLogger._ARRAY_SIZE, dtype=data_source.dtype)
        self._data_source = data_source
        self._op = op
        self._rank = rank
        self._idx = 0

    @property
    def name(self):
        return self._data_source.name

    @property
    def size(self):
        return self._idx

    @property
    def dtype(self):
        return self._data_source.dtype

    def log(self):
        if self._idx == self._data.shape[0]:
            self._data = np.concatenate((self._data, np.zeros(ReducingDataLogger._ARRAY_SIZE, dtype=self._data_source.dtype)))
        self._data[self._idx] = self._data_source.value
        self._idx += 1

    def reduce(self, comm):
        recv_buf = None
        if self._rank == 0:
            recv_buf = np.empty(self._idx, dtype=self._data_source.dtype)
        comm.Reduce(self._data[:self._idx], recv_buf, self._op, 0)
        self._idx = 0
        return recv_buf

class DCDataSource:

    def __init__(self, data_class, field_name, ds_name=None):
        self.data_class = data_class
        self.field_name = field_name
        if ds_name is None:
            self.ds_name = self.field_name
        else:
            self.ds_name = ds_name
        self._dtype = None
        for f in fields(self.data_class):
            if f.name == field_name:
                self._dtype = np.dtype(f.type)
                break
        if self._dtype is None:
            raise ValueError('Field "{}" not found in dataclass {}'.format(field_name, data_class))

    def __init____or1(self, data_class, field_name, ds_name=None):
        self.data_class = data_class
        self.field_name = field_name
        self.ds_name = self.field_name if ds_name is None else ds_name
        found = [f for f in fields(self.data_class) if f.name == field_name]
        if not found:
            raise ValueError('Field "{}" not found in dataclass {}'.format(field_name, data_class))
        self._dtype = np.dtype(found[0].type)

    def __init____or2(self, data_class, field_name, ds_name=None):
        self.data_class = data_class
        self.field_name = field_name
        self.ds_name = self.field_name if ds_name is None else ds_name
        found = next((f for f in fields(self.data_class) if f.name == field_name), None)
        if found is None:
            raise ValueError('Field "{}" not found in dataclass {}'.format(field_name, data_class))
        self._dtype = np.dtype(found.type)

    @property
    def name(self):
        return self.ds_name

    @property
    def value(self):
        return getattr(self.data_class, self.field_name)

    @property
    def dtype(self):
        return self._dtype

def create_loggers(data_class, op, rank, names=None):
    loggers = []
    if names is None:
        for f in fields(data_class):
            source = DCDataSource(data_class, f.name)
            loggers.append(ReducingDataLogger(source, op, rank))
    else:
        for f in fields(data_class):
            if f.name in names:
                ds_name = f.name if names[f.name] is None else names[f.name]
                source = DCDataSource(data_class, f.name, ds_name)
                loggers.append(ReducingDataLogger(source, op, rank))
        if len(loggers) == 0:
            raise ValueError('Unable to create any loggers: names dictionary keys do not match any dataclass fields.')
    return loggers

def create_loggers__or1(data_class, op, rank, names=None):
    loggers = []
    if names is None:
        for f in fields(data_class):
            source = DCDataSource(data_class, f.name)
            loggers.append(ReducingDataLogger(source, op, rank))
    else:
        for f in fields(data_class):
            if f.name in names:
                source = DCDataSource(data_class, f.name, names[f.name])
                loggers.append(ReducingDataLogger(source, op, rank))
        if len(loggers) == 0:
            raise ValueError('Unable to create any loggers: names dictionary keys do not match any dataclass fields.')
    return loggers

class ReducingDataSet:

    def __init__(self, data_loggers, comm, fpath, delimiter=',', buffer_size=1000):
        self._data_loggers = data_loggers
        self._delimiter = delimiter
        self._comm = comm
        self._rank = comm.Get_rank()
        self._buffer_size = buffer_size
        self.fpath = find_free_filename(fpath)
        if self._rank == 0:
            parent = os.path.dirname(fpath)
            if parent and (not os.path.exists(parent)):
                os.makedirs(parent)
            self.ticks = []
            with open(self.fpath, 'w', newline='') as f_out:
                f_out.write('tick')
                for dl in data_loggers:
                    f_out.write(self._delimiter)
                    f_out.write(dl.name)
                f_out.write('\n')

    def close(self):
        self.write()

    def log(self, tick):
        if self._rank == 0:
            self.ticks.append(tick)
        for logger in self._data_loggers:
            logger.log()
        if self._data_loggers[0].size >= self._buffer_size:
            self.write()

    def write(self):
        val_arrays = [x.reduce(self._comm) for x in self._data_loggers]
        if self._rank == 0:
            nrows = len(self.ticks)
            val_arrays = [self.ticks] + val_arrays
            with open(self.fpath, 'a', newline='') as f_out:
                for i in range(nrows):
                    first = True
                    for vals in val_arrays:
                        if first:
                            f_out.write(str(vals[i]))
                            first = False
                        else:
                            f_out.write(self._delimiter)
                            f_out.write(str(vals[i]))
                    f_out.write('\n')
            self.ticks.clear()

class TabularLogger:

    def __init__(self, comm, fpath, headers, delimiter=','):
        self._delimiter = delimiter
        self._comm = comm
        self._rank = comm.Get_rank()
        self._rows = []
        if self._rank == 0:
            self._fpath = find_free_filename(fpath)
            parent = os.path.dirname(self._fpath)
            if parent and (not os.path.exists(parent)):
                os.makedirs(parent)
            with open(self._fpath, 'w', newline='') as fout:
                writer = csv.writer(fout, delimiter=self._delimiter)
                writer.writerow(headers)

    def log_row(self, *args):
        self._rows.append(args)

    def write(self):
        all_items = self._comm.gather(self._rows, root=0)
        if self._rank == 0:
            with open(self._fpath, 'a', newline='') as fout:
                writer = csv.writer(fout, delimiter=self._delimiter)
                for items in all_items:
                    writer.writerows(items)
        self._rows.clear()

    def close(self):
        self.write()
