import datetime as _dt
import numpy as np
import netCDF4


class Time(object):
    _const_time = None

    def __init__(self, data=None, filename=None, varname=None, tz_offset=None,
                 tz_offset_name='', origin=None, displacement=None, **kwargs):
        super().__init__(**kwargs) if kwargs else super().__init__()
        self._data = None
        if data is None:
            data = [_dt.datetime(1970, 1, 1)]
        if isinstance(data, Time):
            data = data.data
        data = list(data)
        if displacement is not None:
            data = [t + displacement for t in data]
        if origin is not None:
            d = origin - data[0]
            data = [t + d for t in data]
        self.data = data
        self.filename = filename
        self.varname = varname
        self.tz_offset = tz_offset
        self.tz_offset_name = tz_offset_name

    @classmethod
    def constant_time(cls):
        if cls.__dict__.get('_const_time') is None:
            cls._const_time = cls(data=[_dt.datetime(1970, 1, 1)])
        return cls._const_time

    @classmethod
    def from_netCDF(cls, filename=None, dataset=None, varname=None, datavar=None,
                    tz_offset=None, tz_offset_name='', **kwargs):
        from .utilities import get_dataset
        if dataset is None:
            dataset = get_dataset(filename)
        if datavar is not None:
            if getattr(datavar, 'time', None) and datavar.time in dataset.variables:
                varname = datavar.time
            else:
                varname = datavar.dimensions[0] if 'time' in datavar.dimensions[0] else None
        if varname is None or varname not in dataset.variables:
            return cls.constant_time()
        tv = dataset.variables[varname]
        data = netCDF4.num2date(tv[:], tv.units, only_use_cftime_datetimes=False,
                                only_use_python_datetimes=True)
        data = [_dt.datetime(t.year, t.month, t.day, t.hour, t.minute, t.second) for t in data]
        return cls(data=data, filename=filename, varname=varname,
                   tz_offset=tz_offset, tz_offset_name=tz_offset_name)

    @property
    def data(self):
        return self._data

    @data.setter
    def data(self, data):
        data = np.array([t for t in data], dtype=object)
        for a, b in zip(data[:-1], data[1:]):
            if not a < b:
                raise ValueError("time sequence must be strictly increasing")
        self._data = data

    def __len__(self):
        return len(self._data)

    def __iter__(self):
        return iter(self._data)

    def __getitem__(self, i):
        return self._data[i]

    def __eq__(self, other):
        return (isinstance(other, Time) and len(self) == len(other)
                and bool(np.all(self._data == other._data)))

    __hash__ = object.__hash__

    @property
    def min_time(self):
        return self._data[0]

    @property
    def max_time(self):
        return self._data[-1]

    def get_time_array(self):
        return self._data.copy()

    def time_in_bounds(self, t):
        return not (t < self.min_time or t > self.max_time)

    def valid_time(self, t):
        if not self.time_in_bounds(t):
            raise ValueError('time specified ({0}) is not within the bounds of '
                             'the time ({1} to {2})'.format(t, self.min_time, self.max_time))

    def index_of(self, t, extrapolate=False):
        if not (extrapolate or len(self) == 1):
            self.valid_time(t)
        return int(np.searchsorted(self._data, t))

    def interp_alpha(self, t, extrapolate=False):
        if len(self) == 1:
            return 0.0
        if not extrapolate:
            self.valid_time(t)
        i = self.index_of(t, extrapolate)
        if i > len(self) - 1 or i == 0:
            return 0.0
        t0, t1 = self._data[i - 1], self._data[i]
        return (t - t0).total_seconds() / (t1 - t0).total_seconds()
