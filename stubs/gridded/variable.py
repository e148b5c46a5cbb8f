import collections
import hashlib
import numpy as np
from . import time as _time, grids as _grids, depth as _depth
from .utilities import (get_dataset, _reorganize_spatial_data,
                        _align_results_to_spatial_data)


class _Memo(object):
    def _get_hash(self, points, time):
        return (hashlib.sha1(np.ascontiguousarray(points).tobytes()).hexdigest(), str(time),
                np.asarray(points).shape)

    def _get_memoed(self, points, time, D, _copy=False, _hash=None):
        if _hash is None:
            _hash = self._get_hash(points, time)
        if D is None or _hash not in D:
            return None
        return D[_hash].copy()

    def _memoize_result(self, points, time, result, D, _copy=False, _hash=None):
        if _hash is None:
            _hash = self._get_hash(points, time)
        if len(D) > 4:
            D.popitem(last=False)
        D[_hash] = result.copy()


class Variable(_Memo):
    default_names = []
    cf_names = []
    _default_component_types = {'time': _time.Time, 'grid': _grids.Grid, 'depth': _depth.Depth}

    def __init__(self, name=None, units=None, time=None, data=None, grid=None,
                 depth=None, data_file=None, grid_file=None, dataset=None,
                 varname=None, fill_value=0, location=None, attributes=None,
                 surface_boundary_condition='extrapolate',
                 bottom_boundary_condition='mask', **kwargs):
        super().__init__(**dict(kwargs, **({'name': name} if name is not None else {})))
        self._units = units
        T = self._default_component_types['time']
        if time is None:
            time = T.constant_time()
        elif not isinstance(time, _time.Time):
            time = T(time)
        self.time = time
        self.data = data
        self.grid = grid
        self.depth = depth
        self.data_file = data_file
        self.grid_file = grid_file
        self.varname = varname
        self.fill_value = fill_value
        self.location = location
        self.surface_boundary_condition = surface_boundary_condition
        self.bottom_boundary_condition = bottom_boundary_condition
        self._result_memo = collections.OrderedDict()

    @property
    def units(self):
        return self._units

    @units.setter
    def units(self, u):
        self._units = u

    @classmethod
    def _gen_varname(cls, filename=None, dataset=None, names_list=None, std_names_list=None):
        ds = dataset if dataset is not None else get_dataset(filename)
        for n in (names_list or cls.default_names):
            if n in ds.variables:
                return n
        for n, v in ds.variables.items():
            if getattr(v, 'standard_name', None) in (std_names_list or cls.cf_names):
                return n
        return None

    def _slab(self, i):
        d = self.data
        nd = len(d.shape)
        spatial = 1 if isinstance(self.grid, _grids.Grid_U) else 2
        if nd == spatial:
            return d[:]
        s = d[i]
        if len(s.shape) > spatial:
            s = s[getattr(self.depth, 'surface_index', 0)]
        return s

    def at(self, points, time, *, units=None, extrapolate=False, _hash=None, _mem=True,
           _auto_align=True, unmask=False, **kwargs):
        pts = _reorganize_spatial_data(points)
        fv = self.fill_value
        n = len(self.time)
        if n == 1:
            v = self.grid.interpolate(self._slab(0), pts, fv)
        else:
            if not extrapolate:
                self.time.valid_time(time)
            if time <= self.time.min_time:
                v = self.grid.interpolate(self._slab(0), pts, fv)
            elif time >= self.time.max_time:
                v = self.grid.interpolate(self._slab(n - 1), pts, fv)
            else:
                i = self.time.index_of(time, extrapolate)
                a = self.time.interp_alpha(time, extrapolate)
                v0 = self.grid.interpolate(self._slab(i - 1), pts, fv)
                v1 = self.grid.interpolate(self._slab(i), pts, fv)
                v = v0 + (v1 - v0) * a
        r = np.asarray(v, dtype=float).reshape(-1, 1)
        return _align_results_to_spatial_data(r, points) if _auto_align else r


class VectorVariable(_Memo):
    default_names = {}
    cf_names = {}
    comp_order = []
    _default_component_types = {'time': _time.Time, 'grid': _grids.Grid,
                                'depth': _depth.Depth, 'variable': Variable}

    def __init__(self, name=None, units=None, time=None, variables=None, grid=None,
                 depth=None, grid_file=None, data_file=None, dataset=None, filename=None,
                 varnames=None, grid_topology=None, load_all=False,
                 surface_boundary_condition='extrapolate',
                 bottom_boundary_condition='mask', **kwargs):
        super().__init__(**dict(kwargs, **({'name': name} if name is not None else {})))
        self.variables = variables
        self._units = units if units is not None else variables[0].units
        self.time = time if time is not None else variables[0].time
        self.grid = grid if grid is not None else variables[0].grid
        self.depth = depth
        self.grid_file = grid_file
        self.data_file = data_file
        self.filename = filename
        self._result_memo = collections.OrderedDict()

    @property
    def units(self):
        return self._units

    @units.setter
    def units(self, u):
        self._units = u
        for v in self.variables:
            v.units = u

    @property
    def varnames(self):
        return [getattr(v, 'varname', None) or v.name for v in self.variables]

    @classmethod
    def _gen_varnames(cls, filename=None, dataset=None, names_dict=None, std_names_dict=None):
        ds = dataset if dataset is not None else get_dataset(filename)
        nd = names_dict or cls.default_names
        sd = std_names_dict or cls.cf_names
        out = []
        for c in cls.comp_order:
            r = None
            for n in nd.get(c, []):
                if n in ds.variables:
                    r = n
                    break
            if r is None:
                for n, v in ds.variables.items():
                    if getattr(v, 'standard_name', None) in sd.get(c, []):
                        r = n
                        break
            out.append(r)
        return out

    def at(self, points, time, *, units=None, extrapolate=False, _hash=None, _mem=True,
           _auto_align=True, unmask=False, **kwargs):
        pts = _reorganize_spatial_data(points)
        cols = []
        for v in self.variables:
            if isinstance(v, Variable):
                c = v.at(pts, time, units=units, extrapolate=extrapolate, _auto_align=False)
            else:
                c = v.at(pts, time, units=units, extrapolate=extrapolate)
            cols.append(np.asarray(c).reshape(-1))
        r = np.column_stack(cols)
        return _align_results_to_spatial_data(r, points) if _auto_align else r
