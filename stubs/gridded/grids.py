import numpy as np
from .utilities import get_dataset


class GridBase(object):
    def __init__(self, filename=None, grid_topology=None, **kwargs):
        super().__init__(**kwargs) if kwargs else super().__init__()
        self.filename = filename
        self.grid_topology = grid_topology or {}

    def get_padding_slices(self, padding=None):
        return np.s_[:, :]


class _Rect(GridBase):
    """rectilinear node grid: axes lon (nx), lat (ny); data is (..., ny, nx)"""
    center_mask = None
    node_mask = None
    center_padding = edge1_padding = edge2_padding = None
    _cell_tree = None
    _cell_tree_mask = None
    center_lon = center_lat = None

    def _axes(self):
        raise NotImplementedError

    def infer_location(self, data):
        return 'node'

    def weights(self, pts):
        lon, lat = self._axes()
        out = []
        inside = np.ones(len(pts), dtype=bool)
        for ax, x in ((lon, pts[:, 0]), (lat, pts[:, 1])):
            i = np.clip(np.searchsorted(ax, x, side='right') - 1, 0, len(ax) - 2)
            f = (x - ax[i]) / (ax[i + 1] - ax[i])
            inside &= (x >= ax[0]) & (x <= ax[-1])
            out.append((i, f))
        return out[0], out[1], inside

    def interpolate(self, data, pts, fill=0.0):
        (i, fx), (j, fy), inside = self.weights(pts)
        d = np.ma.filled(np.ma.asarray(data, dtype=float), fill)
        v = (d[j, i] * (1 - fx) * (1 - fy) + d[j, i + 1] * fx * (1 - fy) +
             d[j + 1, i] * (1 - fx) * fy + d[j + 1, i + 1] * fx * fy)
        return np.where(inside, v, fill)


class Grid_R(_Rect):
    def __init__(self, node_lon=None, node_lat=None, filename=None,
                 grid_topology=None, **kwargs):
        super().__init__(filename=filename, grid_topology=grid_topology, **kwargs)
        self.node_lon = np.asarray(node_lon, dtype=float)
        self.node_lat = np.asarray(node_lat, dtype=float)

    @classmethod
    def from_netCDF(cls, filename=None, dataset=None, grid_topology=None, **kwargs):
        ds = dataset if dataset is not None else get_dataset(filename)
        gt = grid_topology or {'node_lon': 'lon', 'node_lat': 'lat'}
        kw = {k: v for k, v in kwargs.items() if k in ('name',)}
        return cls(node_lon=np.ma.filled(ds[gt['node_lon']][:]),
                   node_lat=np.ma.filled(ds[gt['node_lat']][:]),
                   filename=filename, grid_topology=gt, **kw)

    def _axes(self):
        return self.node_lon, self.node_lat

    @property
    def nodes(self):
        return np.stack(np.meshgrid(self.node_lon, self.node_lat), axis=-1)

    @property
    def centers(self):
        x = (self.node_lon[:-1] + self.node_lon[1:]) / 2
        y = (self.node_lat[:-1] + self.node_lat[1:]) / 2
        return np.stack(np.meshgrid(x, y), axis=-1)


class Grid_S(_Rect):
    def __init__(self, node_lon=None, node_lat=None, filename=None,
                 grid_topology=None, use_masked_boundary=False, **kwargs):
        super().__init__(filename=filename, grid_topology=grid_topology, **kwargs)
        self.node_lon = np.asarray(node_lon, dtype=float)
        self.node_lat = np.asarray(node_lat, dtype=float)
        self.use_masked_boundary = use_masked_boundary

    @classmethod
    def from_netCDF(cls, filename=None, dataset=None, grid_topology=None, **kwargs):
        ds = dataset if dataset is not None else get_dataset(filename)
        gt = grid_topology or {'node_lon': 'lon', 'node_lat': 'lat'}
        kw = {k: v for k, v in kwargs.items() if k in ('name',)}
        return cls(node_lon=np.ma.filled(ds[gt['node_lon']][:]),
                   node_lat=np.ma.filled(ds[gt['node_lat']][:]),
                   filename=filename, grid_topology=gt, **kw)

    def _axes(self):
        return self.node_lon[0, :], self.node_lat[:, 0]

    @property
    def nodes(self):
        return np.stack((self.node_lon, self.node_lat), axis=-1)


class Grid_U(GridBase):
    node_mask = None

    def __init__(self, nodes=None, faces=None, filename=None, grid_topology=None,
                 node_lon=None, node_lat=None, boundaries=None, **kwargs):
        super().__init__(filename=filename, grid_topology=grid_topology, **kwargs)
        if nodes is None:
            nodes = np.column_stack((node_lon, node_lat))
        self.nodes = np.asarray(nodes, dtype=float)
        self.faces = np.asarray(faces, dtype=int)
        self.face_coordinates = None
        self.boundaries = boundaries
        self.edges = None

    @classmethod
    def from_netCDF(cls, filename=None, dataset=None, grid_topology=None, **kwargs):
        ds = dataset if dataset is not None else get_dataset(filename)
        gt = grid_topology or {'node_lon': 'lon', 'node_lat': 'lat', 'faces': 'nv'}
        f = np.ma.filled(ds[gt['faces']][:])
        if f.shape[0] == 3 and f.shape[1] != 3:
            f = f.T
        f = f - getattr(ds[gt['faces']], 'start_index', f.min())
        kw = {k: v for k, v in kwargs.items() if k in ('name',)}
        return cls(node_lon=np.ma.filled(ds[gt['node_lon']][:]),
                   node_lat=np.ma.filled(ds[gt['node_lat']][:]),
                   faces=f, filename=filename, grid_topology=gt, **kw)

    @property
    def node_lon(self):
        return self.nodes[:, 0]

    @property
    def node_lat(self):
        return self.nodes[:, 1]

    def build_face_coordinates(self):
        self.face_coordinates = self.nodes[self.faces].mean(axis=1)

    def infer_location(self, data):
        return 'node' if data.shape[-1] == len(self.nodes) else 'face'

    def interpolate(self, data, pts, fill=0.0):
        d = np.ma.filled(np.ma.asarray(data, dtype=float), fill)
        out = np.full(len(pts), fill, dtype=float)
        tri = self.nodes[self.faces]
        for k, p in enumerate(pts):
            a, b, c = tri[:, 0], tri[:, 1], tri[:, 2]
            det = ((b[:, 1] - c[:, 1]) * (a[:, 0] - c[:, 0]) +
                   (c[:, 0] - b[:, 0]) * (a[:, 1] - c[:, 1]))
            l1 = ((b[:, 1] - c[:, 1]) * (p[0] - c[:, 0]) +
                  (c[:, 0] - b[:, 0]) * (p[1] - c[:, 1])) / det
            l2 = ((c[:, 1] - a[:, 1]) * (p[0] - c[:, 0]) +
                  (a[:, 0] - c[:, 0]) * (p[1] - c[:, 1])) / det
            l3 = 1 - l1 - l2
            ok = np.where((l1 >= -1e-12) & (l2 >= -1e-12) & (l3 >= -1e-12))[0]
            if len(ok):
                f = ok[0]
                if len(d) == len(self.nodes):
                    n = self.faces[f]
                    out[k] = l1[f] * d[n[0]] + l2[f] * d[n[1]] + l3[f] * d[n[2]]
                else:
                    out[k] = d[f]
        return out


class Grid(object):
    @staticmethod
    def _get_grid_type(dataset=None, grid_topology=None,
                       _default_types=(('ugrid', Grid_U), ('sgrid', Grid_S), ('rgrid', Grid_R))):
        types = dict(_default_types)
        gt = grid_topology or {}
        if 'faces' in gt or 'nv' in dataset.variables:
            return types['ugrid']
        lon = dataset.variables[gt.get('node_lon', 'lon')]
        return types['sgrid'] if lon.ndim == 2 else types['rgrid']

    @staticmethod
    def from_netCDF(filename=None, dataset=None, grid_topology=None,
                    _default_types=(('ugrid', Grid_U), ('sgrid', Grid_S), ('rgrid', Grid_R)),
                    **kwargs):
        ds = dataset if dataset is not None else get_dataset(filename)
        cls = Grid._get_grid_type(ds, grid_topology, _default_types)
        return cls.from_netCDF(filename=filename, dataset=ds, grid_topology=grid_topology, **kwargs)
