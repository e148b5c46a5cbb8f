import os
import numpy as np
import netCDF4


def get_dataset(ncfile, dataset=None):
    if dataset is not None:
        return dataset
    if isinstance(ncfile, (netCDF4.Dataset, netCDF4.MFDataset)):
        return ncfile
    if isinstance(ncfile, (list, tuple)):
        if len(ncfile) == 1:
            return netCDF4.Dataset(os.fspath(ncfile[0]))
        return netCDF4.MFDataset([os.fspath(f) for f in ncfile])
    return netCDF4.Dataset(os.fspath(ncfile))


def _reorganize_spatial_data(points):
    if points is None:
        return None
    points = np.array(points)
    if points.ndim == 1:
        if len(points) not in (2, 3):
            raise ValueError("a single point must have 2 or 3 coordinates")
        return points.reshape(1, len(points))
    if points.shape[1] in (2, 3):
        return points
    if points.shape[0] in (2, 3):
        return points.T
    raise ValueError("bad point array")


def _align_results_to_spatial_data(result, points):
    """results come as (N x components); points may be one point or transposed"""
    pts = np.array(points)
    if pts.ndim == 1:
        return result[0]
    if pts.shape[1] in (2, 3):
        return result
    if pts.shape[0] in (2, 3):
        return result.T
    return result


def convert_mask_to_numpy_mask(mask_var):
    return np.asarray(mask_var[:]) == 0


def gen_celltree_mask_from_center_mask(center_mask, sl):
    return np.asarray(center_mask[:])[sl] == 0
