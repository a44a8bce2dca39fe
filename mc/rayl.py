"""Rayleigh tables and their reference interpolation."""
import os

import h5py
import numpy as np

WVL = np.array([400.0, 450.0, 520.0, 600.0, 700.0, 800.0])
SUN = np.linspace(1.0, 4.0, 5)
AZI = np.linspace(0.0, 180.0, 7)
SAT = np.linspace(1.0, 3.0, 4)


def lut(seed=0, low=0.0, high=0.6):
    """A table without symmetry or additive structure."""
    idx = np.indices((len(WVL), len(SUN), len(AZI), len(SAT))).astype("f8")
    val = np.sin(1.7 * idx[0] + 0.9 * idx[1] * (1 + 0.37 * idx[2]) + 2.3 * idx[3] * (1 + 0.11 * idx[1]) + 0.77 * idx[2] +
                 1.3 * seed)
    return low + (high - low) * (val + 1) / 2


def write(path, values, wvl=WVL):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with h5py.File(path, "w") as h5f:
        h5f["reflectance"] = values.astype("f8")
        h5f["wavelengths"] = wvl
        h5f["sun_zenith_secant"] = SUN
        h5f["satellite_zenith_secant"] = SAT
        h5f["azimuth_difference"] = AZI


def _pos(coord, val):
    step = coord[1] - coord[0]
    num = (val - coord[0]) / step
    idx = np.clip(np.floor(num).astype(int), 0, len(coord) - 2)
    return idx, num - idx


def secant(zen, top):
    zen = np.asarray(zen, "f8")
    zen = np.where(np.isnan(zen), 0.0, zen)
    zen = np.clip(zen, 0, np.degrees(np.arccos(1 / top)))
    return 1 / np.cos(np.radians(zen))


def model(values, wvl, sun, sat, azi, red=None, coords=WVL):
    """Percent; all arrays of one shape."""
    sun, sat, azi = [np.asarray(a, "f8") for a in (sun, sat, azi)]
    if not coords.min() < wvl < coords.max():
        res = np.zeros(sun.shape)
    else:
        num = int(np.searchsorted(coords, wvl)) - 1
        frac = (wvl - coords[num]) / (coords[num + 1] - coords[num])
        grid = values[num] * (1 - frac) + values[num + 1] * frac
        (i, fi), (j, fj), (k, fk) = (_pos(SUN, secant(sun, SUN[-1])), _pos(AZI, 180 - azi), _pos(SAT, secant(sat, SAT[-1])))
        res = np.zeros(sun.shape)
        for a in (0, 1):
            for b in (0, 1):
                for c in (0, 1):
                    weight = (fi if a else 1 - fi) * (fj if b else 1 - fj) * (fk if c else 1 - fk)
                    res = res + weight * grid[i + a, j + b, k + c]
        res = res * 100
    if red is not None:
        red = np.asarray(red, "f8")
        res = np.where(red < 20, res, (1 - (red - 20) / 80) * res)
    return np.clip(res, 0, 100)
