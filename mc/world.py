"""Building blocks of the modelled world, written independently of pyspectral."""
import contextlib
import io
import itertools
import os
import shutil
import tarfile
import uuid

import dask.array as da
import h5py
import numpy as np
import xarray as xr
import yaml

from mc.env import NET, SCRATCH

H = 6.62606957e-34
K = 1.3806488e-23
C = 2.99792458e8
C1 = H * C / K
C2 = 2 * H * C ** 2


# ---------------------------------------------------------------------------------------------- directories
def fresh_dir(name="d"):
    path = os.path.join(SCRATCH, "work", "%s-%s" % (name, uuid.uuid4().hex[:16]))
    os.makedirs(path)
    return path


@contextlib.contextmanager
def temp_dir(name="d"):
    path = fresh_dir(name)
    try:
        yield path
    finally:
        shutil.rmtree(path, ignore_errors=True)


@contextlib.contextmanager
def config(path, options):
    """A configuration file selected through the environment."""
    with open(path, "w") as out:
        yaml.safe_dump(options, out)
    old = os.environ.get("PSP_CONFIG_FILE")
    os.environ["PSP_CONFIG_FILE"] = path
    try:
        yield path
    finally:
        if old is None:
            os.environ.pop("PSP_CONFIG_FILE", None)
        else:
            os.environ["PSP_CONFIG_FILE"] = old


class Store:
    """rsr_dir, rayleigh_dir and tb2rad_dir in one scratch directory, with a configuration."""

    def __init__(self, root=None, download=False, extra=None):
        self.root = root or fresh_dir("store")
        self.rsr_dir = os.path.join(self.root, "rsr")
        self.rayleigh_dir = os.path.join(self.root, "rayleigh")
        self.tb2rad_dir = os.path.join(self.root, "tb2rad")
        for path in (self.rsr_dir, self.rayleigh_dir, self.tb2rad_dir):
            os.makedirs(path, exist_ok=True)
        self.options = {"rsr_dir": self.rsr_dir, "rayleigh_dir": self.rayleigh_dir, "tb2rad_dir": self.tb2rad_dir}
        if download is not None:
            self.options["download_from_internet"] = download
        self.options.update(extra or {})

    def __enter__(self):
        self._cm = config(os.path.join(self.root, "pyspectral.yaml"), self.options)
        self._cm.__enter__()
        return self

    def __exit__(self, *exc):
        self._cm.__exit__(*exc)
        shutil.rmtree(self.root, ignore_errors=True)

    def current(self):
        """Mark the spectral responses as up to date."""
        from pyspectral import utils
        with open(os.path.join(self.rsr_dir, utils.RSR_DATA_VERSION_FILENAME), "w") as out:
            out.write(utils.RSR_DATA_VERSION)
        return self

    def rsr_path(self, instrument, platform):
        return os.path.join(self.rsr_dir, "rsr_%s_%s.h5" % (instrument, platform))


class PerProcess:
    """Objects made on first use in each process (open files must not be shared by forked processes)."""

    def __init__(self, make):
        self.make, self.pid, self.items = make, None, {}

    def __getitem__(self, key):
        if self.pid != os.getpid():
            self.pid, self.items = os.getpid(), {}
        if key not in self.items:
            self.items[key] = self.make(key)
        return self.items[key]


# ---------------------------------------------------------------------------------------------- responses
def tri_band(center, width=0.1, num=9, skew=0.0, dtype="f8"):
    """A triangular response around *center* (micrometres)."""
    wvl = np.linspace(center - width, center + width, num)
    resp = 1.0 - np.abs(wvl - center - skew * width) / (width * (1.2 + abs(skew)))
    return wvl.astype(dtype), np.clip(resp, 0.01, None).astype(dtype)


def trapz(y, x):
    y, x = np.asarray(y, "f8"), np.asarray(x, "f8")
    return float(np.sum((y[..., 1:] + y[..., :-1]) / 2.0 * np.diff(x)))


def central(wvl, resp, weight=1.0):
    wvl, resp = np.asarray(wvl, "f8"), np.asarray(resp, "f8")
    return trapz(resp * wvl * weight, wvl) / trapz(resp * weight, wvl)


def write_rsr(path, bands, platform="X", sensor=None, scale=1e-6, dtype="f4", shared_wavelength=False):
    """bands: {name: {det: (wvl_um, resp)}} in the internal format."""
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with h5py.File(path, "w") as h5f:
        h5f.attrs["description"] = "Relative Spectral Responses"
        h5f.attrs["platform_name"] = platform
        h5f.attrs["band_names"] = list(bands)
        if sensor is not None:
            h5f.attrs["sensor"] = sensor
        for name, dets in bands.items():
            grp = h5f.create_group(name)
            grp.attrs["number_of_detectors"] = len(dets)
            for num, (det, (wvl, resp)) in enumerate(dets.items()):
                dgrp = grp.create_group(det)
                dgrp.attrs["central_wavelength"] = central(wvl, resp)
                dgrp.create_dataset("response", data=np.asarray(resp, dtype))
                if shared_wavelength:
                    if num == 0:
                        dset = grp.create_dataset("wavelength", data=np.asarray(wvl * (1e-6 / scale), dtype))
                        dset.attrs["scale"] = scale
                else:
                    dset = dgrp.create_dataset("wavelength", data=np.asarray(wvl * (1e-6 / scale), dtype))
                    dset.attrs["scale"] = scale


def read_rsr(path):
    """Independent reader: {band: {det: (wvl_um, resp)}}."""
    out = {}
    with h5py.File(path, "r") as h5f:
        for name in h5f.attrs["band_names"]:
            name = name.decode() if isinstance(name, bytes) else str(name)
            out[name] = {}
            for det in [k for k in h5f[name] if k.startswith("det-")]:
                grp = h5f[name][det]
                wvl = grp["wavelength"] if "wavelength" in grp else h5f[name]["wavelength"]
                out[name][det] = (wvl[:].astype("f8") * wvl.attrs["scale"] * 1e6, grp["response"][:].astype("f8"))
    return out


# ---------------------------------------------------------------------------------------------- physics
def planck_wl(wvl, temp):
    """Planck's law, wavelength in m; broadcasting; double precision."""
    wvl, temp = np.asarray(wvl, "f8"), np.asarray(temp, "f8")
    return C2 / wvl ** 5 / np.expm1(C1 / (wvl * temp))


def planck_wn(wnum, temp):
    wnum, temp = np.asarray(wnum, "f8"), np.asarray(temp, "f8")
    return C2 * wnum ** 3 / np.expm1(C1 * wnum / temp)


def band_radiance(wave_si, resp, temps, space="wavelength", normalized=True):
    func = planck_wl if space == "wavelength" else planck_wn
    out = []
    for temp in np.ravel(temps):
        val = trapz(func(wave_si, temp) * resp, wave_si)
        out.append(val / trapz(resp, wave_si) if normalized else val)
    return np.array(out).reshape(np.shape(temps))


# ---------------------------------------------------------------------------------------------- containers
def chunkings(size):
    """All compositions of *size*."""
    if size == 0:
        return [()]
    out = []
    for bits in itertools.product([0, 1], repeat=size - 1):
        parts, cur = [], 1
        for bit in bits:
            if bit:
                parts.append(cur)
                cur = 1
            else:
                cur += 1
        parts.append(cur)
        out.append(tuple(parts))
    return out


def to_np(obj):
    """The plain values of whatever container came back (masked -> NaN)."""
    if isinstance(obj, xr.DataArray):
        obj = obj.data
    if hasattr(obj, "compute"):
        obj = obj.compute()
    if isinstance(obj, np.ma.MaskedArray):
        obj = obj.filled(np.nan) if obj.dtype.kind == "f" else obj.filled()
    return np.asarray(obj)


def close(got, want, rtol, atol=0.0):
    got, want = np.asarray(got, "f8"), np.asarray(want, "f8")
    if got.shape != want.shape:
        return False
    return bool(np.allclose(got, want, rtol=rtol, atol=atol, equal_nan=True))


def worst(got, want):
    got, want = np.asarray(got, "f8"), np.asarray(want, "f8")
    if got.shape != want.shape:
        return "shapes %s and %s" % (got.shape, want.shape)
    bad = np.where(np.isnan(got) != np.isnan(want), np.inf, np.abs(got - want))
    bad = np.where(np.isnan(got) & np.isnan(want), 0, bad)
    bad = np.nan_to_num(bad, nan=0.0, posinf=np.inf)
    if bad.size == 0:
        return "empty"
    pos = np.unravel_index(int(np.argmax(bad)), bad.shape)
    return "at %s: got %r, expected %r" % (tuple(int(i) for i in pos), float(got[pos]), float(want[pos]))


# ---------------------------------------------------------------------------------------------- HTTP
class Served:
    """One prepared answer: status, body, optional cut after *cut* bytes."""

    def __init__(self, body=b"", status=200, cut=None, exc=None, length=True):
        self.body, self.status, self.cut, self.exc, self.length = body, status, cut, exc, length


def serve(answers):
    """Install a server: {url: Served} or function(url) -> Served."""
    import requests
    from urllib3.response import HTTPResponse

    def handler(adapter, request, **kwargs):
        served = answers(request.url) if callable(answers) else answers.get(request.url)
        if served is None:
            served = Served(b"not found", 404)
        if served.exc is not None:
            raise served.exc
        body = served.body if served.cut is None else served.body[:served.cut]
        headers = {"Content-Type": "application/gzip"}
        if served.length:
            headers["Content-Length"] = str(len(served.body))
        raw = HTTPResponse(body=_Body(body, served.cut is not None), status=served.status, headers=headers,
                           preload_content=False, enforce_content_length=False)
        return adapter.build_response(request, raw)

    NET.reset(handler)
    del requests


class _Body(io.BytesIO):
    def __init__(self, data, cut):
        super().__init__(data)
        self.cut = cut

    def read(self, *args):
        data = super().read(*args)
        if self.cut and not data and (not args or args[0] != 0):
            self.cut = False
            raise ConnectionResetError("connection reset by peer")
        return data


def make_tgz(members):
    """members: list of (name, bytes or None for a directory)."""
    buf = io.BytesIO()
    with tarfile.open(fileobj=buf, mode="w:gz") as tar:
        for name, data in members:
            info = tarfile.TarInfo(name)
            if data is None:
                info.type = tarfile.DIRTYPE
                info.mode = 0o755
                tar.addfile(info)
            else:
                info.size = len(data)
                info.mode = 0o644
                tar.addfile(info, io.BytesIO(data))
    return buf.getvalue()


def tree(path):
    """{relative path: content} of a directory."""
    out = {}
    for base, _dirs, files in os.walk(path):
        for name in files:
            full = os.path.join(base, name)
            with open(full, "rb") as inp:
                out[os.path.relpath(full, path)] = inp.read()
    return out


def company(ch, classes, size=20):
    """One pixel of a kind among others of another (or the same) kind: indices into *classes*, and the label."""
    common = ch.choose("the others", range(len(classes)))
    special = ch.choose("the one", range(len(classes)))
    where = ch.choose("position", [0, size - 1]) if special != common else 0
    idx = np.full(size, common)
    idx[where] = special
    return idx
