"""Import of the code under test from its working tree, and the guarded outside world."""
import os
import sys

REPO = os.environ.get("MC_REPO", "/repo")
SCRATCH = os.environ.get("MC_SCRATCH", "/nonexistent")


class NetworkForbidden(ConnectionError):
    """Something tried to reach the network where nothing should."""


class Net:
    """Everything that leaves through HTTP.  ``handler(request) -> response or exception``."""

    def __init__(self):
        self.requests = []
        self.handler = None
        self.connects = []

    def reset(self, handler=None):
        self.requests = []
        self.connects = []
        self.handler = handler


NET = Net()


def load_pyspectral():
    """Import every module of the package, compiled from the sources as they are now."""
    import warnings
    warnings.simplefilter("ignore")
    import dask.array  # noqa
    import dask.config
    import geotiepoints.multilinear  # noqa
    import h5py  # noqa
    import numpy  # noqa
    import platformdirs  # noqa
    import requests
    import requests.adapters
    import scipy.integrate  # noqa
    import scipy.interpolate  # noqa
    import tqdm
    import xarray  # noqa
    import yaml  # noqa
    numpy.seterr(all="ignore")
    import logging
    logging.getLogger().addHandler(logging.NullHandler())
    dask.config.set(scheduler="synchronous")
    sys.pycache_prefix = os.path.join(SCRATCH, "pycache")
    sys.path.insert(0, REPO)
    # any path hook of an editable install must not win
    sys.meta_path[:] = [f for f in sys.meta_path if "editable" not in getattr(f, "__module__", "") +
                        getattr(f, "__name__", "")]
    for name in ("utils", "rsr_reader", "bandnames", "config", "blackbody", "radiance_tb_conversion",
                 "near_infrared_reflectance", "solar", "rayleigh", "atm_correction_ir", "raw_reader", "testing"):
        mod = __import__("pyspectral." + name, fromlist=["x"])
        assert os.path.abspath(mod.__file__).startswith(REPO + os.sep), mod.__file__
    warnings.simplefilter("ignore")
    _guard(requests)
    os.environ["TQDM_DISABLE"] = "1"


def _guard(requests):
    import socket

    def send(self, request, **kwargs):
        NET.requests.append(request.url)
        if NET.handler is None:
            raise requests.exceptions.ConnectionError("network is not available here: %s" % request.url)
        return NET.handler(self, request, **kwargs)

    requests.adapters.HTTPAdapter.send = send
    orig_connect = socket.socket.connect

    def connect(self, address):
        if self.family in (socket.AF_INET, socket.AF_INET6):
            NET.connects.append(address)
            raise NetworkForbidden("connection to %r" % (address,))
        return orig_connect(self, address)

    socket.socket.connect = connect
