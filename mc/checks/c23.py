"""C23: no operation alters its inputs, shared tables, earlier results or other objects."""
import copy
import os
import pickle
from pathlib import Path

import dask.array as da
import numpy as np
import xarray as xr

from mc import rayl
from mc import world as w
from mc.checks.c21 import in_child
from mc.core import check

BANDS = {"M5": {"det-1": w.tri_band(0.67, 0.03, 9), "det-2": w.tri_band(0.68, 0.03, 9)},
         "M12": {"det-1": w.tri_band(3.7, 0.1, 11), "det-2": w.tri_band(3.75, 0.1, 11)},
         "M15": {"det-1": w.tri_band(10.8, 0.5, 9, skew=0.3)}, "I4": {"det-1": w.tri_band(3.74, 0.2, 9)}}


class World:
    """Shared inputs; made anew in every process."""

    def __init__(self, root):
        from pyspectral.rsr_reader import RelativeSpectralResponse
        from pyspectral.solar import SolarIrradianceSpectrum
        self.root = root
        unsorted = np.array([0.7, 0.5, 0.6, 0.6, 0.55, 0.65])
        sensor = RelativeSpectralResponse("Suomi-NPP", "viirs")
        self.items = {
            "wvl": np.array([3.7e-6, 10.8e-6, 12e-6]), "wnum": np.array([270000.0, 92000.0, 83000.0]),
            "temp": np.array([0.0, 200.05, 270.03, 300.04, np.nan]), "temp4": np.array([200.05, 270.03, 300.04], "f4"),
            "rad": np.array([1e5, 5e5, 7e6]), "darad": da.from_array(np.array([1e5, 5e5, 7e6]), chunks=2),
            "wnrad": np.array([1e-6, 1e-4, 1e-3]), "resp": np.array([0.5, 0.1, 1.0, 0.9, 0.4, 0.7]), "unsorted": unsorted,
            "curve": np.array([0.0, 0.1, 0.6, 1.0, 0.7, 0.2, 0.05]), "curvewvl": np.linspace(0.5, 0.8, 7),
            "rsr": {b: {d: {"wavelength": c[0].copy(), "response": c[1].copy(), "central_wavelength": w.central(*c)}
                        for d, c in dets.items()} for b, dets in BANDS.items()},
            "nano": {d: {"wavelength": c[0] * 1000, "response": c[1].copy()} for d, c in BANDS["M5"].items()},
            "sensor": sensor, "sunz": np.array([[10.0, 40.0, 84.0], [-3.0, 86.0, np.nan]]),
            "tb3": np.array([[310.03, 300.04, 295.02], [300.06, 290.04, 300.01]]),
            "tb11": np.array([[290.02, 285.04, 270.02], [290.03, 285.02, 275.05]]),
            "tbco2": np.array([[262.0, 250.0, 240.0], [260.0, 258.0, 250.0]]),
            "lut": {"tb": 150.0 + np.arange(2100) / 10, "radiance": np.linspace(1e3, 9e6, 2100)},
            "satz": np.array([[0.0, 40.0, 80.0], [np.nan, 95.0, 20.0]]), "azi": np.array([[0.0, 90.0, 180.0], [45.0, 215.0, 10.0]]),
            "red": np.array([[10.0, 20.0, 50.0], [100.0, 5.0, 150.0]]),
            "masked": np.ma.masked_array([[290.0, 280.0, 270.0], [260.0, 250.0, 240.0]], mask=[[0, 1, 0], [0, 0, 1]]),
            "options": {"download_from_internet": False, "rsr_dir": root + "/rsr", "nested": {"a": [1]}},
            "aerosols": ["rayleigh_only", "marine_clean_aerosol"],
            "kwargs": {"central_wavelengths": {"M5": 0.66}},
            "spectrum": SolarIrradianceSpectrum(dlambda=0.005),
        }
        self.items["xr_rad"] = xr.DataArray(np.array([[1e5, 5e5, 7e6]]), dims=("y", "x"), attrs={"a": 1})
        self.items["xr_darad"] = xr.DataArray(da.from_array(np.array([[1e5, 5e5, 7e6]]), chunks=(1, 2)), dims=("y", "x"))
        for name in ("sunz", "satz", "azi", "tb3", "tb11", "red"):
            self.items["da_" + name] = da.from_array(self.items[name], chunks=(1, 2))
            self.items["xr_" + name] = xr.DataArray(self.items[name].copy(), dims=("y", "x"), attrs={"name": name})

    def __getattr__(self, name):
        return self.__dict__["items"][name]


def freeze(obj):
    """A comparable picture of any object."""
    if isinstance(obj, xr.DataArray):
        return ("xr", freeze(obj.data), obj.dims, dict(obj.attrs))
    if hasattr(obj, "compute"):
        return ("dask", freeze(obj.compute()), obj.chunks)
    if isinstance(obj, np.ma.MaskedArray):
        return ("ma", str(obj.dtype), obj.shape, np.ma.getmaskarray(obj).tobytes(), obj.filled(-1).tobytes())
    if isinstance(obj, np.ndarray):
        return ("np", str(obj.dtype), obj.shape, obj.tobytes())
    if isinstance(obj, dict):
        return ("dict", type(obj).__name__, [(k, freeze(v)) for k, v in obj.items()])
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, [freeze(v) for v in obj])
    if isinstance(obj, (np.floating, float)):
        return ("float", np.float64(obj).tobytes())
    if isinstance(obj, (str, bytes, int, bool, type(None), Path, np.integer)):
        return (type(obj).__name__, str(obj))
    if hasattr(obj, "rsr") and hasattr(obj, "band_names"):
        return ("sensor", freeze(obj.rsr), obj.unit, obj.si_scale, list(obj.band_names))
    if type(obj).__name__ == "SolarIrradianceSpectrum":
        return ("solar", freeze(np.asarray(obj.wavelength)), freeze(np.asarray(obj.irradiance)))
    raise TypeError(type(obj))


def tables():
    from pyspectral import bandnames, rayleigh, rsr_reader, testing, utils
    import pyspectral.radiance_tb_conversion as rtc
    out = []
    for mod in (utils, bandnames, rayleigh, rsr_reader, testing, rtc):
        for name in ("BANDNAMES", "INSTRUMENTS", "AEROSOL_TYPES", "ATMOSPHERES", "ATM_CORRECTION_LUT_VERSION",
                     "HTTPS_RAYLEIGH_LUTS", "RSR_DATA_VERSION", "SEVIRI", "HEADERS", "INSTRUMENT_TRANSLATION_DASH2SLASH",
                     "OSCAR_PLATFORM_NAMES"):
            if hasattr(mod, name):
                out.append((mod.__name__, name, copy.deepcopy(getattr(mod, name))))
    return out


def operations():
    from pyspectral import blackbody as bb
    from pyspectral import testing, utils
    from pyspectral.atm_correction_ir import AtmosphericalCorrection
    from pyspectral.config import get_config
    from pyspectral.near_infrared_reflectance import Calculator
    from pyspectral.radiance_tb_conversion import RadTbConverter, SeviriRadTbConverter, radiance2tb
    from pyspectral.rayleigh import Rayleigh, check_and_download
    from pyspectral.rsr_reader import RelativeSpectralResponse
    from pyspectral.solar import SolarIrradianceSpectrum

    ops = {}

    def op(func):
        ops[func.__name__] = func
        return func

    @op
    def planck_wavelength(x):
        return bb.blackbody(x.wvl, x.temp)

    @op
    def planck_wavenumber(x):
        return bb.blackbody_wn(x.wnum, x.temp)

    @op
    def planck_single(x):
        return bb.planck(x.wvl, x.temp4)

    @op
    def inverse(x):
        return [bb.blackbody_rad2temp(10.8e-6, x.rad), bb.blackbody_rad2temp(10.8e-6, x.darad), radiance2tb(x.rad, 12e-6)]

    @op
    def inverse_wavenumber(x):
        return bb.blackbody_wn_rad2temp(92000.0, x.wnrad)

    @op
    def inverse_xarray(x):
        return [bb.blackbody_rad2temp(10.8e-6, x.xr_rad), bb.blackbody_rad2temp(10.8e-6, x.xr_darad),
                bb.blackbody_wn_rad2temp(wavenumber=92000.0, radiance=x.xr_darad)]

    @op
    def sort(x):
        return list(utils.sort_data(x.unsorted, x.resp))

    @op
    def shapes(x):
        return [utils.get_central_wave(x.curvewvl, x.curve), utils.get_central_wave(x.curvewvl, x.curve, weight=1 / x.curvewvl),
                utils.get_fullwidth_halfmax(x.curve, x.curvewvl), list(utils.get_bounds_integrated_energy(x.curve, x.curvewvl)),
                utils.get_wave_range({"wavelength": x.curvewvl, "response": x.curve, "central_wavelength": 0.65}, 0.3)]

    @op
    def to_wavenumber(x):
        rsr, info = utils.convert2wavenumber(x.rsr)
        return [rsr, info]

    @op
    def sensor_to_wavenumber(x):
        return list(utils.convert2wavenumber(x.sensor.rsr))

    @op
    def by_wavelength(x):
        return [utils.get_bandname_from_wavelength("viirs", 0.67, x.rsr), x.sensor.get_bandname_from_wavelength(10.8)]

    @op
    def sensor_integral(x):
        return [x.sensor.integral("M5"), x.sensor.integral("M15")]

    @op
    def converted_sensor(x):
        other = RelativeSpectralResponse("Suomi-NPP", "viirs")
        other.convert()
        return [other.rsr, other.integral("M12")]

    @op
    def spoilt_sensor(x):
        other = RelativeSpectralResponse("Suomi-NPP", "viirs")
        out = copy.deepcopy(dict(other.rsr))
        for band in other.rsr:
            for det in other.rsr[band].values():
                det["response"][:] = 0
                det["wavelength"] *= 2
        other.rsr.clear()
        other.band_names.append("more") if isinstance(other.band_names, list) else None
        return out

    @op
    def spoilt_config(x):
        conf = get_config()
        out = copy.deepcopy(conf)
        for key in list(conf):
            conf[key] = "spoilt"
        return out

    @op
    def solar(x):
        return [x.spectrum.inband_solarflux(x.rsr["M5"]["det-1"]), x.spectrum.inband_solarirradiance(x.rsr["M12"]["det-2"]),
                x.spectrum.solar_constant()]

    @op
    def solar_scaled(x):
        return [x.spectrum.inband_solarflux(x.nano, scale=1e-3), x.spectrum.inband_solarirradiance(x.nano["det-2"], scale=1e-3),
                x.spectrum.inband_solarflux(x.nano, 1e-3, detector=2)]

    @op
    def solar_sensor(x):
        return x.spectrum.inband_solarflux(x.sensor.rsr["M5"]["det-2"])

    @op
    def solar_interpolated(x):
        spec = SolarIrradianceSpectrum(dlambda=0.01)
        spec.interpolate(dlambda=0.002, ival_wavelength=(0.4, 1.0))
        out = spec.inband_solarflux(x.rsr["M5"]["det-1"])
        spec.convert2wavenumber()
        return [out, spec.solar_constant()]

    @op
    def solar_wavenumber(x):
        spec = SolarIrradianceSpectrum(dlambda=0.005, wavespace="wavenumber")
        rsr, _ = utils.convert2wavenumber(x.rsr)
        return [spec.solar_constant(), spec.inband_solarflux(rsr["M12"]["det-1"])]

    @op
    def converter(x):
        conv = RadTbConverter("Suomi-NPP", "viirs", "M15")
        return [conv.tb2radiance(x.temp), conv.tb2radiance(x.temp4, lut=x.lut), conv.tb2radiance(x.temp, normalized=False),
                conv.radiance2tb(x.rad)]

    @op
    def converter_wavenumber(x):
        conv = RadTbConverter("Suomi-NPP", "viirs", "M12", detector="det-2", wavespace="wavenumber")
        return [conv.tb2radiance(x.temp), conv.radiance2tb(x.wnrad)]

    @op
    def converter_table(x):
        conv = RadTbConverter("Suomi-NPP", "viirs", "M15", tb_resolution=0.5)
        path = os.path.join(x.root, "own.npz")
        conv.make_tb2rad_lut(path)
        lut = conv.read_tb2rad_lut(path)
        return [np.array(lut["tb"]), np.array(lut["radiance"]), conv.tb2radiance(x.tb11, lut=lut)]

    @op
    def seviri(x):
        conv = SeviriRadTbConverter("Meteosat-9", "IR3.9")
        return [conv.tb2radiance(x.temp4), conv.radiance2tb(x.wnrad)]

    @op
    def reflectance(x):
        calc = Calculator("Suomi-NPP", "viirs", "M12", solar_flux=2.0)
        return [calc.reflectance_from_tbs(x.sunz, x.tb3, x.tb11), calc.emissive_part_3x(), calc.emissive_part_3x(tb=False)]

    @op
    def reflectance_co2(x):
        calc = Calculator("Suomi-NPP", "viirs", "M12", detector="det-2")
        return [calc.reflectance_from_tbs(x.sunz, x.tb3, x.tb11, tb_ir_co2=x.tbco2, lut=x.lut), calc.solar_flux]

    @op
    def reflectance_dask(x):
        calc = Calculator("Suomi-NPP", "viirs", "I4", solar_flux=2.0, masking_limit=None)
        return [calc.reflectance_from_tbs(x.da_sunz, x.da_tb3, x.da_tb11), calc.emissive_part_3x()]

    @op
    def reflectance_xarray(x):
        calc = Calculator("Suomi-NPP", "viirs", "I4", solar_flux=2.0, sunz_threshold=80.0)
        return calc.reflectance_from_tbs(x.xr_sunz, x.xr_tb3, x.xr_tb11)

    @op
    def reflectance_masked(x):
        calc = Calculator("Suomi-NPP", "viirs", "M12", solar_flux=2.0)
        return calc.reflectance_from_tbs(x.sunz, x.masked, x.tb11)

    @op
    def correction(x):
        ray = Rayleigh("Suomi-NPP", "viirs")
        return [ray.get_reflectance(x.sunz, x.satz, x.azi, "M5"), ray.get_reflectance(x.sunz, x.satz, x.azi, 0.5, x.red)]

    @op
    def correction_dask(x):
        ray = Rayleigh("Suomi-NPP", "viirs", atmosphere="tropical", aerosol_type="rayleigh_only")
        return [ray.get_reflectance(x.da_sunz, x.da_satz, x.da_azi, 0.55, x.da_red),
                ray.get_reflectance(x.da_sunz, x.da_satz, x.da_azi, 0.95)]

    @op
    def reduction(x):
        return [Rayleigh.reduce_rayleigh_highzenith(x.sunz, x.red, 70.0, 90.0, 1.0),
                Rayleigh.reduce_rayleigh_highzenith(x.da_sunz, x.da_red, 30.0, 90.0, 0.5)]

    @op
    def limb(x):
        obj = AtmosphericalCorrection("Suomi-NPP", "viirs")
        return [obj.get_correction(x.satz, "M15", x.tb11), obj.get_correction(x.satz, "M15", x.masked),
                obj.get_correction(x.da_satz, "M15", x.da_tb11)]

    @op
    def configuration(x):
        with testing.override_config(config_options=x.options):
            return {k: v for k, v in get_config().items() if k != "rayleigh_dir"}

    @op
    def mocked_responses(x):
        with testing.mock_rsr(rsr_dir=Path(x.root) / "mock", **x.kwargs):
            return RelativeSpectralResponse("Suomi-NPP", "viirs").rsr["M5"]["det-1"]["central_wavelength"]

    @op
    def mocked_avhrr(x):
        with testing.mock_rsr(rsr_dir=Path(x.root) / "mock", **x.kwargs):
            return sorted(RelativeSpectralResponse("NOAA-19", "avhrr/3").rsr)

    @op
    def dry_runs(x):
        utils.download_luts(aerosol_types=x.aerosols, dry_run=True)
        utils.download_rsr(dry_run=True)
        check_and_download(dry_run=True, aerosol_types=x.aerosols)
        check_and_download(dry_run=True)
        return []

    @op
    def unknown_platform(x):
        out = []
        for args in (("nowhere", "viirs"), ("NOAA-19", "viirs"), ("Suomi-NPP", "VIIRS")):
            try:
                out.append(RelativeSpectralResponse(*args).instrument)
            except OSError:
                out.append("missing")
        return out

    return ops


def run(ctx):
    ops = operations()
    names = sorted(ops)

    def world():
        root = w.fresh_dir("w23")
        store = w.Store(root=root)
        store.current()
        w.write_rsr(store.rsr_path("viirs", "Suomi-NPP"), BANDS, "Suomi-NPP", "viirs", dtype="f8")
        for num, (aer, atm) in enumerate([("marine_clean_aerosol", "us-standard"), ("rayleigh_only", "tropical")]):
            rayl.write(os.path.join(root, "rayleigh", aer, "rayleigh_lut_%s.h5" % atm), rayl.lut(num))
        return store

    def strip(text, root):
        return pickle.loads(pickle.dumps(text).replace(root.encode(), b"R" * len(root)))

    def alone(name):
        with world() as store:
            return strip(freeze(ops[name](World(store.root))), store.root)

    golden = {name: in_child(lambda name=name: alone(name)) for name in names}

    def execute(plan):
        with world() as store:
            x = World(store.root)
            before = {k: freeze(v) for k, v in x.items.items()}
            shared = tables()
            results = []
            for num, name in enumerate(plan):
                raw = ops[name](x)
                got = freeze(raw)
                results.append((name, raw, got))
                check(strip(got, store.root) == golden[name], "%s after %s gives another result", name, plan[:num])
            for key, val in before.items():
                check(freeze(x.items[key]) == val, "input %r changed by %s", key, plan)
            check(tables() == shared, "a shared table was changed by %s: %s", plan,
                  [(a[0], a[1]) for a, b in zip(tables(), shared) if a != b])
            for name, raw, got in results:
                check(freeze(raw) == got, "the earlier result of %s changed by %s", name, plan)
            return len(before) + len(results)

    def pairs(ch):
        plan = [ch.choose("first", names), ch.choose("second", names)]
        ch.count(in_child(lambda: execute(plan)))
        ch.state(plan)

    ctx.explore("pairs", pairs, workers=8, split=1)

    if ctx.thorough:
        def triples(ch):
            plan = [ch.choose("op%d" % i, names) for i in range(3)]
            ch.count(in_child(lambda: execute(plan)))
            ch.state(plan)

        ctx.explore("triples", triples, workers=8, split=1)
    ctx.assume("Operations are those of the table in c23.py with the inputs given there; the in-place limb correction is C19's.")
