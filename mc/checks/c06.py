"""C06: band aliases."""
import numpy as np

from mc import nir
from mc import world as w
from mc.checks.c05 import GOLD, lut_dir
from mc.core import check

# instrument name -> (platform, spellings accepted by the converters, alias table)
CASES = {"modis": ("EOS-Aqua", ["modis"], "modis"), "seviri": ("Meteosat-9", ["seviri"], "seviri"),
         "viirs": ("Suomi-NPP", ["viirs"], "viirs"), "avhrr3": ("Metop-A", ["avhrr-3", "avhrr/3", "avhrr3"], "avhrr-3"),
         "abi": ("GOES-16", ["abi"], "abi"), "agri": ("FY-4A", ["agri"], "agri"), "ahi": ("Himawari-8", ["ahi"], "ahi"),
         "ami": ("GEO-KOMPSAT-2A", ["ami"], "ami"), "fci": ("MTG-I1", ["fci"], "fci"),
         "slstr": ("Sentinel-3A", ["slstr"], "slstr"), "metimage": ("Metop-SG-A1", ["metimage"], "VII"),
         "virr": ("FY-3A", ["virr"], "generic"), "cocts": ("HY-1C", ["cocts"], "generic")}
UNKNOWN = ["nope", "", "ch99", "M1x", "generic", "42"]


def band(num, low, high, total):
    """A distinct curve: centre, number of samples and shape tell which band it is."""
    center = low + (high - low) * (num + 0.5) / total
    return w.tri_band(center, 0.02, 9 + num, skew=0.1 * (num % 5))


def run(ctx):
    from pyspectral.near_infrared_reflectance import Calculator
    from pyspectral.radiance_tb_conversion import RadTbConverter
    from pyspectral.rayleigh import Rayleigh
    from pyspectral.rsr_reader import RelativeSpectralResponse

    def same(got, want):
        return (np.shape(got["response"]) == np.shape(want[1]) and
                np.allclose(got["response"], want[1], rtol=1e-6) and np.allclose(got["wavelength"], want[0], rtol=1e-6))

    # ---- the response table, with every small set of stored bands
    def table(ch):
        inst = ch.choose("instrument", list(CASES))
        platform, spell, tab = CASES[inst]
        aliases = GOLD["bandnames"][tab]
        alias = ch.choose("alias", sorted(aliases))
        std = aliases[alias]
        others = sorted(set(aliases.values()) - {std, alias})[:2]
        for stored in ([std], [alias], [alias, std], [std, alias], [std] + others, others, others + [std], []):
            stored = list(dict.fromkeys(stored))
            curves = {name: band(num, 3.5, 4.0, 8) for num, name in enumerate(stored)}
            with w.Store() as store:
                store.current()
                w.write_rsr(store.rsr_path(inst, platform), {n: {"det-1": c} for n, c in curves.items()}, platform, inst,
                            dtype="f8")
                for given in spell:
                    rsr = RelativeSpectralResponse(platform, given)
                    for key in [alias, std] + UNKNOWN:
                        target = key if key in stored else std if key == alias and std in stored else None
                        if target is None and key not in UNKNOWN and GOLD["bandnames"]["generic"].get(key) in stored:
                            target = GOLD["bandnames"]["generic"][key]    # also a general alias
                        text = "%s %s asked %r with %s stored" % (platform, given, key, stored)
                        if target is not None:
                            check(same(rsr.rsr[key]["det-1"], curves[target]), "[]: wrong band: %s", text)
                            check(same(rsr.rsr.get(key)["det-1"], curves[target]), "get: wrong band: %s", text)
                            check(same(rsr.rsr.get(key, 7)["det-1"], curves[target]), "get: wrong band: %s", text)
                            got = rsr.integral(key)["det-1"]
                            want = w.trapz(curves[target][1], curves[target][0])
                            check(abs(got - want) < 1e-6 * want, "integral: %s", text)
                        else:
                            try:
                                got = rsr.rsr[key]
                            except KeyError:
                                got = None
                            check(got is None, "[] found something: %s", text)
                            check(rsr.rsr.get(key) is None, "get found something: %s", text)
                            check(rsr.rsr.get(key, 7) == 7, "default not returned: %s", text)
                            check(rsr.rsr.get(key, default=8) == 8, "default not returned: %s", text)
                        ch.count(1)
                        ch.state(len(stored), target is not None, key == alias)
                    check(list(rsr.rsr) == stored and list(rsr.band_names) == stored, "bands listed as %s", list(rsr.rsr))

    ctx.explore("table", table, workers=8, split=1)

    # ---- the general aliases, for instruments with a table of their own
    def general(ch):
        inst = ch.choose("instrument", list(CASES))
        platform, spell, tab = CASES[inst]
        alias = ch.choose("alias", sorted(set(GOLD["bandnames"]["generic"]) - set(GOLD["bandnames"][tab])))
        std = GOLD["bandnames"]["generic"][alias]
        with w.Store() as store:
            store.current()
            curves = {name: band(num, 3.5, 4.0, 8) for num, name in enumerate(dict.fromkeys(["other", std]))}
            w.write_rsr(store.rsr_path(inst, platform), {n: {"det-1": c} for n, c in curves.items()}, platform, inst, dtype="f8")
            for given in spell:
                rsr = RelativeSpectralResponse(platform, given).rsr
                check(same(rsr[alias]["det-1"], curves[std]), "%s: [] of %s", inst, alias)
                check(rsr.get(alias) is not None and same(rsr.get(alias)["det-1"], curves[std]), "%s: get of %s", inst, alias)
                ch.count(2)

    ctx.explore("general", general, workers=8, split=1)

    whole = [c for c in CASES if ctx.thorough or c != "cocts"]

    # ---- the converters, the correction and the calculator on the complete instrument
    def full(store, inst, low, high):
        platform, spell, tab = CASES[inst]
        aliases = GOLD["bandnames"][tab]
        names = sorted(set(aliases.values()))
        curves = {name: band(num, low, high, len(names)) for num, name in enumerate(names)}
        store.current()
        w.write_rsr(store.rsr_path(inst, platform), {n: {"det-1": c} for n, c in curves.items()}, platform, inst, dtype="f8")
        return platform, spell, aliases, curves

    def asked(aliases, curves):
        out = [(alias, std) for alias, std in aliases.items()]
        out += [(name, name) for name in curves if name not in aliases]
        out += [(name, None) for name in UNKNOWN if name not in curves and name not in aliases]
        return sorted(out, key=str)

    def converters(ch):
        inst = ch.choose("instrument", whole)
        group = ch.choose("group", range(4))
        space = ch.choose("wavespace", ["wavelength", "wavenumber"])
        with w.Store() as store:
            platform, spell, aliases, curves = full(store, inst, 3.5, 12.0)
            for given in spell:
                for key, std in asked(aliases, curves)[group::4]:
                    text = "%s %s band %r" % (platform, given, key)
                    try:
                        conv = RadTbConverter(platform, given, key, wavespace=space)
                    except KeyError:
                        conv = None
                    if std is None:
                        check(conv is None, "unknown band accepted: %s", text)
                        continue
                    check(conv is not None, "known band refused: %s", text)
                    wvl, resp = curves[std]
                    want = (wvl * 1e-6, resp) if space == "wavelength" else (1e6 / wvl[::-1], resp[::-1])
                    check(np.shape(conv.response) == resp.shape, "wrong band: %s", text)
                    check(np.allclose(conv.response, want[1], rtol=1e-6) and
                          np.allclose(conv.wavelength_or_wavenumber, want[0], rtol=1e-6), "wrong band: %s", text)
                    func = w.planck_wl if space == "wavelength" else w.planck_wn
                    rad = w.trapz(func(want[0], 300.0) * want[1], want[0]) / w.trapz(want[1], want[0])
                    got = float(np.ravel(w.to_np(conv.tb2radiance(np.array([300.0]))["radiance"]))[0])
                    check(abs(got - rad) < 1e-5 * rad, "radiance %r instead of %r: %s", got, rad, text)
                    ch.count(1)

    ctx.explore("converters", converters, workers=8, split=3)

    def correction(ch):
        inst = ch.choose("instrument", whole)
        group = ch.choose("group", range(4))
        with w.Store() as store:
            platform, spell, aliases, curves = full(store, inst, 0.42, 0.78)
            lut = lut_dir(store, slope=1.0)
            given = GOLD["instruments"].get(platform)
            given = inst if isinstance(given, list) else given
            ray = Rayleigh(platform, given, aerosol_type="rayleigh_only")
            ang = np.array([[10.0]])
            for key, std in asked(aliases, curves)[group::4]:
                try:
                    got = float(ray.get_reflectance(ang, ang, ang, key)[0, 0])
                except KeyError:
                    check(std is None, "known band %r of %s refused", key, inst)
                    continue
                check(std is not None, "unknown band %r of %s accepted", key, inst)
                wvl, resp = curves[std]
                want = lut(w.central(wvl, resp, 1.0 / wvl ** 4))
                check(abs(got - want) < 0.02, "correction of %s band %r: %r instead of %r", inst, key, got, want)
                ch.count(1)

    ctx.explore("correction", correction, workers=8, split=2)

    def calculator(ch):
        inst = ch.choose("instrument", whole)
        group = ch.choose("group", range(4))
        sunz, tb3, tb11 = np.array([30.0, 60.0]), np.array([310.03, 295.04]), np.array([290.02, 285.03])
        with w.Store() as store:
            platform, spell, aliases, curves = full(store, inst, 3.55, 3.9)
            for given in spell:
                for key, std in asked(aliases, curves)[group::4]:
                    text = "%s %s band %r" % (platform, given, key)
                    try:
                        calc = Calculator(platform, given, key, solar_flux=2.0)
                    except KeyError:
                        check(std is None, "known band refused: %s", text)
                        continue
                    check(std is not None, "unknown band accepted: %s", text)
                    want = nir.Band(*curves[std]).model(sunz, tb3, tb11)[0]
                    got = w.to_np(calc.reflectance_from_tbs(sunz, tb3, tb11))
                    check(w.close(got, want, 1e-5), "reflectance of %s: %s", text, w.worst(got, want))
                    ch.count(2)

    ctx.explore("calculator", calculator, workers=8, split=2)
    ctx.assume("Alias tables: mc/golden.json. A name that is both stored and an alias of another stored band is looked at "
               "in the response table only.")
