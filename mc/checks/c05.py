"""C05: platform and instrument names."""
import json
import os

import numpy as np

from mc import world as w
from mc.core import VERIF, check

with open(os.path.join(VERIF, "mc", "golden.json")) as _inp:
    GOLD = json.load(_inp)


def plain(name):
    return name.lower().replace("/", "").replace("-", "")


def spellings(inst):
    out = {inst}
    if "/" in inst:
        out |= {inst.replace("/", "-"), inst.replace("/", "")}
    elif "-" in inst:
        out |= {inst.replace("-", "")}
    out |= {s.upper() for s in set(out)} | {s.capitalize() for s in set(out)}
    return sorted(out)


def instruments(platform):
    val = GOLD["instruments"][platform]
    return val if isinstance(val, list) else [val]


UNKNOWN = [("Foo-1", "Bar/1"), ("Foo-1", "bar-1"), ("Foo-1", "BAR1"), ("NOAA-99", "avhrr/3"), ("metop-a", "Avhrr-3"),
           ("eos-aqua", "modis"), ("X", "x"), ("Foo-1", "a-b-c/D/e")]


class Files:
    """A store with one marked response file for every platform and instrument."""

    def __init__(self):
        self.store = w.Store()
        self.mark = {}
        pairs = [(p, plain(i)) for p in GOLD["instruments"] for i in instruments(p)]
        pairs += [(p, plain(i)) for p, i in UNKNOWN]
        pairs += [("Foo-1", "virr"), ("FY-3D", "virr"), ("Meteosat-9", "fci"), ("Meteosat-12", "seviri")]
        for num, pair in enumerate(sorted(set(pairs))):
            self.mark[pair] = 0.42 + 0.003 * num
            wvl, resp = w.tri_band(self.mark[pair], 0.01)
            if pair in [("FY-3D", "virr"), ("Meteosat-9", "fci"), ("Meteosat-12", "seviri")]:
                pass    # decoys: data of instruments the platform does not carry
            w.write_rsr(self.store.rsr_path(pair[1], pair[0]), {"b1": {"det-1": (wvl, resp)}}, pair[0], pair[1], dtype="f8")


def run(ctx):
    from pyspectral import utils
    from pyspectral.radiance_tb_conversion import RadTbConverter
    from pyspectral.rayleigh import Rayleigh, normalize_sensor
    from pyspectral.rsr_reader import RelativeSpectralResponse

    files = Files()
    with files.store as store:
        store.current()

        def which(rsr):
            center = float(np.mean(rsr["b1"]["det-1"]["wavelength"]))
            best = min(files.mark, key=lambda k: abs(files.mark[k] - center))
            check(abs(files.mark[best] - center) < 1e-4, "data of no known file: %s", center)
            return best

        def open_all(platform, given, want, ch, converters=True):
            rsr = RelativeSpectralResponse(platform, given)
            check(which(rsr.rsr) == (platform, want), "%s/%s opened %s instead of %s", platform, given, which(rsr.rsr), want)
            check(rsr.platform_name == platform, "platform reported as %s", rsr.platform_name)
            check(plain(str(rsr.instrument)) == want, "%s/%s reported as instrument %s", platform, given, rsr.instrument)
            check(os.path.basename(str(rsr.filename)) == "rsr_%s_%s.h5" % (want, platform), "file %s", rsr.filename)
            again = RelativeSpectralResponse(rsr.platform_name, rsr.instrument)
            check(which(again.rsr) == (platform, want), "reported name %s/%s opens %s", rsr.platform_name, rsr.instrument,
                  which(again.rsr))
            check(again.instrument == rsr.instrument, "name not stable: %s then %s", rsr.instrument, again.instrument)
            one = utils.check_and_adjust_instrument_name(platform, given)
            check(utils.check_and_adjust_instrument_name(platform, one) == one == want, "%s/%s adjusted to %s", platform,
                  given, one)
            byname = RelativeSpectralResponse(platform_name=platform, instrument=given)
            check(which(byname.rsr) == (platform, want), "keywords matter")
            if converters:
                conv = RadTbConverter(platform, given, "b1")
                check(which(conv.rsr) == (platform, want), "converter for %s/%s opened %s", platform, given, which(conv.rsr))
            ch.state(platform, want)
            ch.count(4)

        def own(ch):
            platform = ch.choose("platform", sorted(GOLD["instruments"]))
            inst = ch.choose("instrument", instruments(platform))
            given = ch.choose("spelling", spellings(inst))
            open_all(platform, given, plain(inst), ch)

        ctx.explore("own", own, workers=8, split=1)

        def foreign(ch):
            platform = ch.choose("platform", sorted(GOLD["instruments"]))
            mine = instruments(platform)
            allinst = sorted({i for p in GOLD["instruments"] for i in instruments(p)})
            given = ch.choose("instrument", [i for i in allinst if i not in mine] + ["Unknown", "", "modis2"])
            open_all(platform, given, plain(mine[0]), ch, converters=False)

        ctx.explore("foreign", foreign, workers=8, split=1)

        def unknown(ch):
            platform, given = ch.choose("pair", UNKNOWN + [("Foo-1", "virr")])
            open_all(platform, given, plain(given), ch)

        ctx.explore("unknown", unknown)

        def missing(ch):
            platform = ch.choose("platform", sorted(GOLD["instruments"]) + ["Foo-2"])
            others = ch.flag("similar files")
            mine = instruments(platform) if platform in GOLD["instruments"] else ["bar"]
            for inst in mine:
                with w.Store() as empty:
                    empty.current()
                    name = plain(inst)
                    decoys = [(name, platform + "0"), (name, "Foo-9"), (name, "NOAA-19"), (name + "2", platform), (name[:-1], platform),
                              ("x" + name, platform), (name, "X" + platform)] + [(plain(i), platform) for i in mine]
                    for inst2, plat2 in decoys if others else []:
                        if (inst2, plat2) != (name, platform):
                            os.symlink(files.store.rsr_path("avhrr3", "NOAA-19"), empty.rsr_path(inst2, plat2))
                    try:
                        RelativeSpectralResponse(platform, inst)
                    except FileNotFoundError as err:
                        check(plain(inst) in str(err) and platform in str(err), "message does not name the file: %s", err)
                    else:
                        check(False, "missing file of %s %s went unnoticed", platform, inst)
                    ch.count(1)

        ctx.explore("missing", missing)

        def arguments(ch):
            args = ch.choose("args", [dict(), dict(platform_name="NOAA-19"), dict(instrument="avhrr/3"),
                                      dict(platform_name="NOAA-19", filename="x.h5"),
                                      dict(instrument="avhrr/3", filename="x.h5"),
                                      dict(platform_name="NOAA-19", instrument="avhrr/3", filename="x.h5")])
            try:
                RelativeSpectralResponse(**args)
            except ValueError:
                return
            check(False, "inconsistent arguments %s accepted", args)

        ctx.explore("arguments", arguments)

        # ---- the atmospheric correction
        lut = lut_dir(store)

        def correction(ch):
            platform = ch.choose("platform", sorted(GOLD["instruments"]))
            mine = instruments(platform)
            more = {i.upper() for i in mine} | {plain(i) for i in mine} if len(mine) == 1 else set()
            given = ch.choose("instrument", sorted(set(mine) | {i.replace("/", "-") for i in mine} | {"modis", "bogus"} | more))
            want = None
            if len(mine) == 1:
                want = plain(mine[0])
            elif given in mine:
                want = plain(given)
            try:
                ray = Rayleigh(platform, given, aerosol_type="rayleigh_only")
            except ValueError:
                check(want is None, "%s/%s refused", platform, given)
                return
            check(want is not None, "ambiguous %s/%s accepted", platform, given)
            check(plain(ray.sensor) == want and "/" not in ray.sensor, "%s/%s became %s", platform, given, ray.sensor)
            check(plain(normalize_sensor(platform, given)) == want, "normalised to %s", normalize_sensor(platform, given))
            ang = np.array([[10.0]])
            got = float(ray.get_reflectance(ang, ang, ang, "b1")[0, 0])
            # the table is linear in wavelength
            center = files.mark[(platform, want)]
            check(abs(got - lut(center)) < 0.05, "correction of %s/%s is for wavelength %.4f instead of %.4f", platform,
                  given, (got - 10) / 100 + 0.4, center)
            ch.count(1)

        ctx.explore("correction", correction)


def lut_dir(store, slope=1.0):
    """Tables whose reflectance is linear in wavelength and the same for all angles."""
    import h5py
    path = os.path.join(store.rayleigh_dir, "rayleigh_only")
    os.makedirs(path, exist_ok=True)
    with open(os.path.join(path, GOLD["lut_version"]["rayleigh_only"]["filename"]), "w") as out:
        out.write(GOLD["lut_version"]["rayleigh_only"]["version"])
    wvl = np.linspace(400, 800, 3)
    with h5py.File(os.path.join(path, "rayleigh_lut_us-standard.h5"), "w") as h5f:
        h5f["wavelengths"] = wvl
        h5f["azimuth_difference"] = np.linspace(0, 180, 3)
        h5f["sun_zenith_secant"] = np.linspace(1, 4, 4)
        h5f["satellite_zenith_secant"] = np.linspace(1, 3, 3)
        h5f["reflectance"] = np.broadcast_to((0.1 + (wvl / 1000 - 0.4) * slope)[:, None, None, None], (3, 4, 3, 3)).copy()
    return lambda center: 10.0 + (center - 0.4) * slope * 100
