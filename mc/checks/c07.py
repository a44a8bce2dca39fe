"""C07: band by wavelength."""
import itertools

from mc import world as w
from mc.core import check

GRID = [0.5, 0.5625, 0.625, 0.75, 2.5, 3.75]
# names as stored, and the standard name they are reported under, per instrument name
NAMES = {"viirs": (["M01", "I05", "DNB", "M16"], ["M1", "I5", "DNB", "M16"]),
         "modis": (["20", "1", "36", "X"], ["20", "1", "36", "X"]),
         "someone": (["20", "C01", "I01", "foo"], ["ch20", "ch1", "I1", "foo"]),
         "seviri": (["IR_039", "IR10.8", "HRV", "20"], ["IR3.9", "IR10.8", "HRV", "20"]),
         "fci": (["vis_06", "VIS0.8", "ir_38", "20"], ["VIS0.6_HR", "VIS0.8", "IR3.8_HR", "20"])}


def expected(std, cwl, wavelength, eps):
    return sorted(name for name, cw in zip(std, cwl) if abs(cw - wavelength) < eps and abs(cw - wavelength) < 2.0)


def judge(call, want, multiple, text):
    try:
        got = call()
        err = None
    except AttributeError as exc:
        got, err = None, exc
    if len(want) > 1 and not multiple:
        check(err is not None, "several bands %s match but %r was returned: %s", want, got, text)
        return "error"
    check(err is None, "unexpected error %r, expected %s: %s", err, want, text)
    if not want:
        check(got is None, "no band matches but %r was returned: %s", got, text)
    elif len(want) == 1:
        check(got == want[0], "%r instead of %r: %s", got, want[0], text)
    else:
        check(isinstance(got, (list, tuple)) and sorted(got) == want, "%r instead of %s: %s", got, want, text)
    return tuple(want)


def run(ctx):
    from pyspectral import utils

    requests = sorted(set(GRID + [0.4375, 0.53, 0.5938, 0.6875, 1.0, 2.625, 3.0, 3.7, 0.5 + 2.0, 5.75, 4.5]))
    epss = [None, 0.0625, 0.125, 0.1, 0.25, 2.5, 5.0, 0.0]

    def function(ch):
        sensor = ch.choose("sensor", list(NAMES))
        num = ch.choose("bands", range(0, ctx.pick(4, 5)))
        order = ch.choose("order", list(itertools.permutations(range(4), num)))
        cwls = list(itertools.product(ctx.pick(GRID, GRID + [0.7]), repeat=num))
        stored, std = NAMES[sensor]
        for cwl in cwls:
            rsr = {}
            for idx, cw in zip(order, cwl):
                rsr[stored[idx]] = {"det-1": {"central_wavelength": cw}, "det-2": {"central_wavelength": cw + 7.0},
                                      "det-3": {"central_wavelength": cw - 7.0}}
            names = [std[idx] for idx in order]
            for req, eps, multiple in itertools.product(requests if num < 3 else requests[::3],
                                                        epss if num < 3 else epss[1:6:2], [False, True]):
                kwargs = {} if eps is None else {"epsilon": eps}
                if multiple:
                    kwargs["multiple_bands"] = True
                want = expected(names, cwl, req, 0.1 if eps is None else eps)
                seen = judge(lambda: utils.get_bandname_from_wavelength(sensor, req, rsr, **kwargs), want, multiple,
                             "bands %s at %s, asked %s eps %s" % (list(rsr), cwl, req, eps))
                ch.state(len(want), multiple, seen == "error")
                ch.count(1)

    ctx.explore("function", function, workers=8, split=3)

    # ---- through the objects, on files
    cases = {"viirs": ("Suomi-NPP", ["M1", "I4", "M12"]), "modis": ("EOS-Aqua", ["20", "21", "1"]),
             "seviri": ("Meteosat-9", ["IR3.9", "IR10.8", "VIS0.6"])}

    def objects(ch):
        from pyspectral.near_infrared_reflectance import Calculator
        from pyspectral.radiance_tb_conversion import RadTbConverter
        from pyspectral.rsr_reader import RelativeSpectralResponse
        sensor = ch.choose("sensor", list(cases))
        platform, names = cases[sensor]
        cwl = ch.choose("centres", list(itertools.product([3.625, 3.75, 3.875], repeat=3)))
        with w.Store() as store:
            store.current()
            bands = {}
            for num, (name, cw) in enumerate(zip(names, cwl)):
                bands[name] = {"det-1": w.tri_band(cw, 0.25, 9 + 2 * num), "det-2": w.tri_band(cw + 2, 0.25, 9)}
            w.write_rsr(store.rsr_path(sensor, platform), bands, platform, sensor)
            rsr = RelativeSpectralResponse(platform, sensor)
            for req in (3.61, 3.66, 3.71, 3.79, 3.9, 4.01, 5.76):
                for eps in (None, 0.06, 0.25):
                    for multiple in (False, True):
                        kwargs = {} if eps is None else {"epsilon": eps}
                        want = expected(names, cwl, req, 0.1 if eps is None else eps)
                        judge(lambda: rsr.get_bandname_from_wavelength(req, multiple_bands=multiple, **kwargs), want,
                              multiple, "file bands %s asked %s eps %s" % (cwl, req, eps))
                        ch.count(1)
                want = expected(names, cwl, req, 0.1)
                for cls, kwargs in [(RadTbConverter, {}), (RadTbConverter, {"wavespace": "wavenumber"}),
                                    (Calculator, {"solar_flux": 2.0})]:
                    if cls is Calculator and not 3.5 <= req <= 3.95:
                        continue
                    try:
                        conv = cls(platform, sensor, req, **kwargs)
                        check(len(want) == 1, "%s by wavelength %s with bands at %s should fail", cls.__name__, req, cwl)
                        check(conv.bandname == want[0], "%s took %s instead of %s", cls.__name__, conv.bandname, want[0])
                        check(len(conv.response) == 9 + 2 * names.index(want[0]), "%s has the wrong response", cls.__name__)
                    except (AttributeError, KeyError) as err:
                        check(len(want) != 1, "%s by wavelength %s with bands at %s failed: %r", cls.__name__, req, cwl, err)
                    ch.count(1)

    ctx.explore("objects", objects, workers=8, split=2)
