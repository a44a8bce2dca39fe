"""Source of properties.jsonl (run:  python3 mc/_props.py > properties.jsonl)."""
import json

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=["pyspectral/" + f if "/" not in f and f != "plot_some_band.py" else f for f in files],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=observe, hook_needed=None)))


prop("C01", "Cached Tb-to-radiance tables survive crashes and concurrent processes",
     "The temperature-to-radiance table that the near-infrared reflectance calculator caches on disk is complete and "
     "correct whenever it can be found under its name: whatever instant the process creating it is killed at (also in "
     "the middle of a write), and however several processes or threads that create or read the same table interleave, every "
     "calculator constructed meanwhile or afterwards is constructed without error and gives the same reflectances as "
     "one with an empty cache.",
     ["schedules", "crash_points"],
     "every file system step of the creating process as kill point, with every torn-write length class; every "
     "interleaving of the file system steps of two and three processes; interleavings of the lines of two threads with bounded preemptions",
     "The tests build one calculator in one process in a private directory and never kill or interleave anything.",
     ["near_infrared_reflectance.py", "radiance_tb_conversion.py"],
     [("the table is written to a temporary file and renamed", "radiance_tb_conversion.py: make_tb2rad_lut"),
      ("existence check, creation and reading back", "near_infrared_reflectance.py: Calculator._set_lut")],
     ["Calculator construction and reflectance_from_tbs in processes sharing tb2rad_dir"],
     [("table file", "cached table of one platform, instrument, band, detector", "tb2rad_dir")])

prop("C02", "Reflectance results never depend on the history of the cache or of calls",
     "For given spectral response data, what a near-infrared reflectance calculator returns depends only on its own "
     "construction arguments (platform, instrument, band however it is named, detector, solar flux, limits) and on the "
     "arguments of the call: any sequence of calculators built before in the same cache directory, and any sequence of "
     "calls made before on the same calculator (with or without CO2 correction, other shapes and types, emissive part "
     "requested in between), leaves the result the same as from a fresh calculator with an empty cache.",
     ["histories"],
     "all sequences of constructions and of calls up to a bounded depth over an alphabet of platforms, instruments, "
     "band spellings, detectors and call variants",
     "The tests reuse one calculator along one fixed sequence, and one cache directory for one band and detector.",
     ["near_infrared_reflectance.py", "radiance_tb_conversion.py"],
     [("cache file name from platform, instrument, band and detector", "near_infrared_reflectance.py: _set_lutfile"),
      ("per-call reset of the CO2 correction", "near_infrared_reflectance.py: _calculate_rad3x_correction")],
     ["Calculator.reflectance_from_tbs", "Calculator.emissive_part_3x"],
     [("table cache", "files in tb2rad_dir", "tb2rad_dir"),
      ("intermediate results", "radiances and correction kept on the calculator between calls", "Calculator")])

prop("C03", "Data stores are never up to date while incomplete",
     "A local data store (the spectral responses, or the atmospheric correction tables of one aerosol type) counts as "
     "up to date only if every file of the published archive is in place with its full content: whatever instant an "
     "update is killed at and whatever fault it meets (error status, refused connection, transfer cut after any amount "
     "of data, a full disk), the store is afterwards either not up to date or complete. A failed update raises an error, "
     "and the next undisturbed update makes the store complete and up to date and leaves no archive file behind.",
     ["crash_points", "fault_sequences", "histories"],
     "every file system step of an update as kill point with torn writes, every network fault, archives with the "
     "version file at every position, stores empty, old, or left over from an earlier interrupted update, up to two "
     "disturbances in a row",
     "The tests replace the download by one perfect in-memory archive.",
     ["utils.py", "rsr_reader.py", "rayleigh.py"],
     [("download, check and extraction of the archive, version file last", "utils.py: _download_tarball_and_extract"),
      ("version files tell whether a store is up to date",
       "rsr_reader.py: rsr_data_version_uptodate; rayleigh.py: _get_lutfiles_version")],
     ["files in rsr_dir and rayleigh_dir", "whether a following use downloads again"],
     [("version file", "claims which version the store holds", "rsr_dir, rayleigh_dir/<aerosol type>")])

prop("C04", "Downloads happen exactly when needed, allowed and requested",
     "An implicit update (opening spectral responses by platform and instrument, or an atmospheric correction) contacts "
     "the network if and only if the store it needs is not at the required version and downloading is enabled in the "
     "configuration; an explicit check fetches exactly the requested stores that are out of date, an explicit download "
     "exactly those requested, and a dry run, a current store or reading an explicitly named file contact nothing and "
     "change no data. Each store is fetched from its own address and unpacked in its own place, once per request, and "
     "data files of other stores stay untouched.",
     ["histories", "configurations"],
     "all sequences up to a bounded depth of opening, checking, downloading and dry-running, over store versions "
     "(missing, empty, old, newer, current), download setting on/off/missing, destinations and aerosol type selections",
     "The tests check single calls on two version states with a mocked response.",
     ["utils.py", "rsr_reader.py", "rayleigh.py", "bin/download_rsr.py", "bin/download_atm_correction_luts.py"],
     [("version comparison and download switch", "rsr_reader.py: download_rsr_updates; rayleigh.py: Rayleigh.__init__"),
      ("selection of outdated aerosol types", "rayleigh.py: check_and_download"),
      ("addresses and destinations", "utils.py: download_rsr, download_luts")],
     ["HTTP requests sent", "files changed in the stores"],
     [("store versions", "content of the version files", "rsr_dir, rayleigh_dir")])

prop("C05", "Every platform and instrument spelling resolves to the right response data",
     "For every supported platform, any accepted spelling of one of its instruments (upper or lower case; with slash, "
     "dash or neither where the name has one) opens the spectral responses of exactly that instrument on that "
     "platform; an instrument the platform does not carry is replaced by the platform's (first) instrument; a platform "
     "that is not known is used with the instrument as given. The reported name is itself an accepted spelling of the "
     "same data, and a missing file is reported as such.",
     ["inputs", "configurations"],
     "all supported platforms times all their instruments times all spellings, plus foreign and unknown instruments and "
     "platforms, for the responses, the converters and the atmospheric correction",
     "The tests look at about a dozen platform and instrument pairs and no round trip of the reported name.",
     ["utils.py", "rsr_reader.py", "rayleigh.py"],
     [("platform to instrument table and name adjustment", "utils.py: INSTRUMENTS, check_and_adjust_instrument_name"),
      ("file name from platform and instrument", "rsr_reader.py: _get_rsr_filename"),
      ("sensor name check", "rayleigh.py: normalize_sensor")],
     ["RelativeSpectralResponse, RadTbConverter and Rayleigh opened on a store with one marked file per pair"])

prop("C06", "Band aliases reach the same band through every interface",
     "For every instrument with translated band names, asking for a band by its alias gives the data of the band it "
     "stands for, by its stored name the data stored under that name, and an "
     "unknown name is an error or the given default, never another band. This is the same for the response table, the "
     "radiance converters, the reflectance calculator and the atmospheric correction.",
     ["inputs"],
     "all instruments with aliases times all aliases and stored names, all small sets of stored bands, all interfaces",
     "The tests look up a few aliases of two instruments through one interface.",
     ["bandnames.py", "rsr_reader.py", "radiance_tb_conversion.py", "near_infrared_reflectance.py", "rayleigh.py"],
     [("alias table", "bandnames.py: BANDNAMES"), ("fallback look-up", "rsr_reader.py: RSRDict"),
      ("band name resolution", "radiance_tb_conversion.py: _get_rsr; rayleigh.py: "
                               "_get_effective_wavelength_and_band_name")],
     ["RSRDict lookups", "RadTbConverter.response", "Calculator", "Rayleigh.get_reflectance"])

prop("C07", "Looking up a band by wavelength finds exactly the matching bands",
     "Looking up a band by wavelength gives, by their standard names, exactly the bands whose central wavelength is "
     "closer to it than the given tolerance (and than 2 micrometres): nothing if there is none, the name if there is one, and for several "
     "the list of all of them if several are asked for and otherwise an error. The order in which bands are stored "
     "does not matter to which bands are found.",
     ["inputs", "configurations"],
     "all ordered sets of up to four bands over a grid of central wavelengths, times requested wavelengths, tolerances "
     "and single/multiple mode, including exact ties and the edge of the tolerance",
     "The tests try a handful of wavelengths on one instrument.",
     ["utils.py", "rsr_reader.py"],
     [("distance test over all bands", "utils.py: get_bandname_from_wavelength")],
     ["get_bandname_from_wavelength as function and as method", "RadTbConverter by wavelength"])

prop("C08", "Wavenumber conversion keeps every response with its wavelength",
     "Converting spectral responses to wavenumbers gives for every band and detector the same number of samples, each "
     "response at the reciprocal of its wavelength, in reversed order, with units, scale and central wavenumber to "
     "match, and leaves the data it was computed from and all other open responses unchanged. Integrals are available "
     "in the current wave space, and converting converted responses is refused without changing them.",
     ["histories", "inputs"],
     "all sequences of converting, integrating, looking up and opening further objects up to a bounded depth, over "
     "multi-band multi-detector data with distinct sample counts",
     "The tests convert one band of one object once.",
     ["rsr_reader.py", "utils.py"],
     [("reversal and reciprocal per detector", "utils.py: convert2wavenumber"),
      ("in-place conversion with state flag", "rsr_reader.py: RelativeSpectralResponse.convert")],
     ["RelativeSpectralResponse.rsr, unit, si_scale, integral", "convert2wavenumber"],
     [("wave space", "wavelength or wavenumber", "RelativeSpectralResponse")])

prop("C09", "Spectral responses survive storage in HDF5 and are read in micrometres",
     "Spectral responses written with the library's converter and opened again have the same bands, detectors, "
     "wavelengths in micrometres (whatever unit they are stored in), responses and central wavelengths, to single "
     "precision. Any file in the internal format is read likewise, whether detectors share or have their own "
     "wavelengths and central wavelengths, text attributes are text or bytes, and the platform is given by name or by "
     "satellite and number; a file that has been replaced is read as it then is.",
     ["inputs", "configurations"],
     "all small combinations of band sets, detector counts, storage scales, shared or separate datasets, attribute "
     "encodings and platform descriptions, plus the instrument data shipped with the package",
     "The tests read one mocked file and never write one.",
     ["utils.py", "rsr_reader.py", "rsr_convert_scripts/modis_rsr.py", "rsr_convert_scripts/seviri_rsr.py"],
     [("writer", "utils.py: convert2hdf5"), ("reader", "rsr_reader.py: _load_rsr_info_from_file"),
      ("text attributes", "utils.py: convert2str, np2str")],
     ["RelativeSpectralResponse(filename=...)"])

prop("C10", "Planck function and its inverse agree with physics for every input form",
     "The blackbody radiance follows Planck's law for every positive wavelength or wavenumber and temperature, is "
     "undefined (NaN) for zero or undefined temperatures, and grows with temperature; the inverse returns the "
     "temperature the radiance came from. Scalars, integers, single and double precision, numpy, dask and xarray "
     "inputs, positional and keyword arguments and any chunking give the same values, in the precision of the input "
     "and in the kind of container given.",
     ["inputs"],
     "all combinations of a grid of wavelengths/wavenumbers and temperatures with every container, element type, "
     "shape, chunking and calling convention",
     "The tests use about ten values in double precision.",
     ["blackbody.py", "utils.py"],
     [("Planck's law and its inverse", "blackbody.py"), ("block-wise mapping", "utils.py: use_map_blocks_on")],
     ["blackbody, blackbody_wn, blackbody_rad2temp, blackbody_wn_rad2temp"])

prop("C11", "Band radiances equal the response-weighted integral of Planck's law",
     "The radiance of a band at a temperature is the integral of Planck's law over the response of the requested band "
     "and detector in the requested wave space, divided by the integral of the response when normalised, and grows "
     "with temperature. Using a table made by the converter gives the directly computed radiance of the nearest table "
     "temperature below within one table step, constant outside the table range and NaN for NaN, and converting a "
     "radiance back gives the temperature within the error of using the central wavelength.",
     ["inputs", "configurations"],
     "all combinations of response shapes, bands, detectors, wave spaces, normalisation, table resolutions, a "
     "temperature grid with all table edges, containers, element types and chunkings",
     "The tests check three temperatures on two bands.",
     ["radiance_tb_conversion.py", "blackbody.py", "utils.py"],
     [("integration over the response", "radiance_tb_conversion.py: RadTbConverter.tb2radiance"),
      ("table creation and look-up", "radiance_tb_conversion.py: make_tb2rad_lut, tb2radiance"),
      ("inverse by central wavelength", "radiance_tb_conversion.py: radiance2tb")],
     ["RadTbConverter"])

prop("C12", "SEVIRI radiance and temperature conversions are exact inverses",
     "For every Meteosat with tabulated coefficients and every infrared band, by any of its names, the conversion "
     "between temperature and radiance by regression follows the documented formula with that satellite's and band's "
     "coefficients, and the two directions are inverse to each other. Unsupported satellites, bands, table use and "
     "band-integrated radiances are refused.",
     ["inputs"],
     "all satellites times all band names and aliases times a temperature grid, containers and element types",
     "The tests check one temperature in one band.",
     ["radiance_tb_conversion.py"],
     [("coefficients and formulas", "radiance_tb_conversion.py: SEVIRI, SeviriRadTbConverter")],
     ["SeviriRadTbConverter.tb2radiance, radiance2tb"])

prop("C13", "Near-infrared reflectance follows its formula and is masked where invalid",
     "For every pixel the near-infrared reflectance is (measured minus thermal radiance) over (solar minus thermal "
     "radiance), with the thermal part CO2-corrected exactly when a CO2 band is given and the solar part taken at the "
     "zenith angle limited to the configured threshold; it is undefined exactly where the zenith angle is negative or "
     "beyond the masking limit (if any), where the solar part does not exceed the thermal part by the documented "
     "margin, or where an input is undefined or masked. A pixel's value does not depend on other pixels, container, "
     "shape, chunking or whether evaluation is delayed, and has the precision of the input.",
     ["inputs", "configurations"],
     "all combinations of a grid of zenith angles and temperatures with all thresholds and special values, limits, CO2 "
     "on/off, containers, element types, shapes and chunkings",
     "The tests check about six pixels.",
     ["near_infrared_reflectance.py", "radiance_tb_conversion.py", "solar.py"],
     [("reflectance formula and mask", "near_infrared_reflectance.py: reflectance_from_tbs"),
      ("CO2 correction", "near_infrared_reflectance.py: derive_rad39_corr")],
     ["Calculator.reflectance_from_tbs"])

prop("C14", "The emissive part complements the reflectance and falls back at night",
     "After a reflectance has been derived, the emissive part of every pixel is the thermal radiance times one minus "
     "that reflectance where the reflectance is defined, and the measured radiance where it is not (night, twilight), "
     "so it is undefined only where the measurement is. As a temperature it is the inverse Planck function of that "
     "radiance, and asking for it repeatedly or in the other form gives the same answer.",
     ["inputs", "histories"],
     "all combinations of the reflectance input grid with radiance/temperature form, containers and call sequences",
     "The tests check three pixels in temperature form.",
     ["near_infrared_reflectance.py", "radiance_tb_conversion.py"],
     [("emissive part", "near_infrared_reflectance.py: emissive_part_3x")],
     ["Calculator.emissive_part_3x"])

prop("C15", "Rayleigh correction reproduces its tables and stays within 0 to 100 percent",
     "The atmospheric reflectance contribution equals the look-up table value (in percent) of the chosen aerosol type "
     "and atmosphere at the table nodes and the multilinear interpolation between them, with zenith angles limited to "
     "the table range and undefined zenith angles taken as zero; it is reduced linearly with the red band reflectance "
     "above 20 percent, and always lies between 0 and 100. Tables replaced on disk are used by every correction made "
     "afterwards. Outside the tabulated wavelength range it is zero "
     "everywhere. The result has the shape and container of the input and the element type of the red band, or of the sun "
     "zenith angles without one.",
     ["inputs", "configurations"],
     "all table nodes and cell midpoints of several tables, all angle edge and special values, red band levels, "
     "wavelengths inside, at and beyond both ends and at all nodes, band names, aerosol types and atmospheres, element "
     "types, containers, shapes",
     "The tests check four pixels of a few combinations.",
     ["rayleigh.py"],
     [("wavelength interpolation", "rayleigh.py: _get_wavelength_adjusted_lut_rayleigh_reflectance"),
      ("angle interpolation and clipping", "rayleigh.py: _interp_rayleigh_refl_by_angles"),
      ("cloud relaxation and final clipping", "rayleigh.py: get_reflectance")],
     ["Rayleigh.get_reflectance"])

prop("C16", "Block-wise results are the same for every chunking and thread schedule",
     "Every array computation that accepts chunked arrays (inverse Planck, table look-up, near-infrared reflectance and "
     "emissive part, Rayleigh correction and its reduction, limb correction) gives, element for element, the same "
     "result as on the whole numpy array, for every way of cutting the input into blocks, every order in which the "
     "blocks are evaluated and every interleaving of threads evaluating them at the same time. Building the delayed "
     "result evaluates nothing.",
     ["schedules", "inputs"],
     "all chunkings of small 1-D and 2-D arrays, all evaluation orders of the block tasks, and all line-level "
     "interleavings of two threads within a preemption bound",
     "The tests use a single chunk and whatever order the default scheduler takes.",
     ["utils.py", "blackbody.py", "radiance_tb_conversion.py", "near_infrared_reflectance.py", "rayleigh.py",
      "atm_correction_ir.py"],
     [("block mapping", "utils.py: use_map_blocks_on; rayleigh.py: _map_blocks_or_direct_call"),
      ("table look-up per block", "radiance_tb_conversion.py: tb2radiance")],
     ["computed results of delayed arrays under a controlled scheduler"])

prop("C17", "Reducing the Rayleigh correction at high zenith is a clipped linear ramp",
     "The reduction for high zenith angles multiplies the correction by one up to the threshold angle, decreases it "
     "linearly with the given strength towards the maximum angle and never makes it negative or larger, for any "
     "ordering of angle and limits that leaves threshold below maximum; where the angle or the correction is "
     "undefined (NaN) the result is. Container, shape and element type of the "
     "correction are kept (for angles of the same type) and inputs are unchanged.",
     ["inputs"],
     "all combinations of zenith angles (with edges and special values), correction values, thresholds, maxima, "
     "strengths and containers",
     "The tests check four angles.",
     ["rayleigh.py"],
     [("ramp and clipping", "rayleigh.py: reduce_rayleigh_highzenith")],
     ["Rayleigh.reduce_rayleigh_highzenith"])

prop("C18", "In-band solar flux is a true integral, stable under repeated use",
     "The in-band solar flux is the integral of the solar spectrum weighted with the response of the requested detector, "
     "the in-band irradiance the flux divided by the integral of the response; both scale as they should with the "
     "response, agree between wavelength and wavenumber representation and use the resolution the spectrum was "
     "created with. The solar constant is conserved by changing representation, and no sequence of calls on one "
     "spectrum object changes later results.",
     ["inputs", "histories"],
     "all sequences of flux, irradiance, interpolation and solar constant requests up to a bounded depth, over response "
     "shapes, detectors, scale factors, resolutions and representations",
     "The tests compute one flux per fresh object.",
     ["solar.py"],
     [("resampling and integration", "solar.py: _band_calculations, interpolate"),
      ("representation change", "solar.py: convert2wavenumber")],
     ["SolarIrradianceSpectrum"],
     [("resampled spectrum and resolution", "kept between calls", "SolarIrradianceSpectrum")])

prop("C19", "Infrared limb correction treats every pixel by its own view angle",
     "The limb correction adds to every pixel the documented amount for its own temperature and satellite zenith angle: "
     "the nadir term at exactly zero, the off-nadir term between 0 and 90 degrees, nothing elsewhere. Plain, masked and "
     "dask arrays agree, masked pixels stay masked and uncorrected, the correction object leaves the caller's data "
     "unchanged, and the in-place function changes its data argument and nothing else.",
     ["inputs"],
     "all combinations of temperatures and zenith angles (with edges and special values), masks, containers, element "
     "types and shapes",
     "The tests check one masked and one dask array of moderate angles.",
     ["atm_correction_ir.py"],
     [("correction formula", "atm_correction_ir.py: viewzen_corr")],
     ["AtmosphericalCorrection.get_correction", "viewzen_corr"])

prop("C20", "Configuration is read afresh and every override or mock is undone",
     "The configuration in force is always that of the file named explicitly, else of the one named by the environment, "
     "else the built-in one, as it is on disk at the time; a named file that does not exist is an error, and the data "
     "directories default to the user's data directory and exist after reading. However the testing context managers "
     "are nested and whether they are left normally or by an exception, inside them the innermost override is in force "
     "and nothing is downloaded, and afterwards environment, configuration and behaviour are as before.",
     ["histories", "configurations"],
     "all nestings of the context managers up to a bounded depth with an exception at every point, and all sequences of "
     "changing file, environment and explicit argument",
     "The tests enter single context managers and leave them normally.",
     ["config.py", "testing.py"],
     [("file selection and defaults", "config.py: get_config"),
      ("override and restore", "testing.py: override_config and the mock_* context managers")],
     ["get_config", "environment variables", "RelativeSpectralResponse, Rayleigh, Calculator inside and after mocks"],
     [("environment variable", "selects the configuration file", "os.environ"),
      ("patched functions", "active while a mock is entered", "pyspectral.testing")])

prop("C21", "Turning logging on and off always takes effect",
     "After turning logging on with a level (or debugging on), messages of at least that level reach the console exactly "
     "once and lower ones do not; after turning it off nothing is printed. This holds after every sequence of turning "
     "logging on, off and to other levels, and for loggers obtained at any time.",
     ["histories"],
     "all sequences of the switching calls up to a bounded depth, followed by messages of every level from root, "
     "library and own loggers",
     "The tests never switch logging.",
     ["utils.py"],
     [("handler installation and removal", "utils.py: logging_on, logging_off, get_logger")],
     ["what is written to the console"],
     [("logging switch", "whether the console handler is installed", "pyspectral.utils")])

prop("C22", "Spectral shape measures obey their definitions on every response curve",
     "Sorting a response curve yields strictly increasing wavelengths covering exactly the given ones, each with a "
     "response it was given with; the central wavelength is the response-weighted mean (with the given weight); the wavelength range is bounded by "
     "the first and last samples above the threshold, the half-maximum width spans the samples of at least one half, "
     "and the energy bounds enclose the samples between the given cumulative percentages. Undefined cases are "
     "reported, and inputs stay unchanged.",
     ["inputs"],
     "all response curves over small grids of sample values and wavelengths (unsorted, duplicated) up to length five "
     "with all thresholds",
     "The tests use one measured curve, with wavelength and response swapped in two of them.",
     ["utils.py"],
     [("definitions", "utils.py: sort_data, get_central_wave, get_wave_range, get_fullwidth_halfmax, "
                      "get_bounds_integrated_energy")],
     ["the functions named"])

prop("C23", "Computations never alter the caller's data or other objects",
     "No public computation changes the arrays, tables or options passed to it (the documented in-place limb correction "
     "excepted), the shared name and version tables, or the results returned earlier; objects built from the same data "
     "do not influence each other, whatever order they are used in.",
     ["histories", "inputs"],
     "all ordered pairs of public operations on shared inputs and shared objects, over containers and element types, "
     "with read-only and writable inputs",
     "The tests check return values, not what happened to the arguments or to other objects.",
     ["utils.py", "rsr_reader.py", "blackbody.py", "radiance_tb_conversion.py", "near_infrared_reflectance.py",
      "solar.py", "rayleigh.py", "atm_correction_ir.py", "config.py"],
     [("pure array functions; copies where data is changed", "all modules")],
     ["arguments, earlier results and shared tables after every call"])

prop("C24", "Raw data converters store every band's own responses in micrometres",
     "The converters of raw instrument data (rsr_convert_scripts) produce, for every platform and band they support, a file "
     "that is found by platform and instrument name and holds exactly the requested bands and detectors, each with the "
     "wavelengths (in micrometres, whatever unit the raw data are in: nanometres, micrometres, metres, \u00e5ngstr\u00f6m or "
     "wavenumbers), responses (as fractions where the raw data are percentages) and central wavelength of its own raw data, "
     "raw data by wavenumber reversed to increasing wavelength, whichever bands are converted and in whichever order. Missing raw data of a "
     "requested band never yield a readable file.",
     ["inputs", "configurations"],
     "every converter, platform, band, band subset and order in the alphabet, number of samples, number of header lines, "
     "detectors with equal and different wavelengths, fraction or percent, raw data of one band missing",
     "The tests do not touch the converters.",
     ["utils.py", "raw_reader.py"] + ["rsr_convert_scripts/%s.py" % n for n in (
         "aatsr_reader abi_rsr agri_rsr ahi_reader ami_reader avhrr1_rsr avhrr_rsr cocts_rsr epic_reader fci_rsr ghi_rsr "
         "goci2_rsr mersi1_rsr mersi2_rsr mersi3_rsr mersirm_rsr metimage_rsr msi_reader msu_gs_reader msu_gsa_reader "
         "olci_rsr seviri_rsr slstr_rsr slstr_rsr_txt viirs_rsr virr_rsr").split()],
     [("reading of raw data", "rsr_convert_scripts: the _load methods"), ("paths and options", "raw_reader.py: InstrumentRSR"),
      ("writer", "utils.py: convert2hdf5")],
     ["RelativeSpectralResponse(platform, instrument) after a conversion"])

prop("C25", "Command-line tools show the requested bands of the requested platforms",
     "The plotting tools (bin/plot_rsr.py, bin/composite_rsr_plot.py, plot_some_band.py) draw, for every platform, instrument and "
     "selection of bands (by name or other spelling of it, by approximate wavelength, by wavelength range with excluded bands), "
     "exactly the curves selected, each once, with its own wavelengths and all responses above the minimum response, under its own "
     "label, and save one figure; a platform without data or without any of the named instruments adds nothing, and never "
     "repeats the curves of another platform. bin/find_wavelengths_for_satpy.py prints for exactly the requested bands and "
     "detector the first wavelength above the threshold, the central wavelength and the last wavelength above the threshold.",
     ["inputs", "configurations"],
     "platform sequences, instrument lists, ways of selecting bands, thresholds, limits, titles, detectors",
     "The tests do not run the tools.",
     ["bin/plot_rsr.py", "bin/composite_rsr_plot.py", "bin/find_wavelengths_for_satpy.py", "plot_some_band.py", "rsr_reader.py", "utils.py"],
     [("tools", "bin/*.py, plot_some_band.py"), ("selection by wavelength", "utils.py: get_bandname_from_wavelength"),
      ("ranges", "utils.py: get_wave_range")],
     ["figures when saved, text printed"])

if __name__ == "__main__":
    for p in P:
        print(json.dumps(p))
