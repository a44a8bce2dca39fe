"""Writes MANIFEST.json (run: python3 mc/manifest.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CODE = ("Bounded, exhaustive exploration of the real code (imported fresh from /repo's working tree); nothing is "
        "claimed outside the stated alphabet and bounds. ")
CHECKS = {
    "C01": ("stateless model checking of the real code: all crash points, torn writes and interleavings of file system steps",
            "Every watched file system call of real processes is a step; trusts the LD_PRELOAD shim to see them all."),
    "C02": ("explicit enumeration of all construction and call histories up to a bounded depth on the real code",
            "Oracle: fresh calculator with an empty cache plus an independent formula."),
    "C03": ("exhaustive crash-point, torn-write and network-fault enumeration on the real code, model of the store as oracle",
            "Kill points are the file system calls seen by the LD_PRELOAD shim; power loss reordering is out of scope."),
    "C04": ("explicit-state model of the stores; all operation sequences up to a bounded depth replayed on the real code",
            "HTTP is replaced at the adapter; the model predicts requests and store contents."),
    "C05": ("exhaustive enumeration of platform, instrument and spelling space against a golden model",
            "Golden table kept in mc/golden.json."),
    "C06": ("exhaustive enumeration of instrument, alias and interface space against a golden model",
            "Golden table kept in mc/golden.json."),
    "C07": ("exhaustive enumeration of ordered band sets and requests against a set model", ""),
    "C08": ("all operation sequences up to a bounded depth against an explicit model of the object", ""),
    "C09": ("exhaustive enumeration of small response files, write/read round trip against a model", ""),
    "C10": ("exhaustive enumeration of value, container, type, chunking and calling space against reference physics", ""),
    "C11": ("exhaustive enumeration of converter configurations and temperatures against reference integration", ""),
    "C12": ("exhaustive enumeration of satellites, bands, names and temperatures against the documented formula", ""),
    "C13": ("exhaustive enumeration of pixel classes and configurations against a per-pixel model", ""),
    "C14": ("exhaustive enumeration of pixel classes and call sequences against a per-pixel model", ""),
    "C15": ("exhaustive enumeration of table nodes, cells, special values and configurations against a reference interpolation", ""),
    "C16": ("all chunkings, all task orders and all line-level interleavings of two threads within a preemption bound on the real code",
            "Controlled dask scheduler and sys.settrace based controlled threads; steps are Python lines of pyspectral."),
    "C17": ("exhaustive enumeration of angle, limit and container space against a per-pixel model", ""),
    "C18": ("all call sequences up to a bounded depth against a reference integration", ""),
    "C19": ("exhaustive enumeration of pixel classes, masks and containers against a per-pixel model", ""),
    "C20": ("all nestings and exception points of the context managers up to a bounded depth against a stack model", ""),
    "C21": ("all sequences of switching calls up to a bounded depth against a two-variable state model", ""),
    "C22": ("exhaustive enumeration of all small response curves against the definitions", ""),
    "C23": ("all ordered pairs of public operations on shared inputs with before/after comparison", ""),
    "C24": ("exhaustive enumeration of converter, platform, band selection and raw data layout against the raw data written",
            "Raw data are synthetic, in the layouts the converters document; old Excel workbooks are replaced at xlrd."),
    "C25": ("exhaustive enumeration of platform sequences, instruments and band selections of the tools against a set model",
            "Figures are inspected at the moment they are saved (matplotlib's Figure.savefig is replaced)."),
}
PENDING = "check under construction"


def main():
    done = [c for c in CHECKS if os.path.exists(os.path.join(HERE, "mc", "checks", c.lower() + ".py"))]
    manifest = {
        "version": 1, "setup_cmd": "bash setup.sh",
        "checks": [{"property": c, "quick_cmd": "./run.sh %s --tier quick" % c,
                    "thorough_cmd": "./run.sh %s --tier thorough" % c, "evidence_file": "evidence/%s.json" % c,
                    "technique": CHECKS[c][0], "level": "model_checking",
                    "level_note": (CODE + CHECKS[c][1]).strip()} for c in done],
        "not_applicable": [{"property": c, "reason": PENDING} for c in CHECKS if c not in done],
        "notes": "See DESIGN.md. No hooks in /repo; known_findings.txt lists the repaired defects."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as out:
        json.dump(manifest, out, indent=1)
        out.write("\n")


if __name__ == "__main__":
    main()
