"""Writes tools/levels.json: which properties are proved (edit PROVED / NOTES here)"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
TECH = "contract-based deductive verification: obligations generated from the real source by vc/ (pyvc), discharged by z3/cvc5; the same contract run on the real code for replay"
COMMON = ("Every obligation generated from the current source is discharged for all inputs satisfying the precondition (no bound on rows, processes, list lengths). "
          "Trusted: the verification-condition generator (vc/engine.py, vc/instrument.py), the solvers, and the contracts assumed for pandas/numpy (vc/tables.py, compared with the installed pandas by vc/conformance.py). "
          "Machine arithmetic is treated as mathematical. Termination is proved only where DESIGN.md says so. ")
NOTES = {
 "C01": "", "C02": "Matching enters through the contract of C01. ", "C03": "Matching enters through the contract of C01. ",
 "C04": "Matching and caller/callee links enter through the contracts of C01 and C02; the sum over an outermost call follows by adding the proved per-call equations. ",
 "C05": "", "C06": "Forest well-formedness is the object invariant; the constructors are proved to keep it. ", "C07": "", "C08": "numpy.histogram is trusted to count every value of the range in exactly one bin. ",
 "C09": "", "C10": "The flat profile enters through the contract of C09; a subset has at most as many elements as the set. ", "C11": "", "C12": "numpy.linspace is trusted to give evenly spaced values. ", "C13": "Flat profiles enter through the contract of C09. ", "C15": "", "C16": "pandas.read_csv is trusted to give the records of the file in order. ",
 "C17": "mp.Pool.map is trusted to give the results in order; the content of the table of a log is the subject of C18; that an OTF2 worker treats a location the same whatever else it reads is explored with a bound, not proved. ",
 "C18": "The contents of the sts file are arbitrary maps (its parser, STSReader.read_sts_file, is explored with a bound, not proved); gzip.open gives the lines of a log, str.split the fields of a line, int/float convert a field. ",
 "C20": "The lookups of contexts and profiles are functions of their arguments (their contracts are C21's) and the tree is a forest with distinct ids; that the merge of the lines by time keeps their order is explored with a bound, not proved. ",
 "C21": "The database is well formed (pointers point to structures of their kind, context ids are unique, sections hold whole structures); str.split and the codec are trusted. ",
 "C22": "pandas.read_csv is trusted to give the records of the report in order. ", "C23": "DataFrame.to_json is trusted to write the table it is given. ",
}
json.dump({p: {"level": "proof", "technique": TECH, "note": COMMON + n} for p, n in NOTES.items()}, open(os.path.join(HERE, "levels.json"), "w"), indent=1)
