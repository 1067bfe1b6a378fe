"""The listed properties; `python tools/props.py` writes properties.jsonl and MANIFEST.json
for those that have a check."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE, CONV, UT = "paconvert/base.py", "paconvert/converter.py", "paconvert/utils.py"
IMP, BAS, TEN = ("paconvert/transformer/%s_transformer.py" % x for x in ("import", "basic", "tensor_requires_grad"))
MAT, GV, MAIN = "paconvert/api_matcher.py", "paconvert/global_var.py", "paconvert/main.py"
MAP, AL, ATT = "paconvert/api_mapping.json", "paconvert/api_alias_mapping.json", "paconvert/attribute_mapping.json"

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe or ["the converted file", "return value of a run"], "hook_needed": None},
    })


prop("C01", "Code that does not use PyTorch is preserved exactly",
     "Every statement of the input that uses no API of a PyTorch-family package appears in the converted file with the same meaning (the same syntax tree), in the same order and in the same block, whatever Python construct it is and whether or not the rest of the file uses PyTorch. A file that uses no PyTorch at all keeps its syntax tree unchanged. This holds with formatting on or off and in both conversion modes.",
     ["programs", "configurations"], "all Python programs, with and without PyTorch statements in between; default/min mode, formatted or not",
     "The tests convert a few hundred snippets made of PyTorch calls and compare run results; ordinary Python syntax (match, nested f-strings, decorators, async, try*, escapes) around them is almost never exercised.",
     [CONV, UT, BASE, IMP, BAS, TEN],
     [("source emission and formatting of a file", CONV + ": Converter.transfer_file"), ("statement walking and line insertion", BASE + ": BaseTransformer"), ("what counts as a PyTorch use", BAS + ": BasicTransformer")])
prop("C02", "Every valid input converts to valid Python without aborting",
     "For any syntactically valid input file, in any supported source encoding, conversion ends without an exception and writes a file that, after removing the leading '>>>>>>' marks, parses and compiles as Python. It does so for every API in any legal call form, at any place an expression may stand, in default and min mode, with or without formatting.",
     ["programs", "inputs", "configurations"], "all valid Python files with any combination of API uses, argument forms and surrounding constructs",
     "Each API is tested in a handful of call forms as a top-level statement; combinations of call form, argument expression and surrounding syntax are unbounded.",
     [CONV, BASE, BAS, IMP, MAT, UT],
     [("node replacement and generated text parsing", BAS + ": BasicTransformer.visit_*"), ("code generation per API", MAT), ("writing", CONV + ": Converter.transfer_file")])
prop("C03", "A call converts the same wherever it stands and runs exactly as often",
     "The converted form of an API call does not depend on the statement or expression around it: it is the converted form of the same call standing alone, put in its place. Helper statements which a conversion needs are placed so that they run exactly when the call would have run - not earlier, not in another branch, scope or loop iteration; where that is impossible the call is left unchanged and reported as not converted.",
     ["programs"], "all places an expression may stand in (branches, loops, comprehensions, lambdas, defaults, decorators, conditions, nested calls) and all API calls, nested in each other to any depth",
     "Tests place nearly every API in a top-level assignment; the interplay of multi-statement conversions with control flow and evaluation order is not sampled.",
     [BASE, BAS, MAT],
     [("placing helper statements", BASE + ": BaseTransformer.record_scope/insert_multi_node/can_insert_before_stmt"), ("deciding whether they may be placed", BAS + ": BasicTransformer.visit_Call")])
prop("C04", "Conversion does not depend on how an API is imported or named",
     "Two programs that refer to the same APIs through different import forms (import, import as, from import, from import as, submodule imports, several names in one statement, imports inside functions or blocks) convert to the same code with the same statistics. An API reached through any of its documented alias names converts as the API itself does.",
     ["programs"], "all combinations of import forms, local names and placements of the imports, for all APIs",
     "Almost all tests use 'import torch' with full names; the import forms multiply with APIs and places.",
     [IMP, BASE, AL, "paconvert/api_wildcard_mapping.json", GV],
     [("resolution of names through imports", BASE + ": BaseTransformer.get_torch_api_from_node/get_full_attr_strict"), ("import bookkeeping", IMP + ": ImportTransformer"), ("alias tables", AL)])
prop("C05", "Positional, keyword and reordered arguments mean the same call",
     "For every API and every legal set of arguments, writing an argument by position or by keyword and writing the keywords in any order gives the same converted code and the same statistics.",
     ["inputs"], "all APIs, all legal argument subsets, all splits into positional and keyword, all keyword orders, placeholder and literal values",
     "Tests write two to four spellings per API by hand; with up to ten parameters the spellings are thousands per API and only some literals take special paths.",
     [BASE, MAT, MAP],
     [("binding of arguments to parameter names", BASE + ": BaseMatcher.parse_args_and_kwargs"), ("per-API rules", MAT)])
prop("C06", "Each API maps to its documented counterpart with every argument kept",
     "For every API of the mapping tables, every way of calling it converts to the target API and argument layout that the tables and the conversion rules define (same names, defaults added, renamed or dropped arguments as listed), and whether it is converted or reported as unsupported is part of that contract. Whatever expression stands as an argument reappears unchanged, converted only inside itself and bound as one operand, at the place of that argument.",
     ["inputs", "configurations"], "all 2106 APIs of the tables, all base call shapes and special literals, all argument expressions",
     "Tests execute selected calls and compare tensor values; many APIs have GPU-only, distributed or unsupported branches and argument forms that never run here, and argument expressions are almost always plain names or literals.",
     [MAP, ATT, MAT, BASE],
     [("mapping tables", MAP), ("per-API code generation", MAT), ("argument rendering", BASE + ": BaseMatcher.parse_args/parse_kwargs/kwargs_to_str")])
prop("C07", "What is not converted is kept whole, marked and reported, never silent",
     "A call that cannot be converted (unknown or unsupported API, unsupported argument) stays in the output as it was written, with only its convertible inner parts converted, and every output line on which a PyTorch name is still used starts with '>>>>>>'. No line without such a use is marked, and every marked use is counted as not converted.",
     ["programs", "inputs"], "all programs and calls with unsupported APIs, unsupported arguments, unknown names and the package used as a value, anywhere",
     "Unsupported cases are the ones tests skip or pin with one expected text each; the marks are computed from the whole text of the output.",
     [CONV, BAS, BASE, MAT],
     [("marking of unsupported lines", CONV + ": Converter.mark_unsupport"), ("falling back to the original node", BAS + ": BasicTransformer.visit_Call"), ("counting", BASE)],
     ["the converted file", "return value of a run", "API statistics"])
prop("C08", "The reported statistics are exact and additive",
     "The numbers of converted and not converted API uses that a run returns are exactly those of the uses in the input: each use counted once as converted or not converted, totals over a program or project equal to the sum over its parts, and the per-API lists of all and of unsupported APIs agree with those totals.",
     ["programs", "histories"], "all programs and projects, all ways of composing them, runs with and without the API lists",
     "Tests never look at the statistics except for one smoke run.",
     [CONV, BAS, BASE],
     [("counters", BASE + ": BaseTransformer.torch_api_count/success_api_count"), ("summary", CONV + ": Converter.run")],
     ["return value of a run", "API lists written on request"])
prop("C09", "A project directory is mirrored completely and exactly",
     "Converting a directory writes exactly one output file per input file at the same relative path, except hidden, cached and excluded paths: Python files converted as they would be alone, other files byte for byte, requirements files with only the torch dependency replaced, empty directories included, plus at most one helper file that is the union of what the files need. Unrelated files already present in the output directory stay, and the form in which the paths are given makes no difference.",
     ["inputs", "configurations"], "all directory trees, file names, exclude patterns, path spellings and states of the output directory",
     "Tests convert single files only.",
     [CONV, MAIN, UT],
     [("directory walk", CONV + ": Converter.transfer_dir"), ("exclusion", CONV + ": Converter.run"), ("helper file", UT + ": UtilsFileHelper")],
     ["output directory tree"])
prop("C10", "A run writes only its outputs and never touches the input",
     "Whatever the inputs and options, a run creates, changes or deletes nothing outside the output path, the requested log directory and the requested list files: the input tree keeps its contents, names, permissions and times, also when the run fails half-way, when the output directory lies inside the input directory, and when paths are relative or already exist.",
     ["inputs", "configurations", "fault_sequences"], "all trees, path arrangements and options, with failures injected at any file",
     "Tests read only the output file; nobody looks at the rest of the file system, and no test makes a run fail.",
     [CONV, MAIN, UT],
     [("output path computation", CONV + ": Converter.run/transfer_dir/transfer_file"), ("helper file path", UT + ": UtilsFileHelper"), ("log path", CONV + ": Converter.__init__")],
     ["file-system effects of a run"])
prop("C11", "A conversion does not depend on conversions done before it",
     "In one process, the output and statistics of a conversion are the same whatever was converted before it - other files, projects, modes, options or runs that failed - as in a fresh process.",
     ["histories"], "all sequences of conversions of different inputs, modes, options and failures before a given one",
     "Each test converts in whatever state earlier tests left, and only compares run results; leaks show up as order-dependent helper files, names and counts.",
     [GV, UT, CONV, BASE, MAT],
     [("process-wide state", GV + ": GlobalManager"), ("helper file singletons", UT + ": UtilsFileHelper"), ("generated names", UT + ": get_unique_name")])
prop("C12", "The output is a function of the input text and options alone",
     "Converting the same input with the same options gives byte-identical output and the same statistics whatever the hash seed, working directory, location of the input (and, but for the path itself, which a project's files name, of the output), order of directory listing and environment.",
     ["configurations", "inputs"], "all inputs under all hash seeds, working directories, locations and directory listing orders",
     "A test runs once per process under one hash seed.",
     [CONV, BASE, IMP, UT],
     [("ordering of imports, helpers and file lists", CONV), ("sets of packages", IMP)])
prop("C13", "Generated helper code is complete, present once and bound where it is used",
     "Every helper function, class or patched method that converted code relies on is defined exactly once and before its first use: in the file itself or, for a project, in the helper file that the converted file imports; nothing is defined for an API that is not used, and helper code is itself valid and self-contained. Converted code uses no name that neither the input uses nor the output defines.",
     ["programs", "configurations"], "all combinations of APIs that need helper code, in one file or spread over a project, in both modes",
     "Each test file needs the helpers of one API; combinations, duplicates and missing imports only show when several APIs or files meet.",
     [UT, MAT, BASE, CONV],
     [("helper registration and writing", UT + ": UtilsFileHelper"), ("helper code of an API", MAT + ": generate_utils_code")])
prop("C14", "Conversion is idempotent and leaves Paddle code alone",
     "Converting the output of a conversion again (the '>>>>>>' marks removed) changes nothing and counts nothing; code already written for Paddle is never rewritten, marked or counted, and its presence beside PyTorch code changes nothing in how that is converted.",
     ["programs"], "all converted outputs and all Paddle programs, repeatedly converted",
     "No test converts an output again.",
     [BAS, IMP, BASE, CONV],
     [("recognition of PyTorch names", IMP), ("recognition of tensor methods", BAS)])
prop("C15", "Min mode changes only what has to change",
     "In min mode a statement is rewritten exactly when it uses an API whose conversion is more than a package rename, and then as in the default mode; everything else, including the imports, keeps the text's meaning and its original names, and the statistics still count every use. (Attributes reached through an API that has no rule of its own are not covered.)",
     ["programs", "configurations"], "all programs and APIs converted in both modes",
     "Tests run min mode on a handful of snippets.",
     [GV, BASE, BAS, IMP],
     [("min mode decision", BASE + ": BaseTransformer.in_min_mode"), ("min API list", GV)])
prop("C16", "Converted code computes what the original computes",
     "Running a fully converted program with Paddle gives what running the original with PyTorch gives - same values, shapes, data types and requires_grad within floating-point tolerance - however the call is written (positional or keyword arguments in any order, defaults written out, arguments in variables or expressions, as function or method, inside functions, classes, loops or branches) and for whatever input data and options both frameworks accept.",
     ["programs", "inputs"], "all convertible programs and all argument values for which both sides are defined",
     "Tests run a fixed set of inputs per API.",
     [MAT, MAP, UT, BAS],
     [("per-API conversion rules", MAT), ("mapping tables", MAP)],
     ["values computed by the converted program"])
prop("C17", "Names that only look like PyTorch are not touched",
     "A name that does not come from a PyTorch-family package is never renamed, marked or counted, whatever it is called: the modules of the user's project (beside the importing file or imported relatively) and of other libraries with everything reached from them by attributes and calls, and the program's own functions, classes, parameters, local and comprehension variables.",
     ["programs", "configurations"], "all programs and projects whose own names coincide with names of PyTorch packages, APIs or the tool's internals",
     "Tests use conventional names; a collision needs a project layout or a local name that coincides with a PyTorch one.",
     [IMP, BAS, BASE, GV],
     [("project imports", IMP + ": visit_Import/visit_ImportFrom"), ("names bound in functions", BASE + ": is_local_name"), ("methods of other objects", BAS + ": visit_Call")])
prop("C18", "Options and entry points change only what they say",
     "Formatting changes layout only; expanding names only (only_complete) replaces imported names by full names and nothing else; excluding a package leaves exactly that package's uses alone; logging, lists and separate conversion change no converted file; and the command line gives byte for byte what the library call with the same settings gives.",
     ["configurations", "programs"], "all programs and projects under all option combinations and both entry points",
     "Options are exercised by one smoke run each, one at a time.",
     [MAIN, CONV, GV, IMP, "paconvert/example_code.py"],
     [("command line", MAIN), ("option handling", CONV + ": Converter.__init__/run"), ("package exclusion", GV)],
     ["converted files", "exit status", "standard output"])
prop("C19", "Generated names never collide with the user's or with each other",
     "Every variable that conversion introduces has a name that the file does not use for anything else, and no two calls share one; the helper functions and the package it introduces and the program's own names of the same spelling do not replace each other; and a paddle_utils.py the project already has keeps its content beside the new helper functions.",
     ["programs", "histories"], "all programs, including those using names of the form the tool generates, and any number of generated names",
     "Tests do not use names that look generated, and few generate two.",
     [UT, MAT, BASE],
     [("fresh names", UT + ": get_unique_name"), ("helper names", MAT)])

prop("C20", "The log names every use with its file, its line and what became of it",
     "At the most detailed level the conversion log has one entry per use of PyTorch, tagged with the file and the source line on which the use stands, that says whether it was converted (or removed) or is not supported; there are as many entries of each kind as the run reports, and at the default level none of the unsupported ones is missing. How the APIs are imported and what else is in the file do not change which entries there are; the log of a project is that of its files; a level only leaves lines out; terminal and log file get the same text, ending in the true summary.",
     ["programs", "configurations"], "all programs and projects, import forms, log levels and log destinations",
     "Tests convert with the log switched off.",
     [BAS, IMP, UT, CONV, BASE],
     [("entries about uses", BAS + ": BasicTransformer.visit_Call/visit_Attribute/trans_class_method"), ("tagging with file and line", UT + ": log_info"), ("positions of expanded names", IMP + ": ImportTransformer.visit_Name/visit_Attribute"), ("summary and destinations", CONV + ": Converter.__init__/run")],
     ["the conversion log", "return value of a run"])

TECH = {
    "C01": "property-based testing: grammar-generated programs, AST round-trip oracle",
    "C02": "property-based testing and generation-based fuzzing: grammar-generated programs and API sweep, crash/validity oracle",
    "C03": "property-based testing: metamorphic relation (call in context vs. call alone) over generated contexts, and execution traces of instrumented stand-in packages",
    "C04": "property-based testing: metamorphic relation over import forms and alias names",
    "C05": "property-based testing: metamorphic relation over argument spellings",
    "C06": "property-based testing: sweep of the API tables against a recorded reference model; substitution (metamorphic) relation over argument expressions",
    "C07": "property-based testing: generated programs, independent recomputation of the required marks from the output's syntax tree",
    "C08": "property-based testing: generated compositions against a model of the counts; additivity relation",
    "C09": "property-based testing: generated project trees against a model of the mirrored tree",
    "C10": "property-based testing with fault injection: generated trees and options, file-system snapshots and audit-hook record of writes",
    "C11": "stateful property-based testing: generated conversion histories against a pristine process",
    "C12": "property-based testing: differential runs under varied hash seeds, directories and listing orders",
    "C13": "property-based testing: generated combinations of helper-needing APIs, definition/use invariant on the outputs",
    "C14": "property-based testing: fixpoint relation on converted outputs and generated Paddle programs",
    "C15": "property-based testing: differential relation between min and default mode against a model",
    "C16": "property-based testing: differential execution of generated programs under PyTorch and Paddle",
    "C17": "property-based testing: metamorphic renaming relation on generated programs and projects",
    "C18": "property-based testing: differential runs over generated option combinations",
    "C19": "property-based testing: name-collision invariant over programs seeded with the names earlier conversions generated",
    "C20": "property-based testing: log entries against the counts and syntax tree of generated programs; metamorphic relations (moved statements, import forms, project vs. files, levels, destinations)",
}
NOTE = {}
NOT_APPLICABLE = []
PY = "/opt/venv/bin/python"


def main():
    have = [p for p in P if os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py"))]
    for p in have:
        assert len(p["title"]) <= 80, p["id"]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in have:
            f.write(json.dumps(p) + "\n")
    m = {
        "version": 1,
        "setup_cmd": PY + " /verif/tools/selfcheck.py",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "%s /verif/run.py %s quick" % (PY, p["id"]),
            "thorough_cmd": "%s /verif/run.py %s thorough" % (PY, p["id"]),
            "technique": TECH[p["id"]],
            "level": "exploration",
            "level_note": NOTE.get(p["id"], "generated-input search with a fixed number of cases per seed; bounds in DESIGN.md"),
        } for p in have],
        "not_applicable": NOT_APPLICABLE,
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print([p["id"] for p in have])


if __name__ == "__main__":
    main()
