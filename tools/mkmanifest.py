#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
TRACE = "TLA+ trace validation with TLC: "
T = {
 "C01": (TRACE + "requests answered by compiled generated matchers are judged against the request state machine Router.tla",
         "every sampled declared route of TLC-enumerated and TLC-simulated configurations; sampled, not exhaustive, over configurations"),
 "C02": (TRACE + "requests off the declared paths, judged against Router.tla", "as C01, over near-miss requests"),
 "C03": (TRACE + "parameter bindings, judged against Router.tla and the value types of Text.tla", "as C01, parameter types limited to those of Text.tla"),
 "C04": (TRACE + "malformed values, judged against Router.tla", "as C03"),
 "C05": (TRACE + "pairs of spellings, judged against Router.tla", "as C01"),
 "C06": (TRACE + "arbitrary byte strings, judged against Router.tla", "as C01; panics and hangs are observations"),
 "C07": (TRACE + "to_path round trips of route values, judged against Router.tla", "as C03"),
 "C08": (TRACE + "redirects, judged against Router.tla", "as C01"),
 "C09": (TRACE + "field lists of generated route structs and matched query values, judged against Fields/Router of Api.tla and Router.tla", "as C01"),
 "C10": (TRACE + "items of the generated module and rustc's verdict, judged against the module structure of Api.tla",
         "as C01; identifier names; rustc decides compilation"),
 "C11": ("TLA+ model checking with TLC of the printer/reader pair (RouteFile.tla), then trace validation of stringify and route_config",
         "configurations bounded in the model, sampled larger ones on the code"),
 "C12": ("TLA+ reader automaton (RouteFile.tla): files generated by TLC are replayed into the real parser",
         "as C11"),
 "C13": ("TLA+ reader automaton with viable-prefix check (RouteFile.tla): mutated files judged by TLC against the parser's verdict and diagnostics",
         "line-level mutations of TLC-generated and random files"),
 "C14": ("TLA+ state machine of mount programs (Mount.tla), model checked with TLC, its behaviours replayed into mount, routers of mounted configurations judged by Router.tla",
         "programs bounded by the model's constants"),
 "C15": ("TLA+ enumeration with TLC of all ambiguities one edit away (Ambiguity.tla) and all small trees (AnyTree.tla), replayed into codegen, verdicts judged by Refusal.tla",
         "trees bounded by the model's constants"),
 "C16": ("TLA+ specification of the three notations (Spellings.tla): TLC enumerates declarations, the values of compiled macros, structs and parsed text and repeated generations are judged by TLC",
         "declarations bounded by the model's constants; names that are Rust identifiers"),
 "C17": ("TLA+ model of a faulty writer (Sink.tla), model checked with TLC, its fault scripts replayed into codegen and the event traces judged by TLC",
         "a failure at every write and flush of the generated code of a set of configurations, bounded scripts of short writes and interruptions"),
 "C18": ("TLA+ state machine of a build (Builder.tla), model checked with TLC, its behaviours replayed as processes and judged by TLC",
         "builder programs bounded by the model's constants, x fault points of environment, input and output"),
 "C19": (TRACE + "headers read, printed and emitted, judged against RouteFile.tla and Api.tla", "as C12"),
 "C20": (TRACE + "documentation comments of generated modules, judged against Api.tla", "as C10"),
}
from vf.checks import ALL
have = sorted(set(ALL()))
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks = [{"property": p, "quick_cmd": "python3 tools/run.py %s quick" % p,
           "thorough_cmd": "python3 tools/run.py %s thorough" % p,
           "evidence_file": "evidence/%s.json" % p, "technique": T[p][0], "level": "model_checking",
           "level_note": T[p][1]} for p in have]
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh",
           "hooks": {"guard": "none: the public interface already exposes the abstract state",
                     "enable": "nothing to enable", "source_commits": []},
           "checks": checks,
           "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in have],
           "notes": "TLA+ with TLC; specifications in spec/, drivers in tools/vf, replay harness in harness/"},
          open("/verif/MANIFEST.json", "w"), indent=1)
